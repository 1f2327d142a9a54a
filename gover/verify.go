package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Name     string
	Obs      []*Oblig
	Trivial  int
	TrivBy   map[string]int
	Failed   []*Oblig
	Proved   int
	Unsup    string
	Wall     time.Duration
	Callees  []string // contracts used
	Inlined  []string
	Notes    []string
	Trusted  []string
	Vacuous  bool
	Returns  int
	BySolver map[string]int
	loopInf  map[string]*loopInfo
}

func newExec(pr *Prog) *Exec {
	ex := &Exec{pr: pr, heap0: map[string]*Term{}, trivBy: map[string]int{}, loopInf: map[string]*loopInfo{}, trusted: map[string]bool{}, inlined: map[string]bool{},
		used: map[string]bool{}, notes: map[string]bool{}, calledSpecs: map[string]bool{}, maxStep: 600000, deadl: time.Now().Add(time.Duration(240+120*tmul) * time.Second)}
	ex.ctr0 = mkVar("ctr0", sInt) // one name for all functions: heap terms are shared, and so are the facts about them
	return ex
}

// generate symbolically executes fn against its contract and returns the obligations.
func generate(pr *Prog, fn *ssa.Function) (res *FnResult) {
	t0 := time.Now()
	name := shortName(fn)
	res = &FnResult{Name: name, BySolver: map[string]int{}}
	ex := newExec(pr)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Unsup = u.msg
			} else {
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				res.Unsup = fmt.Sprintf("internal error: %v", r)
			}
		}
		res.Obs = ex.obs
		res.Trivial = ex.trivial
		res.TrivBy = ex.trivBy
		res.Callees = sortedStrs(ex.used)
		res.Inlined = sortedStrs(ex.inlined)
		res.Notes = sortedStrs(ex.notes)
		res.Trusted = sortedStrs(ex.trusted)
		res.Wall = time.Since(t0)
		res.loopInf = ex.loopInf
	}()
	sp := pr.spec(fn)
	ft := pr.functypeOf(fn)
	if sp != nil && sp.realF {
		realFloat = true
		ex.note("floating-point arithmetic of " + name + " is treated as arithmetic on mathematical reals")
	}
	if sp == nil {
		sp = &FuncSpec{name: name, hasCon: ft != nil}
	}
	if ft != nil && len(sp.requires) > 0 {
		unsup("spec: a function used as %s may not have preconditions of its own", ft.name)
	}
	ex.cur, ex.curFn = sp, fn
	st := newState()
	st.ctr = ex.ctr0
	st.assume(mkLe(mkI(1), ex.ctr0))
	st.ghosts["toks"] = freshVar("toks", sInt)
	st.assume(mkLe(mkI(0), st.ghosts["toks"]))
	var args []Val
	for i, p := range fn.Params {
		v := ex.freshVal(st, p.Name(), p.Type())
		args = append(args, v)
		if i == 0 && fn.Signature.Recv() != nil && !sp.nilRecv {
			if t, ok := v.(*Term); ok && t.sort == sRef {
				st.assume(mkNot(mkEq(t, tNull)))
			}
		}
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		v := ex.freshVal(st, fv.Name(), fv.Type())
		if t, ok := v.(*Term); ok && t.sort == sRef {
			st.assume(mkNot(mkEq(t, tNull)))
		}
		binds = append(binds, v)
	}
	// distinct captured cells
	for i := range binds {
		for j := 0; j < i; j++ {
			if a, ok := binds[i].(*Term); ok {
				if b, ok := binds[j].(*Term); ok && a.sort == sRef && b.sort == sRef {
					st.assume(mkNot(mkEq(a, b)))
				}
			}
		}
	}
	feasible := false
	st0 := st
	oneCase := func(bits int) {
		st := st0.clone()
		fr := ex.newFrame(fn, nil, name)
		for i, p := range fn.Params {
			fr.params[p.Name()] = args[i]
			fr.ptypes[p.Name()] = p.Type()
		}
		for i, fv := range fn.FreeVars {
			fr.binds[fv] = binds[i]
		}
		ex.top = fr
		env := &specEnv{ex: ex, fr: fr, st: st, old: st, noLocals: true}
		for _, c := range sp.requires {
			st.assume(c.labelFacts(env.boolOf(c.expr)))
		}
		if ft != nil {
			for i, p := range fn.Params {
				fr.params[fmt.Sprintf("p%d", i)], fr.ptypes[fmt.Sprintf("p%d", i)] = args[i], p.Type()
			}
			for _, c := range ft.requires {
				st.assume(env.boolOf(c.expr))
			}
		}
		for _, c := range sp.captures {
			st.assume(env.boolOf(c.expr))
		}
		for _, c := range sp.givens {
			st.assume(env.boolOf(c.expr))
		}
		for g, e := range sp.ghosts {
			st.ghosts[g] = env.term(e)
		}
		for _, c := range sp.splits {
			alts := c.more
			if c.kind == "split" {
				alts = []ast.Expr{c.expr}
			}
			k := bits % (len(alts) + 1)
			bits /= len(alts) + 1
			for i, a := range alts {
				t := env.boolOf(a)
				if i == k {
					st.assume(t)
					break
				}
				st.assume(mkNot(t))
			}
		}
		if st.dead {
			return
		}
		if r, _ := checkUnsat(st.pcTerms(), 0); r == Unsat {
			return
		}
		feasible = true
		entry := st.clone()
		fr.entry = entry
		ex.entrySt = entry
		var allow map[string]*allowSet
		if sp.hasCon {
			allow = ex.allowed(sp, &specEnv{ex: ex, fr: fr, st: entry, old: entry, noLocals: true})
		}
		rets := ex.runFunc(fn, args, binds, st, nil, name)
		res.Returns += len(rets)
		if len(rets) > 24 && len(rets) > sp.retMerge {
			rets = ex.mergeRets(fr, rets, true)
		}
		// The frame of the run replaces fr for results
		for _, r := range rets {
			ex.canary(r.st, fn.Pos(), "at a return")
			if r.st.dead {
				continue
			}
			post := &specEnv{ex: ex, fr: fr, st: r.st, old: entry, results: r.vals, noLocals: true, wits: intLocals(r.st)}
			for _, c := range sp.ensures {
				g := post.boolOf(c.expr)
				s2 := r.st.clone()
				ex.checking = c
				ex.check(s2, g, "post", fn.Pos(), "postcondition: "+c.text, c.tags...)
				ex.checking = nil
			}
			if sp.hasCon && !sp.modAll {
				mods := pr.modset(fn)
				for _, k := range r.st.sortedHeapKeys() {
					h := r.st.heap[k]
					h0 := ex.heap0[k]
					if e, ok := entry.heap[k]; ok {
						h0 = e
					}
					if h == h0 || h0 == nil {
						continue
					}
					if _, ok := mods[k]; !ok {
						unsup("internal: heap %s modified by %s but not in its static mod set", k, name)
					}
					al := allow[k]
					if al != nil && al.all {
						continue
					}
					s2 := r.st.clone()
					if strings.HasPrefix(k, "G|") {
						ex.check(s2, mkEq(h, h0), "frame", fn.Pos(), "modifies only what its contract allows: "+k)
						continue
					}
					x := freshVar("fr", sRef)
					g := []*Term{mkLt(ridTerm(x), ex.ctr0)}
					if al != nil {
						for _, w := range al.refs {
							g = append(g, mkNot(mkEq(x, w)))
						}
					}
					vs := splitSort(h.sort)[1]
					for _, c := range g {
						s2.assume(c)
					}
					ex.check(s2, mkEq(mkSelect(h, x, vs), mkSelect(h0, x, vs)), "frame", fn.Pos(), "modifies only what its contract allows: "+k)
				}
			}
		}
	}
	ncases := 1
	for _, c := range sp.splits {
		if c.kind == "split" {
			ncases *= 2
		} else {
			ncases *= len(c.more) + 1
		}
	}
	for bits := 0; bits < ncases; bits++ {
		ex.loopInf = map[string]*loopInfo{}
		oneCase(bits)
	}
	res.Vacuous = !feasible
	return
}

// intLocals: values of the integer variables at a return, as witnesses of existential postconditions
func intLocals(st *State) []*Term {
	var ts []*Term
	seen := map[*Term]bool{}
	for _, v := range st.locals {
		if t, ok := v.(*Term); ok && t.sort == sInt && !isInt(t) && !seen[t] {
			seen[t] = true
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) > 6 {
		ts = ts[:6]
	}
	return ts
}

// discharge proves the obligations in parallel.
func discharge(rs []*FnResult) {
	type job struct {
		o *Oblig
		s string
	}
	var jobs []*job
	for _, r := range rs {
		for _, o := range r.Obs {
			if o.goal == tFals || true {
				s := (&Query{asserts: append(append([]*Term(nil), o.pc...), mkNot(o.goal))}).build()
				jobs = append(jobs, &job{o, s})
			}
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 12)
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j *job) {
			defer wg.Done()
			defer func() { <-sem }()
			t0 := time.Now()
			lv := 1
			if j.o.kind == "canary" {
				lv = 0
			}
			r, by := checkScript(j.s, lv)
			j.o.dur = time.Since(t0)
			j.o.by = by
			switch r {
			case Unsat:
				j.o.status = "proved"
			case Sat:
				j.o.status = "refuted"
			default:
				j.o.status = "unknown"
			}
			if d := os.Getenv("GOVER_DUMP"); d != "" && (os.Getenv("GOVER_DUMPALL") != "" || j.o.status != "proved" != (j.o.kind == "canary")) {
				os.MkdirAll(d, 0755)
				os.WriteFile(fmt.Sprintf("%s/%s_%s_%d.smt2", d, sanitize(j.o.fn), sanitize(j.o.kind), j.o.goal.id), []byte("; "+j.o.text+" at "+j.o.pos+"\n"+j.s), 0644)
			}
		}(j)
	}
	wg.Wait()
	for _, r := range rs {
		for _, o := range r.Obs {
			if o.kind == "canary" {
				if o.status == "proved" {
					fmt.Println("UNREACHABLE", o.fn, o.pos, o.text)
				}
				continue
			}
			if o.status == "proved" {
				r.Proved++
				r.BySolver[o.by]++
			} else {
				r.Failed = append(r.Failed, o)
			}
		}
	}
}

// model values of interesting terms for a failed obligation
func (o *Oblig) counterexample() string {
	var vals []*Term
	seen := map[*Term]bool{}
	for _, t := range collect(append(append([]*Term(nil), o.pc...), o.goal)) {
		if t.bound || seen[t] {
			continue
		}
		seen[t] = true
		if t.sort == sInt && (t.op == "var" || strings.HasPrefix(t.op, "sel:") || t.op == "app" && t.name == "qlen" || t.op == "select") && len(vals) < 60 {
			vals = append(vals, t)
		}
	}
	if len(vals) == 0 {
		return ""
	}
	q := &Query{asserts: append(append([]*Term(nil), o.pc...), mkNot(o.goal))}
	s := q.buildNamed(vals)
	r, out := runSolver(s, 4000, "z3-new", "-in", "-t:4000")
	if r == Unsat {
		return ""
	}
	lines := strings.Split(out, "\n")
	if len(lines) > 80 {
		lines = lines[:80]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "solver answer: %s\n", r)
	for i, v := range vals {
		if i < 60 {
			fmt.Fprintf(&sb, "  [%d] %s\n", i, truncate(v.String(), 160))
		}
	}
	sb.WriteString(strings.Join(lines, "\n"))
	return sb.String()
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func getModelValue(pcs []*Term, t *Term) *Term {
	s := (&Query{asserts: pcs}).buildNamed([]*Term{t})
	r, out := runSolver(s, 2000, "z3-new", "-in", "-t:2000")
	if r == Unsat {
		return nil
	}
	i := strings.LastIndexByte(out, ' ')
	lines := strings.Split(strings.TrimSpace(out), "\n")
	if len(lines) < 2 || i < 0 {
		return nil
	}
	l := strings.TrimSpace(lines[len(lines)-1])
	l = strings.TrimRight(l, ") ")
	neg := false
	if j := strings.LastIndex(l, "(- "); j >= 0 && !strings.ContainsAny(l[j+3:], " ()") {
		neg = true
	}
	k := strings.LastIndexAny(l, " (")
	v := l[k+1:]
	b, ok := newBig(v)
	if !ok {
		return nil
	}
	if neg {
		b.Neg(b)
	}
	return mkInt(b)
}

// verifyUnits verifies the functions and, transitively, every contract they rely on.
func verifyUnits(pr *Prog, names []string, verbose bool) (rs []*FnResult, missing []string) {
	done := map[string]bool{}
	queue := append([]string(nil), names...)
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if done[n] {
			continue
		}
		done[n] = true
		fn := pr.funcs[n]
		if fn == nil {
			missing = append(missing, n)
			continue
		}
		r := generate(pr, fn)
		if r.Unsup != "" && strings.HasPrefix(r.Unsup, "spec:") {
			// the contract no longer evaluates on this tree: fall back to inlining an unexported helper
			if nm := fn.Name(); nm[0] >= 'a' && nm[0] <= 'z' && !pr.broken[n] {
				fmt.Fprintln(os.Stderr, "contract of", n, "does not evaluate:", r.Unsup)
				pr.broken[n] = true
				pr.mods = map[*ssa.Function]map[string]string{}
				for _, x := range rs {
					for _, c := range x.Callees {
						if c == n {
							delete(done, x.Name)
							queue = append(queue, x.Name)
						}
					}
				}
				var keep []*FnResult
				for _, x := range rs {
					if done[x.Name] {
						keep = append(keep, x)
					}
				}
				rs = keep
				continue
			}
		}
		rs = append(rs, r)
		queue = append(queue, r.Callees...)
		if verbose {
			fmt.Fprintf(os.Stderr, "%-46s %4d obligations + %4d trivial, %.1fs %s\n", n, len(r.Obs), r.Trivial, r.Wall.Seconds(), r.Unsup)
		}
	}
	sort.Strings(missing)
	discharge(rs)
	return
}

var _ = types.Typ
