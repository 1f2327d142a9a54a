package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int // ordinal in the function (1-based, by header position in RPO)
	parent *Loop
}

type cfgInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loopOf map[*ssa.BasicBlock]*Loop // header -> loop
	loops  []*Loop
}

func buildCFG(fn *ssa.Function) *cfgInfo {
	ci := &cfgInfo{rpo: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*Loop{}}
	// natural loops via dominators
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ci.loopOf[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ci.loopOf[s] = l
					ci.loops = append(ci.loops, l)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// topological order that keeps loop bodies before their exits
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	innermost := func(b *ssa.BasicBlock) *Loop {
		var best *Loop
		for _, l := range ci.loops {
			if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}
		return best
	}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		// visit loop exits first so that they end up later in reverse postorder
		if l := innermost(b); l != nil {
			sort.SliceStable(ss, func(i, j int) bool { return !l.body[ss[i]] && l.body[ss[j]] })
		}
		for _, s := range ss {
			dfs(s)
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := range post {
		ci.rpo[post[len(post)-1-i]] = i
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			ci.rpo[b] = len(post) + b.Index
		}
	}
	// source order ordinals
	sort.Slice(ci.loops, func(i, j int) bool {
		pi, pj := loopPos(ci.loops[i]), loopPos(ci.loops[j])
		if pi != pj {
			return pi < pj
		}
		return ci.rpo[ci.loops[i].header] < ci.rpo[ci.loops[j].header]
	})
	for i, l := range ci.loops {
		l.ord = i + 1
		for _, m := range ci.loops {
			if m != l && m.body[l.header] && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
	}
	return ci
}

func loopPos(l *Loop) token.Pos {
	best := token.Pos(0)
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == 0 || p < best) {
				best = p
			}
		}
	}
	return best
}

// isRange: loops over slices, arrays, ints, maps, strings compiled from range statements terminate.
func (l *Loop) isRange() bool {
	for _, in := range l.header.Instrs {
		switch x := in.(type) {
		case *ssa.Next:
			return true
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && (a.Comment == "rangeindex" || a.Comment == "rangeint.iter") {
				return true
			}
		}
	}
	return false
}

type Cand struct {
	cl *Clause
	name  string
	eval  func(st *State) *Term // current state
	user  bool
	tags  []string
	alive bool
}

type loopInfo struct {
	locs      map[*ssa.Alloc]bool // modified local cells of the frame
	iters     map[*Loc]bool
	heaps     map[string]bool
	storeForm map[string][]*Term
	dh        *State // loop head of the discovery run that recorded writes
	noStore   map[string]bool
	ghosts    map[string]bool
	done      bool
	dropped   map[string]bool
	tmpl      []*deltaInfo
	writes    map[string]map[*Term]bool
}

type deltaInfo struct {
	feat string
	vals []*big.Int // constant deltas on the back edges (nil entry: not constant)
	mono bool
}

func (ex *Exec) loopKey(fr *Frame, l *Loop) string { return fmt.Sprintf("%s#%d", fr.key, l.ord) }

// modified keys between two states
func (ex *Exec) diffInto(li *loopInfo, fr *Frame, h, b *State) bool {
	ch := false
	for al, loc := range fr.locs {
		if !sameVal(h.locals[loc], b.locals[loc]) {
			if _, inH := h.locals[loc]; !inH {
				continue // allocated inside the body
			}
			if !li.locs[al] {
				li.locs[al] = true
				ch = true
			}
		}
	}
	for loc, v := range h.locals {
		if loc.fr == fr && loc.name == "rangeiter" && !sameVal(v, b.locals[loc]) && !li.iters[loc] {
			li.iters[loc] = true
			ch = true
		}
	}
	// locals of enclosing frames (captured variables live on the heap, so only plain locals)
	for p := fr.parent; p != nil; p = p.parent {
		for _, loc := range p.locs {
			if v, ok := h.locals[loc]; ok && !sameVal(v, b.locals[loc]) && !li.iters[loc] {
				li.iters[loc] = true
				ch = true
			}
		}
	}
	for k, v := range b.heap {
		hv, ok := h.heap[k]
		if !ok {
			hv = ex.heap0[k]
		}
		if v != hv && !li.heaps[k] {
			li.heaps[k] = true
			ch = true
		}
	}
	for k, v := range b.ghosts {
		if h.ghosts[k] != v && !li.ghosts[k] {
			li.ghosts[k] = true
			ch = true
		}
	}
	return ch
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *FnV:
		y, ok := b.(*FnV)
		return ok && x.fn == y.fn && len(x.binds) == 0 && len(y.binds) == 0
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.kind != y.kind || x.loc != y.loc || x.heap != y.heap || x.ref != y.ref || x.idx != y.idx || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	}
	return false
}

// havoc returns a copy of the entry state with everything the loop modifies replaced by fresh values.
func (ex *Exec) havoc(fr *Frame, li *loopInfo, entry *State, name string) *State {
	h := entry.clone()
	nc := freshVar("ctr", sInt)
	h.assume(mkLe(entry.ctr, nc))
	h.ctr = nc
	var als []*ssa.Alloc
	for a := range li.locs {
		als = append(als, a)
	}
	sort.Slice(als, func(i, j int) bool { return als[i].Name() < als[j].Name() })
	for _, a := range als {
		loc := fr.locs[a]
		if loc == nil {
			continue
		}
		if _, ok := h.locals[loc]; !ok {
			continue
		}
		h.locals[loc] = ex.freshVal(h, loc.name, loc.typ)
	}
	for loc := range li.iters {
		if _, ok := h.locals[loc]; ok {
			h.locals[loc] = ex.freshVal(h, loc.name, loc.typ)
			if loc.name == "rangeiter" {
				h.assume(mkLe(mkI(0), h.locals[loc].(*Term)))
			}
		}
	}
	for _, k := range sortedStrs(li.heaps) {
		cur, ok := h.heap[k]
		if !ok {
			cur = ex.heap0[k]
		}
		if refs, ok := li.storeForm[k]; ok {
			// only these objects are written: everything else keeps its value by construction
			vs := splitSort(cur.sort)[1]
			for _, w := range refs {
				x := freshVar(sanitize(k), vs)
				heapBirth[x] = nc
				cur = mkStore(cur, w, x)
			}
			h.heap[k] = cur
			continue
		}
		x := freshVar(sanitize(k), cur.sort)
		heapBirth[x] = nc
		h.heap[k] = x
	}
	for _, k := range sortedStrs(li.ghosts) {
		h.ghosts[k] = freshVar("gh_"+k, h.ghosts[k].sort)
	}
	return h
}

// numeric features of the loop state
func (ex *Exec) features(fr *Frame, li *loopInfo, st *State) map[string]*Term {
	f := map[string]*Term{}
	for a := range li.locs {
		loc := fr.locs[a]
		if loc == nil {
			continue
		}
		t, ok := st.locals[loc].(*Term)
		if !ok {
			continue
		}
		nm := loc.name + "@" + a.Name()
		switch t.sort {
		case sInt:
			f[nm] = t
		case sSlice:
			f[nm+".off"] = slOff(t)
			f[nm+".len"] = slLen(t)
		case sSeq:
			f[nm+".qlen"] = qlen(t)
		}
	}
	for k := range li.ghosts {
		if st.ghosts[k].sort == sInt {
			f["ghost:"+k] = st.ghosts[k]
		}
	}
	return f
}

func (ex *Exec) execLoop(fr *Frame, l *Loop, entry *State) (exits []edge, rets []*retState) {
	key := ex.loopKey(fr, l)
	li := ex.loopInf[key]
	if li == nil {
		li = &loopInfo{locs: map[*ssa.Alloc]bool{}, iters: map[*Loc]bool{}, heaps: map[string]bool{}, ghosts: map[string]bool{}, dropped: map[string]bool{}, writes: map[string]map[*Term]bool{}}
		ex.loopInf[key] = li
	}
	if fr.parent == nil && ex.cur != nil {
		entry.snaps[fmt.Sprintf("entry%d", l.ord)] = entry.clone()
	}
	li.storeForm = nil
	// a. discovery of the modified set.
	li.iters = map[*Loc]bool{}
	{
		savedW := ex.written
		ex.quiet++
		for round := 0; round < 8; round++ {
			ex.written = map[string]map[*Term]bool{}
			h := ex.havoc(fr, li, entry, key)
			hf := ex.features(fr, li, h)
			hs := h.clone()
			saved := ex.disc
			ex.disc = true
			_, backs, _ := ex.runRegion(fr, l.header, []*State{h.clone()}, l)
			ex.disc = saved
			ch := false
			for _, b := range backs {
				if ex.diffInto(li, fr, hs, b) {
					ch = true
				}
			}
			if !ch {
				li.tmpl = nil
				var names []string
				for n := range hf {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					d := &deltaInfo{feat: n}
					for _, b := range backs {
						bf := ex.features(fr, li, b)
						x := mkSub(bf[n], hf[n])
						if isInt(x) {
							d.vals = append(d.vals, x.iv)
						} else {
							d.vals = append(d.vals, nil)
						}
					}
					li.tmpl = append(li.tmpl, d)
				}
				li.writes = ex.written
				li.dh = hs
				break
			}
		}
		ex.quiet--
		if savedW != nil {
			for k, m := range ex.written {
				for r := range m {
					if savedW[k] == nil {
						savedW[k] = map[*Term]bool{}
					}
					savedW[k][r] = true
				}
			}
		}
		ex.written = savedW
	}
	if ex.disc {
		// only discovering for an enclosing loop: havoc and go through once
		h := ex.havoc(fr, li, entry, key)
		ex.snap(fr, l, h)
		e2, _, r2 := ex.runRegion(fr, l.header, []*State{h}, l)
		return e2, r2
	}
	// heaps written only at objects fixed before the loop are havocked at those objects only; the
	// form is checked against every back edge below and given up when it does not hold.
	{
		h0 := ex.havoc(fr, li, entry, key)
		sf := map[string][]*Term{}
		for k := range li.heaps {
			if li.noStore[k] || strings.HasPrefix(k, "G|") {
				continue
			}
			var refs []*Term
			ok := len(li.writes[k]) > 0
			for w := range li.writes[k] {
				if ex.stableRef(w, entry, h0) {
					refs = append(refs, w)
				} else {
					ok = false
				}
			}
			if ok && len(refs) <= 4 {
				sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
				sf[k] = refs
			}
		}
		li.storeForm = sf
	}
restart:
	// b. candidates
	h := ex.havoc(fr, li, entry, key)
	cands := ex.candidates(fr, l, li, entry, h)
	var live []*Cand
	for _, c := range cands {
		if !li.dropped[c.name] {
			live = append(live, c)
		}
	}
	// entry check
	live = ex.filterCands(live, []*State{entry}, li, key+" entry")
	// c. Houdini rounds
	for round := 0; ; round++ {
		if round > 40 {
			live = nil
			break
		}
		hs := h.clone()
		for _, c := range live {
			if t := ex.evalCand(c, hs); t != nil {
				hs.assume(t)
			}
		}
		ex.snap(fr, l, hs)
		if hs.dead {
			break
		}
		ex.quiet++
		_, backs, _ := ex.runRegion(fr, l.header, []*State{hs}, l)
		ex.quiet--
		if ex.badStores(li, entry, backs) {
			goto restart
		}
		n := len(live)
		live = ex.filterCands(live, backs, li, key)
		if len(live) == n {
			break
		}
	}
	if os.Getenv("GOVER_LOOPS") != "" && ex.quiet == 0 {
		var s []string
		for _, c := range live {
			s = append(s, c.name)
		}
		fmt.Fprintf(os.Stderr, "loop %s: live invariants:\n   %s\n", key, strings.Join(s, "\n   "))
		var d []string
		for n := range li.dropped {
			d = append(d, n)
		}
		sort.Strings(d)
		fmt.Fprintf(os.Stderr, "  dropped:\n   %s\n", strings.Join(d, "\n   "))
		fmt.Fprintf(os.Stderr, "  modifies: %v\n", sortedStrs(li.heaps))
	}
	// d. final pass
	hs := h.clone()
	for _, c := range live {
		if t := ex.evalCand(c, hs); t != nil {
			hs.assume(t)
		}
	}
	ex.snap(fr, l, hs)
	ex.specLoopStart(fr, l, hs)
	head := hs.clone()
	e2, backs, r2 := ex.runRegion(fr, l.header, []*State{hs}, l)
	if ex.badStores(li, entry, backs) {
		unsup("internal: store form of loop %s not stable", key)
	}
	if ex.quiet == 0 {
		for _, c := range live {
			_ = c
			ex.trivBy["inv"]++
			ex.trivial++
		}
		ex.specLoopEnd(fr, l, head, backs, entry)
		ex.termination(fr, l, li, head, backs, entry)
	} else {
		ex.specLoopEnd(fr, l, head, backs, entry)
	}
	return e2, r2
}

// badStores: a heap in store form is written at another object on some back edge (the form is dropped)
func (ex *Exec) badStores(li *loopInfo, entry *State, backs []*State) bool {
	bad := false
	for _, k := range sortedRefKeys(li.storeForm) {
		e0, ok := entry.heap[k]
		if !ok {
			e0 = ex.heap0[k]
		}
		refs := map[*Term]bool{}
		for _, r := range li.storeForm[k] {
			refs[r] = true
		}
		// base: the heap without its stores at these objects
		bases := map[*Term]*Term{}
		var base func(t *Term) *Term
		base = func(t *Term) *Term {
			if v, ok := bases[t]; ok {
				return v
			}
			v := t
			if t.op == "store" && refs[t.args[1]] {
				v = base(t.args[0])
			} else if t.op == "ite" {
				v = mkIte(t.args[0], base(t.args[1]), base(t.args[2]))
			}
			bases[t] = v
			return v
		}
		memo := map[*Term]bool{}
		var good func(t *Term) bool
		good = func(t *Term) bool {
			if t == e0 || base(t) == base(e0) {
				return true
			}
			if v, ok := memo[t]; ok {
				return v
			}
			r := false
			switch t.op {
			case "store":
				r = refs[t.args[1]] && good(t.args[0])
			case "ite":
				r = good(t.args[1]) && good(t.args[2])
			}
			memo[t] = r
			return r
		}
		for _, b := range backs {
			if b.dead {
				continue
			}
			if h, ok := b.heap[k]; ok && !good(h) {
				bad = true
				if li.noStore == nil {
					li.noStore = map[string]bool{}
				}
				li.noStore[k] = true
				delete(li.storeForm, k)
				break
			}
		}
	}
	return bad
}

func sortedRefKeys(m map[string][]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (ex *Exec) snap(fr *Frame, l *Loop, hs *State) {
	if fr.parent == nil {
		hs.snaps[fmt.Sprintf("head%d", l.ord)] = hs.clone()
	}
}

func (ex *Exec) evalCand(c *Cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(st)
}

// filterCands drops the candidates that do not hold in every state.
func (ex *Exec) filterCands(cands []*Cand, sts []*State, li *loopInfo, what string) []*Cand {
	if len(cands) == 0 {
		return cands
	}
	type job struct {
		c      int
		script string
		ok     bool
	}
	alive := make([]bool, len(cands))
	for i := range alive {
		alive[i] = true
	}
	for _, st := range sts {
		if st.dead {
			continue
		}
		pcs := st.pcTerms()
		var jobs []*job
		for i, c := range cands {
			if !alive[i] {
				continue
			}
			t := ex.evalCand(c, st)
			if t == nil {
				alive[i] = false
				continue
			}
			if st.decide(t) > 0 {
				continue
			}
			if st.decide(t) < 0 {
				if !ex.feasible(st) {
					break
				}
				alive[i] = false
				continue
			}
			for _, pc := range goalPieces(t) {
				jobs = append(jobs, &job{c: i, script: (&Query{asserts: append(append([]*Term(nil), c.cl.relevant(pcs)...), pc...)}).build()})
			}
		}
		if len(jobs) == 0 {
			continue
		}
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func(j *job) {
				defer wg.Done()
				lv := 0
				if cands[j.c].user {
					lv = 2
				}
				t0 := time.Now()
				r, _ := checkScript(j.script, lv)
				j.ok = r == Unsat
				if os.Getenv("GOVER_SLOW") != "" && time.Since(t0) > 2*time.Second {
					fmt.Fprintln(os.Stderr, "SLOW", what, cands[j.c].name, lv, j.ok, time.Since(t0), len(j.script))
				}
				if d := os.Getenv("GOVER_DUMP"); d != "" && !j.ok && lv == 2 {
					os.MkdirAll(d, 0755)
					os.WriteFile(fmt.Sprintf("%s/inv_%s_%x.smt2", d, sanitize(truncate(cands[j.c].name, 60)), sha256.Sum256([]byte(j.script)))[:len(d)+90], []byte("; "+what+" "+cands[j.c].name+"\n"+j.script), 0644)
				}
			}(j)
		}
		wg.Wait()
		for _, j := range jobs {
			if !j.ok {
				alive[j.c] = false
			}
		}
	}
	var out []*Cand
	for i, c := range cands {
		if alive[i] {
			out = append(out, c)
		} else {
			li.dropped[c.name] = true
		}
	}
	return out
}

func (ex *Exec) candidates(fr *Frame, l *Loop, li *loopInfo, entry, h *State) []*Cand {
	var cs []*Cand
	add := func(name string, eval func(st *State) *Term) {
		cs = append(cs, &Cand{name: name, eval: eval})
	}
	cs = append(cs, ex.userCands(fr, l, entry)...)
	loc := func(a *ssa.Alloc, st *State) Val { return st.locals[fr.locs[a]] }
	var als []*ssa.Alloc
	for a := range li.locs {
		if fr.locs[a] != nil {
			if _, ok := entry.locals[fr.locs[a]]; ok {
				als = append(als, a)
			}
		}
	}
	sort.Slice(als, func(i, j int) bool { return als[i].Name() < als[j].Name() })
	movSeen := map[*Term]bool{}
	// bounds compared against in the loop conditions
	type bnd struct {
		name string
		f    func(st *State) *Term
	}
	var bnds []bnd
	seenB := map[*Term]bool{}
	addB := func(name string, t *Term) {
		if t.sort == sInt && !seenB[t] && len(bnds) < 8 {
			seenB[t] = true
			bnds = append(bnds, bnd{name, func(st *State) *Term { return t }})
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if sortSafe(o.Type()) != sInt {
					continue
				}
				if t := ex.invariantVal(fr, l, li, entry, o, 0); t != nil {
					addB(o.Name(), t)
				}
			}
		}
	}
	// slice lengths in scope
	for a, lc := range fr.locs {
		v, ok := entry.locals[lc].(*Term)
		if ok && v.sort == sSlice && !li.locs[a] {
			addB("len("+lc.name+")", slLen(v))
		}
	}
	sort.Slice(bnds, func(i, j int) bool { return bnds[i].name < bnds[j].name })
	var modInts []*ssa.Alloc
	for _, a := range als {
		a := a
		ev, ok := loc(a, entry).(*Term)
		if !ok {
			continue
		}
		nm := fr.locs[a].name + "@" + a.Name()
		switch ev.sort {
		case sInt:
			modInts = append(modInts, a)
			add(nm+">=entry", func(st *State) *Term { return mkLe(ev, loc(a, st).(*Term)) })
			add(nm+"<=entry", func(st *State) *Term { return mkLe(loc(a, st).(*Term), ev) })
			add(nm+">=0", func(st *State) *Term { return mkLe(mkI(0), loc(a, st).(*Term)) })
			add(nm+">=-1", func(st *State) *Term { return mkLe(mkI(-1), loc(a, st).(*Term)) })
			for _, b := range bnds {
				b := b
				add(nm+"<="+b.name, func(st *State) *Term { return mkLe(loc(a, st).(*Term), b.f(st)) })
				add(nm+"<"+b.name, func(st *State) *Term { return mkLt(loc(a, st).(*Term), b.f(st)) })
			}
		case sSlice:
			add(nm+".ref", func(st *State) *Term { return mkEq(slRef(loc(a, st).(*Term)), slRef(ev)) })
			add(nm+".suffix", func(st *State) *Term {
				x := loc(a, st).(*Term)
				return mkEq(mkAdd(slOff(x), slLen(x)), mkAdd(slOff(ev), slLen(ev)))
			})
			add(nm+".capsuffix", func(st *State) *Term {
				x := loc(a, st).(*Term)
				return mkEq(mkAdd(slOff(x), slCap(x)), mkAdd(slOff(ev), slCap(ev)))
			})
			add(nm+".off", func(st *State) *Term { return mkLe(slOff(ev), slOff(loc(a, st).(*Term))) })
			add(nm+".off=", func(st *State) *Term { return mkEq(slOff(ev), slOff(loc(a, st).(*Term))) })
			add(nm+".len<=", func(st *State) *Term { return mkLe(slLen(loc(a, st).(*Term)), slLen(ev)) })
			add(nm+".len>=", func(st *State) *Term { return mkLe(slLen(ev), slLen(loc(a, st).(*Term))) })
			add(nm+".nonnil", func(st *State) *Term { return mkNot(mkEq(slRef(loc(a, st).(*Term)), tNull)) })
			add(nm+".refnew", func(st *State) *Term { return mkLe(entry.ctr, ridTerm(slRef(loc(a, st).(*Term)))) })
		case sRef:
			add(nm+".nonnil", func(st *State) *Term { return mkNot(mkEq(loc(a, st).(*Term), tNull)) })
		case sIface:
			add(nm+"=entry", func(st *State) *Term { return mkEq(loc(a, st).(*Term), ev) })
		case sBool:
			add(nm+"=true", func(st *State) *Term { return loc(a, st).(*Term) })
			add(nm+"=false", func(st *State) *Term { return mkNot(loc(a, st).(*Term)) })
		}
	}
	// pairs of modified ints / lengths
	for i, a := range modInts {
		for j, b := range modInts {
			if i == j || len(modInts) > 6 {
				continue
			}
			a, b := a, b
			add(fr.locs[a].name+"@"+a.Name()+"<="+fr.locs[b].name+"@"+b.Name(), func(st *State) *Term {
				return mkLe(loc(a, st).(*Term), loc(b, st).(*Term))
			})
		}
	}
	for _, s := range als {
		s := s
		ev, ok := loc(s, entry).(*Term)
		if !ok || ev.sort != sSlice {
			continue
		}
		for _, a := range modInts {
			a := a
			add(fr.locs[a].name+"<=len "+fr.locs[s].name, func(st *State) *Term {
				return mkLe(loc(a, st).(*Term), slLen(loc(s, st).(*Term)))
			})
			add(fr.locs[a].name+"=len "+fr.locs[s].name, func(st *State) *Term {
				return mkEq(loc(a, st).(*Term), slLen(loc(s, st).(*Term)))
			})
		}
	}
	// linear relations between features with constant deltas
	ef := ex.features(fr, li, entry)
	constDelta := func(d *deltaInfo) *big.Int {
		if len(d.vals) == 0 || d.vals[0] == nil {
			return nil
		}
		for _, v := range d.vals {
			if v == nil || v.Cmp(d.vals[0]) != 0 {
				return nil
			}
		}
		return d.vals[0]
	}
	var cd []*deltaInfo
	for _, d := range li.tmpl {
		if v := constDelta(d); v != nil && v.Sign() != 0 && ef[d.feat] != nil {
			cd = append(cd, d)
		}
	}
	for i := range cd {
		for j := 0; j < i; j++ {
			x, y := cd[i], cd[j]
			cx, cy := constDelta(x), constDelta(y)
			fx, fy := x.feat, y.feat
			add(fmt.Sprintf("lin %s %s", fx, fy), func(st *State) *Term {
				f := ex.features(fr, li, st)
				return mkEq(mkMul(mkInt(cy), mkSub(f[fx], ef[fx])), mkMul(mkInt(cx), mkSub(f[fy], ef[fy])))
			})
		}
	}
	// proportional relations even if deltas differ per back edge but are proportional
	for i := range li.tmpl {
		for j := 0; j < i; j++ {
			x, y := li.tmpl[i], li.tmpl[j]
			if constDelta(x) != nil && constDelta(y) != nil || ef[x.feat] == nil || ef[y.feat] == nil || len(x.vals) == 0 {
				continue
			}
			var num, den *big.Int
			ok := true
			for k := range x.vals {
				a, b := x.vals[k], y.vals[k]
				if a == nil || b == nil {
					ok = false
					break
				}
				if a.Sign() == 0 && b.Sign() == 0 {
					continue
				}
				if a.Sign() == 0 || b.Sign() == 0 {
					ok = false
					break
				}
				if num == nil {
					num, den = a, b
				} else if new(big.Int).Mul(num, b).Cmp(new(big.Int).Mul(den, a)) != 0 {
					ok = false
					break
				}
			}
			if ok && num != nil {
				fx, fy, n2, d2 := x.feat, y.feat, num, den
				add(fmt.Sprintf("lin %s %s", fx, fy), func(st *State) *Term {
					f := ex.features(fr, li, st)
					return mkEq(mkMul(mkInt(d2), mkSub(f[fx], ef[fx])), mkMul(mkInt(n2), mkSub(f[fy], ef[fy])))
				})
			}
		}
	}
	for k := range li.ghosts {
		k := k
		if entry.ghosts[k].sort == sInt {
			e := entry.ghosts[k]
			add("ghost "+k+">=entry", func(st *State) *Term { return mkLe(e, st.ghosts[k]) })
		}
	}
	// string iteration positions
	for b := range l.body {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := entry.regs[regKey{fr, nx.Iter}].(*IterV); ok && it.str != nil {
					it := it
					add("iter<=len", func(st *State) *Term { return mkLe(st.locals[it.loc].(*Term), qlen(it.str)) })
				}
			}
		}
	}
	// heap frames
	for _, k := range sortedStrs(li.heaps) {
		k := k
		if _, ok := li.storeForm[k]; ok || strings.HasPrefix(k, "G|") {
			continue
		}
		e0, ok := entry.heap[k]
		if !ok {
			e0 = ex.heap0[k]
		}
		r := freshBound("r", sRef)
		vs := splitSort(e0.sort)[1]
		add("frame-old "+k, func(st *State) *Term {
			cur, ok := st.heap[k]
			if !ok {
				cur = ex.heap0[k]
			}
			if cur == e0 {
				return tTrue
			}
			return mkForall([]*Term{r}, mkImp(mkLt(ridTerm(r), entry.ctr), mkEq(mkSelect(cur, r, vs), mkSelect(e0, r, vs))), []*Term{mkSelect(cur, r, vs)})
		})
		add("frame-pre "+k, func(st *State) *Term {
			cur, ok := st.heap[k]
			if !ok {
				cur = ex.heap0[k]
			}
			if cur == e0 {
				return tTrue
			}
			return mkForall([]*Term{r}, mkImp(mkLt(ridTerm(r), ex.ctr0), mkEq(mkSelect(cur, r, vs), mkSelect(e0, r, vs))), []*Term{mkSelect(cur, r, vs)})
		})
		// only the refs written in the body: loop-invariant ones, or what a variable or field referred
		// to on entry (appending moves it to a new array at most)
		var refs []*Term
		okRefs := true
		var ws []*Term
		for w := range li.writes[k] {
			ws = append(ws, w)
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].id < ws[j].id })
		addRef := func(w *Term) {
			for _, x := range refs {
				if x == w {
					return
				}
			}
			refs = append(refs, w)
		}
		for _, w := range ws {
			if inv := ex.stableRef(w, entry, h); inv {
				addRef(w)
			} else if !ex.freshIn(w, li.dh) && !ex.freshIn(w, h) {
				we := ex.atState(li, w, li.dh, entry)
				if we == w || !ex.stableRef(we, entry, h) {
					okRefs = false
					continue
				}
				addRef(we)
				if w := w; !movSeen[w] {
					movSeen[w] = true
					add("moved "+truncate(w.String(), 60), func(st *State) *Term {
						x := ex.atState(li, w, li.dh, st)
						return mkOr(mkEq(x, we), mkLe(entry.ctr, ridTerm(x)))
					})
				}
			}
		}
		if okRefs && len(refs) > 0 && len(refs) <= 4 {
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			add("frame-only "+k, func(st *State) *Term {
				cur, ok := st.heap[k]
				if !ok {
					cur = ex.heap0[k]
				}
				g := []*Term{mkLt(ridTerm(r), entry.ctr)}
				for _, w := range refs {
					g = append(g, mkNot(mkEq(r, w)))
				}
				return mkForall([]*Term{r}, mkImp(mkAnd(g...), mkEq(mkSelect(cur, r, vs), mkSelect(e0, r, vs))), []*Term{mkSelect(cur, r, vs)})
			})
		}
		// root based: everything whose root object is not one of the modified roots
	}
	return cs
}

// atState evaluates a term over the variables of the loop head in another state
func (ex *Exec) atState(li *loopInfo, w *Term, h, st *State) *Term {
	m := map[*Term]*Term{}
	for lc, v := range h.locals {
		t, ok := v.(*Term)
		if !ok || t.op != "var" {
			continue
		}
		if x, ok := st.locals[lc].(*Term); ok && x != t {
			m[t] = x
		}
	}
	for k, t := range h.heap {
		x, ok := st.heap[k]
		if !ok {
			x = ex.heap0[k]
		}
		if x == nil || x == t {
			continue
		}
		if t.op == "var" {
			m[t] = x
			continue
		}
		for _, r := range li.storeForm[k] {
			vs := splitSort(t.sort)[1]
			if v := mkSelect(t, r, vs); v.op == "var" {
				m[v] = mkSelect(x, r, vs)
			}
		}
	}
	if len(m) == 0 {
		return w
	}
	return subst(w, m, map[*Term]*Term{})
}

func sortSafe(t types.Type) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = ""
		}
	}()
	return sortOf(t)
}

// stableRef: the ref term does not depend on anything the loop havocs (all its variables exist at entry)
func (ex *Exec) stableRef(w *Term, entry, h *State) bool {
	known := map[*Term]bool{}
	for _, t := range collect(entry.pcTerms()) {
		if t.op == "var" {
			known[t] = true
		}
	}
	for _, v := range entry.locals {
		if t, ok := v.(*Term); ok {
			for _, x := range collect([]*Term{t}) {
				known[x] = true
			}
		}
	}
	for _, v := range entry.regs {
		if t, ok := v.(*Term); ok {
			for _, x := range collect([]*Term{t}) {
				known[x] = true
			}
		}
	}
	for _, v := range entry.heap {
		for _, x := range collect([]*Term{v}) {
			known[x] = true
		}
	}
	for _, v := range ex.heap0 {
		known[v] = true
	}
	for _, x := range collect([]*Term{w, entry.ctr}) {
		if x.op == "var" && !known[x] {
			found := false
			for _, y := range collect([]*Term{entry.ctr}) {
				if y == x {
					found = true
				}
			}
			if !found {
				return false
			}
		}
	}
	return true
}

// freshIn: the ref is an object allocated inside the body
func (ex *Exec) freshIn(w *Term, h *State) bool {
	r := w
	for r.op == "ctor:sub" || r.op == "ctor:elm" {
		r = r.args[0]
	}
	return r.op == "ctor:obj" && !isInt(r.args[0])
}

// invariantVal evaluates o at loop entry if it cannot change in the loop.
func (ex *Exec) invariantVal(fr *Frame, l *Loop, li *loopInfo, entry *State, o ssa.Value, d int) *Term {
	if d > 4 {
		return nil
	}
	switch x := o.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil
		}
		t, _ := ex.constVal(x).(*Term)
		return t
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok && !a.Heap && !li.locs[a] && fr.locs[a] != nil {
				t, _ := entry.locals[fr.locs[a]].(*Term)
				return t
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if s := ex.invariantVal(fr, l, li, entry, x.Call.Args[0], d+1); s != nil {
				switch s.sort {
				case sSlice:
					return slLen(s)
				case sSeq:
					return qlen(s)
				}
			}
			return nil
		}
	case *ssa.Convert:
		if t := ex.invariantVal(fr, l, li, entry, x.X, d+1); t != nil && t.sort == sInt && sortOf(x.Type()) == sInt {
			lo, hi, _ := intRange(x.Type())
			if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
				return t
			}
		}
		return nil
	case *ssa.BinOp:
		a := ex.invariantVal(fr, l, li, entry, x.X, d+1)
		b := ex.invariantVal(fr, l, li, entry, x.Y, d+1)
		if a != nil && b != nil && a.sort == sInt && b.sort == sInt {
			switch x.Op {
			case token.ADD:
				return mkAdd(a, b)
			case token.SUB:
				return mkSub(a, b)
			}
		}
		return nil
	}
	if in, ok := o.(ssa.Instruction); ok && l.body[in.Block()] {
		return nil
	}
	t, _ := entry.regs[regKey{fr, o}].(*Term)
	return t
}

// termination: some measure strictly decreases on every back edge.
func (ex *Exec) termination(fr *Frame, l *Loop, li *loopInfo, head *State, backs []*State, entry *State) {
	if l.isRange() {
		ex.trivial++
		ex.trivBy["decreases"]++
		return
	}
	pos := loopPos(l)
	type meas struct {
		name string
		f    func(st *State) []*Term
	}
	var ms []meas
	for _, m := range ex.userMeasures(fr, l, entry) {
		ms = append(ms, meas{m.name, m.f})
	}
	var als []*ssa.Alloc
	for a := range li.locs {
		if fr.locs[a] != nil {
			als = append(als, a)
		}
	}
	sort.Slice(als, func(i, j int) bool { return als[i].Name() < als[j].Name() })
	for _, a := range als {
		a := a
		if _, ok := head.locals[fr.locs[a]]; !ok {
			continue
		}
		ev, ok := head.locals[fr.locs[a]].(*Term)
		if !ok {
			continue
		}
		switch ev.sort {
		case sSlice:
			ms = append(ms, meas{"len " + fr.locs[a].name, func(st *State) []*Term { return []*Term{slLen(st.locals[fr.locs[a]].(*Term))} }})
		case sInt:
			ms = append(ms, meas{fr.locs[a].name, func(st *State) []*Term { return []*Term{st.locals[fr.locs[a]].(*Term)} }})
			seen := map[*Term]bool{}
			for b := range l.body {
				for _, in := range b.Instrs {
					if bo, ok := in.(*ssa.BinOp); ok {
						for _, o := range []ssa.Value{bo.X, bo.Y} {
							if sortSafe(o.Type()) != sInt {
								continue
							}
							if t := ex.invariantVal(fr, l, li, entry, o, 0); t != nil && !seen[t] && len(seen) < 10 {
								seen[t] = true
								ms = append(ms, meas{"bound-" + fr.locs[a].name, func(st *State) []*Term { return []*Term{mkSub(t, st.locals[fr.locs[a]].(*Term))} }})
							}
						}
					}
				}
			}
		}
	}
	for _, k := range []string{"toks"} {
		if _, ok := head.ghosts[k]; ok {
			k := k
			ms = append(ms, meas{"ghost " + k, func(st *State) []*Term { return []*Term{st.ghosts[k]} }})
		}
	}
	var liveBacks []*State
	for _, b := range backs {
		if !b.dead {
			liveBacks = append(liveBacks, b)
		}
	}
	if len(liveBacks) == 0 {
		ex.trivial++
		return
	}
	goalOf := func(m meas, b *State) (g *Term) {
		defer func() {
			if r := recover(); r != nil {
				g = nil
			}
		}()
		hv, bv := m.f(head), m.f(b)
		// lexicographic, each component bounded below by 0 at the head
		var alts []*Term
		for i := range hv {
			var cs []*Term
			for j := 0; j < i; j++ {
				cs = append(cs, mkEq(bv[j], hv[j]))
			}
			cs = append(cs, mkLt(bv[i], hv[i]), mkLe(mkI(0), hv[i]))
			alts = append(alts, mkAnd(cs...))
		}
		return mkOr(alts...)
	}
	for _, m := range ms {
		ok := true
		for _, b := range liveBacks {
			g := goalOf(m, b)
			if g == nil {
				ok = false
				break
			}
			if b.decide(g) > 0 {
				continue
			}
			if r, _ := checkUnsat(append(b.pcTerms(), mkNot(g)), 0); r != Unsat {
				ok = false
				break
			}
		}
		if ok {
			ex.trivial++
			ex.trivBy["decreases"]++
			return
		}
	}
	o := &Oblig{fn: ex.cur.name, kind: "decreases", pos: ex.pr.pos(pos), text: fmt.Sprintf("loop %d of %s terminates (no measure found)", l.ord, fr.fn.Name()), pc: liveBacks[0].pcTerms(), goal: tFals}
	if len(ms) > 0 {
		if g := goalOf(ms[0], liveBacks[0]); g != nil {
			o.goal = g
		}
	}
	ex.obs = append(ex.obs, o)
}
