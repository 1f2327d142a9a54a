package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation.
type Oblig struct {
	fn     string
	kind   string // index slice nil make typeassert div panic shift pre post inv step decreases frame
	tags   []string
	pos    string
	text   string
	pc     []*Term
	goal   *Term
	status string // proved trivially / proved / failed
	by     string
	dur    time.Duration
	model  string
	trace  string
}

type retState struct {
	st   *State
	vals []Val
}

type Exec struct {
	checking    *Clause // the labelled clause being checked
	pure        int     // evaluating a real function inside a specification: merges keep the conditions themselves
	pr          *Prog
	ctr0        *Term
	heap0       map[string]*Term
	quiet       int
	obs         []*Oblig
	trivial     int // obligations discharged by the simplifier
	trivBy      map[string]int
	frames      int
	cur         *FuncSpec // function under verification
	curFn       *ssa.Function
	top         *Frame
	steps       int
	maxStep     int
	loopInf     map[string]*loopInfo
	trusted     map[string]bool
	inlined     map[string]bool
	used        map[string]bool // contracts used
	deadl       time.Time
	notes       map[string]bool
	noSafe      bool
	written     map[string]map[*Term]bool // heap key -> refs written (discovery)
	ghostAt     map[string]bool
	nret        int
	disc        bool
	calledSpecs map[string]bool
	entrySt     *State
}

func (ex *Exec) note(s string) { ex.notes[s] = true }

func (ex *Exec) check(st *State, goal *Term, kind string, pos token.Pos, text string, tags ...string) bool {
	if st.dead {
		return false
	}
	if d := st.decide(goal); d > 0 {
		if ex.quiet == 0 {
			ex.trivial++
			ex.trivBy[kind]++
			for _, t := range tags {
				ex.trivBy["tag:"+t]++
			}
		}
		return true
	}
	if ex.quiet == 0 {
		pcs := ex.checking.relevant(st.pcTerms())
		for _, pc := range goalPieces(goal) {
			n := len(pc) - 1
			o := &Oblig{fn: ex.cur.name, kind: kind, tags: tags, pos: ex.pr.pos(pos), text: text, pc: append(append([]*Term(nil), pcs...), pc[:n]...), goal: mkNot(pc[n]), trace: st.trace}
			ex.obs = append(ex.obs, o)
		}
	}
	return st.assume(goal)
}

var canaries = os.Getenv("GOVER_CANARY") != ""

// canary looks for contradictory assumptions: a point proved unreachable is reported (a diagnostic mode)
func (ex *Exec) canary(st *State, pos token.Pos, text string) {
	if canaries && !st.dead && ex.quiet == 0 && ex.cur != nil {
		ex.obs = append(ex.obs, &Oblig{fn: ex.cur.name, kind: "canary", pos: ex.pr.pos(pos), text: text, pc: st.pcTerms(), goal: tFals, trace: st.trace})
	}
}

// feasible: cheap then solver
func (ex *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	r, _ := checkUnsat(quickTerms(st.pcTerms()), -1)
	if r == Unsat {
		st.dead = true
		return false
	}
	return true
}

func (ex *Exec) mustHold(st *State, goal *Term) bool {
	if st.decide(goal) > 0 {
		return true
	}
	if st.decide(goal) < 0 {
		return false
	}
	r, _ := checkUnsat(append(quickTerms(st.pcTerms()), mkNot(goal)), -1)
	return r == Unsat
}

// quickTerms: the facts a quick check looks at (quantified ones keep solvers from answering)
func quickTerms(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.op != "forall" && !(t.op == "=>" && t.args[1].op == "forall") {
			out = append(out, t)
		}
	}
	return out
}

// ---- integers ----

func (ex *Exec) wrapTo(st *State, x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	l, h := st.interval(x)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return x
	}
	if !x.bound {
		in := mkAnd(mkLe(mkInt(lo), x), mkLe(x, mkInt(hi)))
		if hasOp(x, "+", "*") && ex.mustHold(st, in) {
			st.assume(in)
			return x
		}
	}
	bits, signed := bitsOf(t)
	m := new(big.Int).Lsh(big1, uint(bits))
	if !signed {
		return mkMod(x, mkInt(m))
	}
	hf := new(big.Int).Rsh(m, 1)
	return mkSub(mkMod(mkAdd(x, mkInt(hf)), mkInt(m)), mkInt(hf))
}

func hasOp(t *Term, ops ...string) bool {
	for _, o := range ops {
		if t.op == o {
			return true
		}
	}
	return false
}

func pow2(k int) *Term { return mkInt(new(big.Int).Lsh(big1, uint(k))) }

// andConst: x & c for c >= 0 (two's complement semantics)
func andConst(x *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return mkI(0)
	}
	r := mkI(0)
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		part := mkMod(mkDiv(x, pow2(i)), pow2(j-i))
		r = mkAdd(r, mkMul(part, pow2(i)))
		i = j
	}
	return r
}

func (ex *Exec) bitop(st *State, op token.Token, x, y *Term, t types.Type) *Term {
	if isInt(x) && !isInt(y) && op != token.AND_NOT {
		x, y = y, x
	}
	bits, signed := bitsOf(t)
	if isInt(y) {
		c := y.iv
		if isInt(x) {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(x.iv, c)
			case token.OR:
				r.Or(x.iv, c)
			case token.XOR:
				r.Xor(x.iv, c)
			case token.AND_NOT:
				r.AndNot(x.iv, c)
			}
			return mkInt(r)
		}
		if c.Sign() < 0 {
			if op == token.AND { // x & c = x - (x & ^c)
				return mkSub(x, andConst(x, new(big.Int).Not(c)))
			}
			if op == token.AND_NOT {
				return andConst(x, new(big.Int).Not(c))
			}
			if op == token.XOR && c.Cmp(big.NewInt(-1)) == 0 {
				return mkSub(mkI(-1), x)
			}
		} else {
			a := andConst(x, c)
			switch op {
			case token.AND:
				return a
			case token.OR:
				return mkSub(mkAdd(x, y), a)
			case token.XOR:
				return mkSub(mkAdd(x, y), mkMul(mkI(2), a))
			case token.AND_NOT:
				return mkSub(x, a)
			}
		}
	}
	// disjoint bit ranges: (x * 2^k) | y with y < 2^k
	if op == token.OR || op == token.XOR || op == token.ADD {
		if r := disjointOr(st, x, y); r != nil {
			return r
		}
		if r := disjointOr(st, y, x); r != nil {
			return r
		}
	}
	if op == token.AND_NOT {
		return mkSub(x, ex.bitop(st, token.AND, x, y, t))
	}
	if x.id > y.id {
		x, y = y, x
	}
	names := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}
	r := mkApp(names[op], sInt, x, y)
	if !signed || (x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0) {
		h := new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1)
		if x.hi != nil && y.hi != nil {
			m := x.hi.BitLen()
			if y.hi.BitLen() > m {
				m = y.hi.BitLen()
			}
			h2 := new(big.Int).Sub(new(big.Int).Lsh(big1, uint(m)), big1)
			if h2.Cmp(h) < 0 {
				h = h2
			}
		}
		withRange(r, big0, h)
	} else {
		rangeBy(r, t)
	}
	return r
}

// x multiple of 2^k and 0 <= y < 2^k
func disjointOr(st *State, x, y *Term) *Term {
	yl, yh := st.interval(y)
	if yl == nil || yh == nil || yl.Sign() < 0 {
		return nil
	}
	k := yh.BitLen()
	if k == 0 {
		return x
	}
	if mkMod(x, pow2(k)) == mkI(0) {
		return mkAdd(x, y)
	}
	return nil
}

func mkQuo(st *State, a, b *Term) *Term { // truncated division
	al, _ := st.interval(a)
	bl, _ := st.interval(b)
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		return mkDiv(a, b)
	}
	if isInt(b) && b.iv.Sign() > 0 {
		return mkIte(mkLe(mkI(0), a), mkDiv(a, b), mkNeg(mkDiv(mkNeg(a), b)))
	}
	absA := mkIte(mkLe(mkI(0), a), a, mkNeg(a))
	absB := mkIte(mkLe(mkI(0), b), b, mkNeg(b))
	q := mkDiv(absA, absB)
	return mkIte(mkEq(mkLe(mkI(0), a), mkLe(mkI(0), b)), q, mkNeg(q))
}

// ---- memory ----

func fkey(t types.Type, i int) string { return "F|" + typeKey(t) + "|" + fieldName(t, i) }
func ekey(el types.Type) string       { return "E|" + typeKey(el) }
func ckey(t types.Type) string        { return "C|" + typeKey(t) }

var fieldIDs = map[string]int64{}

func subRef(ref *Term, t types.Type, i int) *Term {
	k := fkey(t, i)
	id, ok := fieldIDs[k]
	if !ok {
		id = int64(len(fieldIDs) + 1)
		fieldIDs[k] = id
	}
	return mkCtor("sub", sRef, ref, mkI(id))
}

func (ex *Exec) sel(st *State, key, hsort string, ref *Term, vs string, t types.Type) *Term {
	h := ex.heapGet(st, key, hsort)
	v := mkSelect(h, ref, vs)
	if t != nil {
		rangeBy(v, t)
		if !v.bound {
			ex.wf(st, v, t, st.ctr)
			if b := birthOf(h); b != nil && b != st.ctr {
				base := stripStores(h)
				v2 := mkSelect(base, ref, vs)
				rangeBy(v2, t)
				ex.wf(st, v2, t, b)
			}
		}
	}
	return v
}

func (ex *Exec) noteWrite(key string, ref *Term) {
	if ex.written != nil {
		m := ex.written[key]
		if m == nil {
			m = map[*Term]bool{}
			ex.written[key] = m
		}
		m[ref] = true
	}
}

func (ex *Exec) put(st *State, key, hsort string, ref *Term, v *Term) {
	h := ex.heapGet(st, key, hsort)
	ex.noteWrite(key, ref)
	st.heap[key] = mkStore(h, ref, v)
}

func (ex *Exec) loadField(st *State, ref *Term, t types.Type, i int) Val {
	ft := under(t).(*types.Struct).Field(i).Type()
	if isStruct(ft) {
		return ex.loadStruct(st, subRef(ref, t, i), ft)
	}
	if isArray(ft) {
		return ex.arrAt(st, subRef(ref, t, i), under(ft).(*types.Array).Elem())
	}
	s := sortOf(ft)
	v := ex.sel(st, fkey(t, i), heapSort(s), ref, s, ft)
	return fromTerm(v, ft)
}

func (ex *Exec) storeField(st *State, ref *Term, t types.Type, i int, v Val) {
	ft := under(t).(*types.Struct).Field(i).Type()
	if isStruct(ft) {
		ex.storeStruct(st, subRef(ref, t, i), ft, v)
		return
	}
	if isArray(ft) {
		ex.setArr(st, subRef(ref, t, i), under(ft).(*types.Array).Elem(), toTerm(v, ft))
		return
	}
	s := sortOf(ft)
	ex.put(st, fkey(t, i), heapSort(s), ref, toTerm(v, ft))
}

func (ex *Exec) loadStruct(st *State, ref *Term, t types.Type) Val {
	r := &StructV{typ: t}
	n := under(t).(*types.Struct).NumFields()
	for i := 0; i < n; i++ {
		r.f = append(r.f, ex.loadField(st, ref, t, i))
	}
	return r
}

func (ex *Exec) storeStruct(st *State, ref *Term, t types.Type, v Val) {
	sv, ok := v.(*StructV)
	if !ok {
		sv = fromTerm(v.(*Term), t).(*StructV)
	}
	for i := range sv.f {
		ex.storeField(st, ref, t, i, sv.f[i])
	}
}

func (ex *Exec) arrAt(st *State, ref *Term, el types.Type) *Term {
	es := sortOf(el)
	h := ex.heapGet(st, ekey(el), heapSort(arrSort(es)))
	return mkSelect(h, ref, arrSort(es))
}

func (ex *Exec) setArr(st *State, ref *Term, el types.Type, a *Term) {
	es := sortOf(el)
	ex.put(st, ekey(el), heapSort(arrSort(es)), ref, a)
}

func (ex *Exec) elemAt(st *State, ref, idx *Term, el types.Type) Val {
	es := sortOf(el)
	a := ex.arrAt(st, ref, el)
	v := mkSelect(a, idx, es)
	rangeBy(v, el)
	if !v.bound {
		if ex.pr.nonnilElem(el) {
			st.assume(notNil(v))
		}
		ex.wf(st, v, el, st.ctr)
		h := ex.heapGet(st, ekey(el), heapSort(arrSort(es)))
		if b := birthOf(h); b != nil && b != st.ctr {
			base := stripStores(h)
			v2 := mkSelect(stripStores(mkSelect(base, ref, arrSort(es))), idx, es)
			rangeBy(v2, el)
			ex.wf(st, v2, el, b)
		}
	}
	return fromTerm(v, el)
}

func walkType(t types.Type, path []pstep) types.Type {
	for _, p := range path {
		if p.idx != nil {
			t = under(t).(*types.Array).Elem()
		} else {
			t = under(t).(*types.Struct).Field(p.field).Type()
		}
	}
	return t
}

func (ex *Exec) getPath(v Val, t types.Type, path []pstep) Val {
	for _, p := range path {
		if p.idx != nil {
			el := under(t).(*types.Array).Elem()
			x := mkSelect(toTerm(v, t), p.idx, sortOf(el))
			v, t = fromTerm(rangeBy(x, el), el), el
		} else {
			sv, ok := v.(*StructV)
			if !ok {
				sv = fromTerm(v.(*Term), t).(*StructV)
			}
			v, t = sv.f[p.field], under(t).(*types.Struct).Field(p.field).Type()
		}
	}
	return v
}

func (ex *Exec) setPath(v Val, t types.Type, path []pstep, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx != nil {
		el := under(t).(*types.Array).Elem()
		a := toTerm(v, t)
		old := fromTerm(mkSelect(a, p.idx, sortOf(el)), el)
		return mkStore(a, p.idx, toTerm(ex.setPath(old, el, path[1:], nv), el))
	}
	sv, ok := v.(*StructV)
	if !ok {
		sv = fromTerm(v.(*Term), t).(*StructV)
	}
	r := &StructV{typ: sv.typ, f: append([]Val(nil), sv.f...)}
	r.f[p.field] = ex.setPath(sv.f[p.field], under(t).(*types.Struct).Field(p.field).Type(), path[1:], nv)
	return r
}

func (ex *Exec) load(st *State, p Val, t types.Type) Val {
	switch x := p.(type) {
	case *PtrV:
		var base Val
		switch x.kind {
		case 'l':
			b, ok := st.locals[x.loc]
			if !ok {
				b = zeroOf(x.loc.typ)
			}
			base = b
		case 'f':
			base = fromTerm(ex.sel(st, x.heap, heapSort(x.hsort), x.ref, x.hsort, x.base), x.base)
		case 'e':
			base = ex.elemAt(st, x.ref, x.idx, x.base)
		case 'g':
			base = fromTerm(ex.globalGet(st, x.heap, x.hsort, x.base), x.base)
		}
		v := ex.getPath(base, x.base, x.path)
		if tv, ok := v.(*Term); ok && !tv.bound {
			ex.wf(st, tv, t, st.ctr)
		}
		return v
	case *Term:
		if isStruct(t) {
			return ex.loadStruct(st, x, t)
		}
		if a, ok := under(t).(*types.Array); ok {
			return ex.arrAt(st, x, a.Elem())
		}
		s := sortOf(t)
		return fromTerm(ex.sel(st, ckey(t), heapSort(s), x, s, t), t)
	}
	unsup("load through %T", p)
	return nil
}

func (ex *Exec) globalGet(st *State, key, sort string, t types.Type) *Term {
	h := ex.heapGet(st, key, sort)
	rangeBy(h, t)
	ex.wf(st, h, t, st.ctr)
	return h
}

func (ex *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch x := p.(type) {
	case *PtrV:
		switch x.kind {
		case 'l':
			if len(x.path) == 0 {
				st.locals[x.loc] = v
				return
			}
			b, ok := st.locals[x.loc]
			if !ok {
				b = zeroOf(x.loc.typ)
			}
			st.locals[x.loc] = ex.setPath(b, x.base, x.path, v)
		case 'f':
			if len(x.path) > 0 {
				base := fromTerm(ex.sel(st, x.heap, heapSort(x.hsort), x.ref, x.hsort, x.base), x.base)
				v = ex.setPath(base, x.base, x.path, v)
			}
			ex.put(st, x.heap, heapSort(x.hsort), x.ref, toTerm(v, x.base))
		case 'e':
			if len(x.path) == 0 && ex.pr.nonnilElem(x.base) {
				if tv, ok := v.(*Term); ok {
					ex.check(st, notNil(tv), "typeinv", token.NoPos, "nil element stored in []"+typeKey(x.base))
				}
			}
			a := ex.arrAt(st, x.ref, x.base)
			if len(x.path) > 0 {
				base := ex.elemAt(st, x.ref, x.idx, x.base)
				v = ex.setPath(base, x.base, x.path, v)
			}
			ex.setArr(st, x.ref, x.base, mkStore(a, x.idx, toTerm(v, x.base)))
		case 'g':
			if len(x.path) > 0 {
				v = ex.setPath(fromTerm(ex.globalGet(st, x.heap, x.hsort, x.base), x.base), x.base, x.path, v)
			}
			ex.noteWrite(x.heap, tNull)
			ex.heapGet(st, x.heap, x.hsort)
			st.heap[x.heap] = toTerm(v, x.base)
		}
	case *Term:
		if isStruct(t) {
			ex.storeStruct(st, x, t, v)
			return
		}
		if a, ok := under(t).(*types.Array); ok {
			ex.setArr(st, x, a.Elem(), toTerm(v, t))
			return
		}
		s := sortOf(t)
		ex.put(st, ckey(t), heapSort(s), x, toTerm(v, t))
	default:
		unsup("store through %T", p)
	}
}

func (ex *Exec) newObj(st *State) *Term {
	r := mkCtor("obj", sRef, st.ctr)
	st.ctr = mkAdd(st.ctr, mkI(1))
	return r
}

func (ex *Exec) fieldAddr(st *State, p Val, t types.Type, i int, pos token.Pos) Val {
	ft := under(t).(*types.Struct).Field(i).Type()
	switch x := p.(type) {
	case *Term:
		ex.nilCheck(st, x, pos)
		if isStruct(ft) || isArray(ft) {
			return subRef(x, t, i)
		}
		return &PtrV{kind: 'f', heap: fkey(t, i), hsort: sortOf(ft), ref: x, base: ft, typ: ft}
	case *PtrV:
		r := *x
		r.path = append(append([]pstep(nil), x.path...), pstep{field: i})
		r.typ = ft
		return &r
	}
	unsup("fieldAddr %T", p)
	return nil
}

func (ex *Exec) nilCheck(st *State, x *Term, pos token.Pos) {
	ex.check(st, mkNot(mkEq(x, tNull)), "nil", pos, "nil dereference")
}

// ---- function execution ----

func (ex *Exec) newFrame(fn *ssa.Function, parent *Frame, key string) *Frame {
	ex.frames++
	f := &Frame{fn: fn, id: ex.frames, parent: parent, locs: map[*ssa.Alloc]*Loc{}, binds: map[*ssa.FreeVar]Val{}, key: key,
		params: map[string]Val{}, ptypes: map[string]types.Type{}}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

func (ex *Exec) runFunc(fn *ssa.Function, args []Val, binds []Val, st *State, parent *Frame, key string) []*retState {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if parent != nil && parent.depth > 14 {
		unsup("inline depth at %s", fn)
	}
	for p := parent; p != nil; p = p.parent {
		if p.specRoot {
			break
		}
		if p.fn == fn {
			unsup("recursive call of %s without contract", fn)
		}
	}
	fr := ex.newFrame(fn, parent, key)
	for i, p := range fn.Params {
		st.regs[regKey{fr, p}] = args[i]
		fr.params[p.Name()] = args[i]
		fr.ptypes[p.Name()] = p.Type()
	}
	for i, fv := range fn.FreeVars {
		fr.binds[fv] = binds[i]
	}
	if parent == nil {
		ex.top = fr
	}
	fr.entry = st.clone()
	savedDefers := st.defers
	st.defers = nil
	_, _, rets := ex.runRegion(fr, fn.Blocks[0], []*State{st}, nil)
	// merge returns when there are many
	out := rets
	if parent != nil && len(rets) > 1 {
		out = ex.mergeRets(fr, rets, len(rets) > ex.retMergeLimit(parent))
	}
	for _, r := range out {
		r.st.defers = savedDefers
		if parent != nil {
			for k := range r.st.regs {
				if k.fr == fr {
					delete(r.st.regs, k)
				}
			}
			for _, l := range fr.locs {
				delete(r.st.locals, l)
			}
		}
	}
	return out
}

func (ex *Exec) retMergeLimit(parent *Frame) int {
	if ex.cur != nil && ex.cur.retMerge > 0 {
		return ex.cur.retMerge
	}
	return 3
}

func (ex *Exec) mergeRets(fr *Frame, rets []*retState, doit bool) []*retState {
	if !doit {
		return rets
	}
	key := regKey{fr, nil}
	var ss []*State
	for _, r := range rets {
		for k := range r.st.regs {
			if k.fr == fr {
				delete(r.st.regs, k)
			}
		}
		for _, l := range fr.locs {
			delete(r.st.locals, l)
		}
		r.st.regs[key] = &TupleV{r.vals}
		ss = append(ss, r.st)
	}
	ms := ex.mergeAll(ss)
	var out []*retState
	for _, m := range ms {
		v := m.regs[key].(*TupleV)
		delete(m.regs, key)
		out = append(out, &retState{m, v.vs})
	}
	return out
}

type edge struct {
	to *ssa.BasicBlock
	st *State
}

// runRegion executes from block entry until the region (nil: whole function; else the loop body) is left.
func (ex *Exec) runRegion(fr *Frame, entry *ssa.BasicBlock, sts []*State, loop *Loop) (exits []edge, backs []*State, rets []*retState) {
	ci := ex.pr.cfg(fr.fn)
	pending := map[*ssa.BasicBlock][]*State{}
	first := true
	var take func(e edge)
	take = func(e edge) {
		if e.st.dead {
			return
		}
		if loop != nil {
			if e.to == loop.header {
				backs = append(backs, e.st)
				return
			}
			if !loop.body[e.to] {
				exits = append(exits, e)
				return
			}
		}
		pending[e.to] = append(pending[e.to], e.st)
	}
	process := func(b *ssa.BasicBlock, ss []*State, skipLoop bool) {
		if l := ci.loopOf[b]; l != nil && l.header == b && !skipLoop {
			ss = ex.mergeAll(ss)
			for _, s := range ss {
				ex2, r2 := ex.execLoop(fr, l, s)
				rets = append(rets, r2...)
				for _, e := range ex2 {
					take(e)
				}
			}
			return
		}
		if len(ss) > ex.mergeLimit() {
			ss = ex.mergeAll(ss)
		}
		for _, s := range ss {
			es, r2 := ex.execBlock(fr, b, s)
			rets = append(rets, r2...)
			for _, e := range es {
				take(e)
			}
		}
	}
	pending[entry] = sts
	for len(pending) > 0 {
		var best *ssa.BasicBlock
		for b := range pending {
			if best == nil || ci.rpo[b] < ci.rpo[best] {
				best = b
			}
		}
		ss := pending[best]
		delete(pending, best)
		process(best, ss, first && loop != nil)
		first = false
	}
	return
}

func (ex *Exec) mergeLimit() int {
	if ex.cur != nil && ex.cur.merge > 0 {
		return ex.cur.merge
	}
	return 6
}

func (ex *Exec) tick() {
	ex.steps++
	if ex.steps&1023 == 0 && time.Now().After(ex.deadl) {
		unsup("time limit in symbolic execution")
	}
	if ex.steps > ex.maxStep {
		unsup("step limit in symbolic execution")
	}
}

// execBlock runs all instructions of b for state s.
func (ex *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, s *State) (out []edge, rets []*retState) {
	cur := []*State{s}
	for _, in := range b.Instrs {
		var next []*State
		for _, st := range cur {
			if st.dead {
				continue
			}
			ex.tick()
			switch x := in.(type) {
			case *ssa.Jump:
				if e := ex.goEdge(fr, b, b.Succs[0], st); e != nil {
					out = append(out, *e)
				}
			case *ssa.If:
				c := ex.val(fr, st, x.Cond).(*Term)
				d := st.decide(c)
				var sT, sF *State
				if d == 0 {
					sT, sF = st.clone(), st
					sT.assume(c)
					sF.assume(mkNot(c))
					if !sT.dead && !sF.dead && ex.pruneOn() {
						if !ex.feasible(sT) {
							sT.dead = true
						} else if !ex.feasible(sF) {
							sF.dead = true
						}
					}
				} else if d > 0 {
					sT = st
				} else {
					sF = st
				}
				if sT != nil && !sT.dead {
					if e := ex.goEdge(fr, b, b.Succs[0], sT); e != nil {
						out = append(out, *e)
					}
				}
				if sF != nil && !sF.dead {
					if e := ex.goEdge(fr, b, b.Succs[1], sF); e != nil {
						out = append(out, *e)
					}
				}
			case *ssa.Return:
				var vs []Val
				for _, r := range x.Results {
					vs = append(vs, ex.val(fr, st, r))
				}
				rets = append(rets, &retState{st, vs})
			case *ssa.Panic:
				ex.check(st, tFals, "panic", x.Pos(), "explicit panic reached")
				st.dead = true
			case *ssa.RunDefers:
				next = append(next, ex.runDefers(fr, st)...)
			default:
				next = append(next, ex.instr(fr, in, st)...)
			}
		}
		cur = next
		if len(cur) > 12 {
			cur = ex.mergeAll(cur)
		}
	}
	return
}

func (ex *Exec) pruneOn() bool { return ex.cur == nil || !ex.cur.noPrune }

func (ex *Exec) runDefers(fr *Frame, st *State) []*State {
	cur := []*State{st}
	ds := st.defers
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*State
		for _, s := range cur {
			s.defers = nil
			for _, r := range ex.callCommon(fr, s, &ds[i].call.Call, ds[i].call, ds[i].args, ds[i].fnv) {
				next = append(next, r.st)
			}
		}
		cur = next
	}
	for _, s := range cur {
		s.defers = nil
	}
	return cur
}

func (ex *Exec) goEdge(fr *Frame, from, to *ssa.BasicBlock, st *State) *edge {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, ex.val(fr, st, ph.Edges[pi]))
	}
	for i, ph := range phis {
		st.regs[regKey{fr, ph}] = vals[i]
	}
	return &edge{to, st}
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch sortOf(t) {
	case sBool:
		return mkBool(constant.BoolVal(c.Value))
	case sInt:
		v := constant.ToInt(c.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsup("const %s", c)
		}
		return mkInt(b)
	case sSeq:
		return mkLit(constant.StringVal(c.Value))
	case sF64:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return mkFloat(f)
	}
	unsup("const %s", c)
	return nil
}

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return &FnV{fn: x}
	case *ssa.Global:
		return ex.globalPtr(x)
	case *ssa.FreeVar:
		return fr.binds[x]
	case *ssa.Builtin:
		return x
	}
	if r, ok := st.regs[regKey{fr, v}]; ok {
		return r
	}
	unsup("undefined register %s in %s", v.Name(), fr.fn)
	return nil
}

var globalIDs = map[*ssa.Global]int64{}

func (ex *Exec) globalPtr(g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if isStruct(t) || isArray(t) {
		id, ok := globalIDs[g]
		if !ok {
			id = -int64(len(globalIDs) + 1)
			globalIDs[g] = id
		}
		return mkCtor("obj", sRef, mkI(id))
	}
	return &PtrV{kind: 'g', heap: "G|" + g.String(), hsort: sortOf(t), base: t, typ: t}
}

func (ex *Exec) set(fr *Frame, st *State, v ssa.Value, x Val) []*State {
	st.regs[regKey{fr, v}] = x
	return []*State{st}
}

func (ex *Exec) instr(fr *Frame, in ssa.Instruction, st *State) []*State {
	one := []*State{st}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return one
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if x.Heap {
			r := ex.newObj(st)
			ex.store(st, r, t, zeroOf(t))
			ex.zeroGhosts(st, r, t)
			return ex.set(fr, st, x, r)
		}
		l := fr.locs[x]
		if l == nil {
			l = &Loc{name: x.Comment, typ: t, fr: fr, id: len(fr.locs)}
			fr.locs[x] = l
		}
		st.locals[l] = zeroOf(t)
		return ex.set(fr, st, x, &PtrV{kind: 'l', loc: l, base: t, typ: t})
	case *ssa.Store:
		p := ex.val(fr, st, x.Addr)
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		if r, ok := p.(*Term); ok {
			ex.nilCheck(st, r, x.Pos())
		}
		ex.store(st, p, t, ex.val(fr, st, x.Val))
		return one
	case *ssa.UnOp:
		return ex.unop(fr, x, st)
	case *ssa.BinOp:
		return ex.binop(fr, x, st)
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return ex.set(fr, st, x, ex.fieldAddr(st, ex.val(fr, st, x.X), t, x.Field, x.Pos()))
	case *ssa.Field:
		v := ex.val(fr, st, x.X)
		return ex.set(fr, st, x, ex.getPath(v, x.X.Type(), []pstep{{field: x.Field}}))
	case *ssa.IndexAddr:
		idx := ex.val(fr, st, x.Index).(*Term)
		bv := ex.val(fr, st, x.X)
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := bv.(*Term)
			ex.check(st, mkAnd(mkLe(mkI(0), idx), mkLt(idx, slLen(s))), "index", x.Pos(), "index out of range")
			return ex.set(fr, st, x, &PtrV{kind: 'e', ref: slRef(s), idx: mkAdd(slOff(s), idx), base: u.Elem(), typ: u.Elem(), hsort: sortOf(u.Elem())})
		case *types.Pointer:
			at := under(u.Elem()).(*types.Array)
			ex.check(st, mkAnd(mkLe(mkI(0), idx), mkLt(idx, mkI(at.Len()))), "index", x.Pos(), "index out of range")
			switch p := bv.(type) {
			case *Term:
				ex.nilCheck(st, p, x.Pos())
				return ex.set(fr, st, x, &PtrV{kind: 'e', ref: p, idx: idx, base: at.Elem(), typ: at.Elem(), hsort: sortOf(at.Elem())})
			case *PtrV:
				r := *p
				r.path = append(append([]pstep(nil), p.path...), pstep{idx: idx})
				r.typ = at.Elem()
				return ex.set(fr, st, x, &r)
			}
		}
		unsup("IndexAddr on %s", x.X.Type())
	case *ssa.Index:
		idx := ex.val(fr, st, x.Index).(*Term)
		v := ex.val(fr, st, x.X)
		switch u := under(x.X.Type()).(type) {
		case *types.Array:
			ex.check(st, mkAnd(mkLe(mkI(0), idx), mkLt(idx, mkI(u.Len()))), "index", x.Pos(), "index out of range")
			return ex.set(fr, st, x, ex.getPath(v, x.X.Type(), []pstep{{idx: idx}}))
		case *types.Basic:
			s := v.(*Term)
			ex.check(st, mkAnd(mkLe(mkI(0), idx), mkLt(idx, qlen(s))), "index", x.Pos(), "index out of range")
			return ex.set(fr, st, x, byteAt(s, idx))
		}
		unsup("Index on %s", x.X.Type())
	case *ssa.Lookup:
		return ex.lookup(fr, x, st)
	case *ssa.Slice:
		return ex.sliceOp(fr, x, st)
	case *ssa.MakeSlice:
		n := ex.val(fr, st, x.Len).(*Term)
		c := ex.val(fr, st, x.Cap).(*Term)
		el := under(x.Type()).(*types.Slice).Elem()
		ex.check(st, mkAnd(mkLe(mkI(0), n), mkLe(n, mkInt(maxMake))), "make", x.Pos(), "makeslice: len out of range")
		if c != n {
			ex.check(st, mkAnd(mkLe(n, c), mkLe(c, mkInt(maxMake))), "make", x.Pos(), "makeslice: cap out of range")
		}
		if ex.pr.nonnilElem(el) {
			ex.check(st, mkEq(n, mkI(0)), "typeinv", x.Pos(), "nil elements created in []"+typeKey(el))
		}
		r := ex.newObj(st)
		ex.setArr(st, r, el, mkConstArr(arrSort(sortOf(el)), toTerm(zeroOf(el), el)))
		return ex.set(fr, st, x, mkSlice(r, mkI(0), n, c))
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		r := ex.newObj(st)
		ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
		md, mv, ml := mapKeys(mt)
		ex.put(st, md, heapSort(mapSort(ks, sBool)), r, mkConstArr(mapSort(ks, sBool), tFals))
		ex.put(st, mv, heapSort(mapSort(ks, vs)), r, mkConstArr(mapSort(ks, vs), toTerm(zeroOf(mt.Elem()), mt.Elem())))
		ex.put(st, ml, heapSort(sInt), r, mkI(0))
		return ex.set(fr, st, x, r)
	case *ssa.MapUpdate:
		mt := under(x.Map.Type()).(*types.Map)
		m := ex.val(fr, st, x.Map).(*Term)
		ex.check(st, mkNot(mkEq(m, tNull)), "nil", x.Pos(), "assignment to entry in nil map")
		k := toTerm(ex.val(fr, st, x.Key), mt.Key())
		v := toTerm(ex.val(fr, st, x.Value), mt.Elem())
		ex.mapUpdate(st, mt, m, k, v)
		return one
	case *ssa.MakeInterface:
		v := ex.val(fr, st, x.X)
		return ex.set(fr, st, x, mkIface(v, x.X.Type(), func(t *Term) { st.assume(t) }))
	case *ssa.ChangeInterface:
		return ex.set(fr, st, x, ex.val(fr, st, x.X))
	case *ssa.ChangeType:
		v := ex.val(fr, st, x.X)
		if isStruct(x.Type()) {
			sv, ok := v.(*StructV)
			if !ok {
				sv = fromTerm(v.(*Term), x.X.Type()).(*StructV)
			}
			return ex.set(fr, st, x, &StructV{typ: x.Type(), f: sv.f})
		}
		return ex.set(fr, st, x, v)
	case *ssa.Convert:
		return ex.convert(fr, x, st)
	case *ssa.MakeClosure:
		f := &FnV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, ex.val(fr, st, b))
		}
		if sp := ex.pr.spec(f.fn); sp != nil && len(sp.captures) > 0 {
			cf := ex.newFrame(f.fn, fr, fr.key+"/"+instrKey(in)+":"+f.fn.Name())
			for i, fv := range f.fn.FreeVars {
				if !capturedOnce(x, i) {
					unsup("captured variable %s of %s changes after the closure is made", fv.Name(), f.fn.Name())
				}
				cf.binds[fv] = f.binds[i]
			}
			env := &specEnv{ex: ex, fr: cf, st: st, old: st, noLocals: true}
			for _, cl := range sp.captures {
				ex.check(st, env.boolOf(cl.expr), "capture", posOf(in), "captured values of "+f.fn.Name()+": "+cl.text, cl.tags...)
			}
		}
		return ex.set(fr, st, x, f)
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, x, st)
	case *ssa.Extract:
		tv, ok := ex.val(fr, st, x.Tuple).(*TupleV)
		if !ok {
			unsup("extract from non tuple")
		}
		return ex.set(fr, st, x, tv.vs[x.Index])
	case *ssa.Range:
		it := &IterV{loc: &Loc{name: "rangeiter", typ: types.Typ[types.Int], fr: fr, id: 1000 + len(st.locals)}}
		v := ex.val(fr, st, x.X).(*Term)
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			it.m, it.mt = v, mt
		} else {
			it.str = v
		}
		st.locals[it.loc] = mkI(0)
		return ex.set(fr, st, x, it)
	case *ssa.Next:
		return ex.next(fr, x, st)
	case *ssa.Call:
		var outs []*State
		args := make([]Val, len(x.Call.Args))
		for i, a := range x.Call.Args {
			args[i] = ex.val(fr, st, a)
		}
		var fnv Val
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			fnv = ex.val(fr, st, x.Call.Value)
		} else if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			fnv = ex.val(fr, st, mc)
		}
		for _, r := range ex.callCommon(fr, st, &x.Call, x, args, fnv) {
			if r.st.dead {
				continue
			}
			var v Val
			if len(r.vals) == 1 {
				v = r.vals[0]
			} else {
				v = &TupleV{r.vals}
			}
			r.st.regs[regKey{fr, x}] = v
			outs = append(outs, r.st)
		}
		return outs
	case *ssa.Defer:
		args := make([]Val, len(x.Call.Args))
		for i, a := range x.Call.Args {
			args[i] = ex.val(fr, st, a)
		}
		var fnv Val
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			fnv = ex.val(fr, st, x.Call.Value)
		} else if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			fnv = ex.val(fr, st, mc)
		}
		st.defers = append(append([]deferred(nil), st.defers...), deferred{x, args, fnv})
		return one
	case *ssa.Go, *ssa.Send, *ssa.Select:
		unsup("concurrency instruction %s", in)
	}
	unsup("instruction %T", in)
	return nil
}

// zeroGhosts initialises the model state of library objects embedded in a new object.
func (ex *Exec) zeroGhosts(st *State, r *Term, t types.Type) {
	if typeKey(t) == "bytes.Buffer" {
		ex.put(st, "X|bufseq", heapSort(sSeq), r, mkLit(""))
		return
	}
	if u, ok := under(t).(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if isStruct(u.Field(i).Type()) {
				ex.zeroGhosts(st, subRef(r, t, i), u.Field(i).Type())
			}
		}
	}
}

var maxMake = big.NewInt(1<<31 - 2)

func byteAt(s, i *Term) *Term { return withRange(qat(s, i), nil, nil).byteRange() }

func (t *Term) byteRange() *Term {
	if t.op == "app" || t.op == "select" {
		withRange(t, big0, big.NewInt(255))
	}
	return t
}

func mapKeys(mt *types.Map) (string, string, string) {
	k := typeKey(mt)
	return "MD|" + k, "MV|" + k, "ML|" + k
}

func (ex *Exec) mapUpdate(st *State, mt *types.Map, m, k, v *Term) {
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	md, mv, ml := mapKeys(mt)
	d := mkSelect(ex.heapGet(st, md, heapSort(mapSort(ks, sBool))), m, mapSort(ks, sBool))
	vv := mkSelect(ex.heapGet(st, mv, heapSort(mapSort(ks, vs))), m, mapSort(ks, vs))
	l := withRange(mkSelect(ex.heapGet(st, ml, heapSort(sInt)), m, sInt), big0, maxLen)
	had := mkSelect(d, k, sBool)
	ex.put(st, md, heapSort(mapSort(ks, sBool)), m, mkStore(d, k, tTrue))
	ex.put(st, mv, heapSort(mapSort(ks, vs)), m, mkStore(vv, k, v))
	ex.put(st, ml, heapSort(sInt), m, mkIte(had, l, mkAdd(l, mkI(1))))
}

func (ex *Exec) mapLookup(st *State, mt *types.Map, m, k *Term) (val Val, ok *Term) {
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	md, mv, _ := mapKeys(mt)
	d := mkSelect(ex.heapGet(st, md, heapSort(mapSort(ks, sBool))), m, mapSort(ks, sBool))
	vv := mkSelect(ex.heapGet(st, mv, heapSort(mapSort(ks, vs))), m, mapSort(ks, vs))
	ok = mkAnd(mkNot(mkEq(m, tNull)), mkSelect(d, k, sBool))
	x := mkSelect(vv, k, vs)
	rangeBy(x, mt.Elem())
	ex.wf(st, x, mt.Elem(), st.ctr)
	z := zeroOf(mt.Elem())
	v, mok := mergeVal(ok, fromTerm(x, mt.Elem()), z)
	if !mok {
		unsup("map lookup merge")
	}
	return v, ok
}

func (ex *Exec) lookup(fr *Frame, x *ssa.Lookup, st *State) []*State {
	if mt, ok := under(x.X.Type()).(*types.Map); ok {
		// constant global map?
		if ld, isl := x.X.(*ssa.UnOp); isl && ld.Op == token.MUL {
			if g, isg := ld.X.(*ssa.Global); isg {
				if cm := ex.pr.constMap(g); cm != nil {
					k := toTerm(ex.val(fr, st, x.Index), mt.Key())
					v, okT := ex.constMapLookup(st, cm, mt, k)
					if x.CommaOk {
						return ex.set(fr, st, x, &TupleV{[]Val{v, okT}})
					}
					return ex.set(fr, st, x, v)
				}
			}
		}
		m := ex.val(fr, st, x.X).(*Term)
		k := toTerm(ex.val(fr, st, x.Index), mt.Key())
		v, okT := ex.mapLookup(st, mt, m, k)
		if x.CommaOk {
			return ex.set(fr, st, x, &TupleV{[]Val{v, okT}})
		}
		return ex.set(fr, st, x, v)
	}
	s := ex.val(fr, st, x.X).(*Term)
	idx := ex.val(fr, st, x.Index).(*Term)
	ex.check(st, mkAnd(mkLe(mkI(0), idx), mkLt(idx, qlen(s))), "index", x.Pos(), "string index out of range")
	return ex.set(fr, st, x, byteAt(s, idx))
}

func (ex *Exec) constMapLookup(st *State, cm *constMap, mt *types.Map, k *Term) (Val, *Term) {
	var okT []*Term
	var v Val = zeroOf(mt.Elem())
	for i := len(cm.keys) - 1; i >= 0; i-- {
		kt := toTerm(ex.constVal(cm.keys[i]), mt.Key())
		e := mkEq(k, kt)
		okT = append(okT, e)
		var cv Val
		switch y := cm.vals[i].(type) {
		case *ssa.Const:
			cv = ex.constVal(y)
		case *ssa.Function:
			cv = &FnV{fn: y}
		default:
			// opaque but stable value
			cv = mkApp(fmt.Sprintf("gmap$%s$%d", cm.name, i), sortOf(mt.Elem()))
			if sortOf(mt.Elem()) == sFn && ex.makesFunc(y) {
				st.assume(mkNot(mkEq(cv.(*Term), tNilFn)))
			}
		}
		m, ok := mergeVal(e, cv, v)
		if !ok {
			unsup("const map merge")
		}
		v = m
	}
	return v, mkOr(okT...)
}

// makesFunc: the value is never a nil function
func (ex *Exec) makesFunc(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Function, *ssa.MakeClosure:
		return true
	case *ssa.ChangeType:
		return ex.makesFunc(x.X)
	case *ssa.Call:
		// the contract of the function making it says so
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		sp := ex.pr.spec(f)
		if sp == nil {
			return false
		}
		for _, e := range sp.ensures {
			if e.text == "r0 != nil" {
				ex.used[sp.name] = true
				ex.calledSpecs[sp.name] = true
				return true
			}
		}
		return false
	}
	return false
}

func (ex *Exec) unop(fr *Frame, x *ssa.UnOp, st *State) []*State {
	v := ex.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		if g, ok := x.X.(*ssa.Global); ok {
			if c := ex.globalConst(g); c != nil {
				return ex.set(fr, st, x, c)
			}
		}
		if r, ok := v.(*Term); ok {
			ex.nilCheck(st, r, x.Pos())
		}
		return ex.set(fr, st, x, ex.load(st, v, t))
	case token.NOT:
		return ex.set(fr, st, x, mkNot(v.(*Term)))
	case token.SUB:
		if sortOf(x.Type()) == sF64 {
			return ex.set(fr, st, x, fop1("fneg", v.(*Term)))
		}
		return ex.set(fr, st, x, ex.wrapTo(st, mkNeg(v.(*Term)), x.Type()))
	case token.XOR:
		return ex.set(fr, st, x, ex.wrapTo(st, mkSub(mkI(-1), v.(*Term)), x.Type()))
	}
	unsup("unop %s", x.Op)
	return nil
}

func fop1(name string, a *Term) *Term {
	if f, ok := flitVal[a]; ok && name == "fneg" && f != 0 {
		return mkFloat(-f)
	}
	return mkApp(name, sF64, a)
}

func fop2(name string, a, b *Term) *Term {
	fa, ok1 := flitVal[a]
	fb, ok2 := flitVal[b]
	if ok1 && ok2 {
		switch name {
		case "fadd":
			return mkFloat(fa + fb)
		case "fsub":
			return mkFloat(fa - fb)
		case "fmul":
			return mkFloat(fa * fb)
		case "fdiv":
			if fb != 0 {
				return mkFloat(fa / fb)
			}
		}
	}
	return mkApp(name, sF64, a, b)
}

func fcmp(op token.Token, a, b *Term) *Term {
	fa, ok1 := flitVal[a]
	fb, ok2 := flitVal[b]
	if ok1 && ok2 {
		switch op {
		case token.EQL:
			return mkBool(fa == fb)
		case token.LSS:
			return mkBool(fa < fb)
		case token.LEQ:
			return mkBool(fa <= fb)
		}
	}
	switch op {
	case token.EQL:
		if a.id > b.id {
			a, b = b, a
		}
		return mkApp("feq", sBool, a, b)
	case token.NEQ:
		return mkNot(fcmp(token.EQL, a, b))
	case token.LSS:
		return mkApp("flt", sBool, a, b)
	case token.GTR:
		return mkApp("flt", sBool, b, a)
	case token.LEQ:
		return mkApp("fle", sBool, a, b)
	case token.GEQ:
		return mkApp("fle", sBool, b, a)
	}
	unsup("float cmp")
	return nil
}

func qcat(a, b *Term) *Term {
	if a.op == "lit" && litVal[a] == "" {
		return b
	}
	if b.op == "lit" && litVal[b] == "" {
		return a
	}
	if a.op == "lit" && b.op == "lit" {
		return mkLit(litVal[a] + litVal[b])
	}
	return mkApp("qcat", sSeq, a, b)
}

func (ex *Exec) eqVals(st *State, a, b Val, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return fcmp(token.EQL, a.(*Term), b.(*Term))
		}
	case *types.Struct:
		sa, ok := a.(*StructV)
		if !ok {
			sa = fromTerm(a.(*Term), t).(*StructV)
		}
		sb, ok := b.(*StructV)
		if !ok {
			sb = fromTerm(b.(*Term), t).(*StructV)
		}
		r := tTrue
		for i := range sa.f {
			r = mkAnd(r, ex.eqVals(st, sa.f[i], sb.f[i], u.Field(i).Type()))
		}
		return r
	case *types.Slice:
		ta, tb2 := a.(*Term), b.(*Term)
		if tb2 == tNilSlice {
			return mkEq(slRef(ta), tNull)
		}
		if ta == tNilSlice {
			return mkEq(slRef(tb2), tNull)
		}
	case *types.Interface:
		ta, tb2 := a.(*Term), b.(*Term)
		e := mkEq(ta, tb2)
		if e.op == "true" || e.op == "false" {
			return e
		}
		// floats inside interfaces compare by value; treat NaN/-0 pairs as unknown
		if (isCtor(ta) && ta.op == "ctor:if64") || (isCtor(tb2) && tb2.op == "ctor:if64") {
			return freshVar("ifeq", sBool)
		}
		return e
	case *types.Signature:
		return mkEq(toTerm(a, t), toTerm(b, t))
	case *types.Pointer:
		pa, ok1 := a.(*Term)
		pb, ok2 := b.(*Term)
		if ok1 && ok2 {
			return mkEq(pa, pb)
		}
		if ok1 && pa == tNull || ok2 && pb == tNull {
			return tFals // interior pointers are never nil
		}
		if a == b {
			return tTrue
		}
		return freshVar("ptreq", sBool)
	}
	return mkEq(toTerm(a, t), toTerm(b, t))
}

func (ex *Exec) binop(fr *Frame, x *ssa.BinOp, st *State) []*State {
	a, b := ex.val(fr, st, x.X), ex.val(fr, st, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return ex.set(fr, st, x, ex.eqMixed(st, a, b, x.X.Type(), x.Y.Type()))
	case token.NEQ:
		return ex.set(fr, st, x, mkNot(ex.eqMixed(st, a, b, x.X.Type(), x.Y.Type())))
	}
	p, q := a.(*Term), b.(*Term)
	switch sortOf(t) {
	case sF64:
		switch x.Op {
		case token.ADD:
			return ex.set(fr, st, x, fop2("fadd", p, q))
		case token.SUB:
			return ex.set(fr, st, x, fop2("fsub", p, q))
		case token.MUL:
			return ex.set(fr, st, x, fop2("fmul", p, q))
		case token.QUO:
			return ex.set(fr, st, x, fop2("fdiv", p, q))
		}
		return ex.set(fr, st, x, fcmp(x.Op, p, q))
	case sSeq:
		switch x.Op {
		case token.ADD:
			return ex.set(fr, st, x, qcat(p, q))
		case token.LSS:
			return ex.set(fr, st, x, mkApp("qlt", sBool, p, q))
		case token.GTR:
			return ex.set(fr, st, x, mkApp("qlt", sBool, q, p))
		case token.LEQ:
			return ex.set(fr, st, x, mkNot(mkApp("qlt", sBool, q, p)))
		case token.GEQ:
			return ex.set(fr, st, x, mkNot(mkApp("qlt", sBool, p, q)))
		}
	case sInt:
		switch x.Op {
		case token.ADD:
			return ex.set(fr, st, x, ex.wrapTo(st, mkAdd(p, q), x.Type()))
		case token.SUB:
			return ex.set(fr, st, x, ex.wrapTo(st, mkSub(p, q), x.Type()))
		case token.MUL:
			return ex.set(fr, st, x, ex.wrapTo(st, mkMul(p, q), x.Type()))
		case token.QUO:
			ex.check(st, mkNot(mkEq(q, mkI(0))), "div", x.Pos(), "integer divide by zero")
			return ex.set(fr, st, x, ex.wrapTo(st, mkQuo(st, p, q), x.Type()))
		case token.REM:
			ex.check(st, mkNot(mkEq(q, mkI(0))), "div", x.Pos(), "integer divide by zero")
			pl, _ := st.interval(p)
			ql, _ := st.interval(q)
			if pl != nil && pl.Sign() >= 0 && ql != nil && ql.Sign() >= 0 {
				return ex.set(fr, st, x, mkMod(p, q))
			}
			return ex.set(fr, st, x, mkSub(p, mkMul(q, mkQuo(st, p, q))))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return ex.set(fr, st, x, ex.bitop(st, x.Op, p, q, x.Type()))
		case token.SHL, token.SHR:
			return ex.shift(fr, x, st, p, q)
		case token.LSS:
			return ex.set(fr, st, x, mkLt(p, q))
		case token.LEQ:
			return ex.set(fr, st, x, mkLe(p, q))
		case token.GTR:
			return ex.set(fr, st, x, mkLt(q, p))
		case token.GEQ:
			return ex.set(fr, st, x, mkLe(q, p))
		}
	case sBool:
		switch x.Op {
		case token.AND:
			return ex.set(fr, st, x, mkAnd(p, q))
		case token.OR:
			return ex.set(fr, st, x, mkOr(p, q))
		}
	}
	unsup("binop %s on %s", x.Op, t)
	return nil
}

func (ex *Exec) eqMixed(st *State, a, b Val, ta, tb2 types.Type) *Term {
	ia, ib := types.IsInterface(ta), types.IsInterface(tb2)
	if ia && !ib {
		return ex.eqVals(st, a, mkIface(b, tb2, func(t *Term) { st.assume(t) }), ta)
	}
	if ib && !ia {
		return ex.eqVals(st, mkIface(a, ta, func(t *Term) { st.assume(t) }), b, tb2)
	}
	return ex.eqVals(st, a, b, ta)
}

// possible values of an integer term (at most max), nil if too many
func (ex *Exec) enumerate(st *State, t *Term, max int) []*Term {
	if isInt(t) {
		return []*Term{t}
	}
	lo, hi := st.interval(t)
	if lo != nil && hi != nil && new(big.Int).Sub(hi, lo).Cmp(big.NewInt(16)) <= 0 {
		var out []*Term
		for i := new(big.Int).Set(lo); i.Cmp(hi) <= 0; i.Add(i, big1) {
			v := mkInt(i)
			if st.decide(mkEq(t, v)) < 0 {
				continue
			}
			r, _ := checkUnsat(append(st.pcTerms(), mkEq(t, v)), -1)
			if r != Unsat {
				out = append(out, v)
			}
			if len(out) > max {
				return nil
			}
		}
		return out
	}
	// a known disjunction of values
	base := st.pcTerms()
	for _, c := range base {
		if c.op != "or" {
			continue
		}
		var vs []*Term
		for _, e := range c.args {
			if e.op != "=" {
				vs = nil
				break
			}
			a, b := e.args[0], e.args[1]
			if a == t && isInt(b) {
				vs = append(vs, b)
			} else if b == t && isInt(a) {
				vs = append(vs, a)
			} else {
				vs = nil
				break
			}
		}
		if len(vs) > 0 && len(vs) <= max {
			var out []*Term
			for _, v := range vs {
				if st.decide(mkEq(t, v)) >= 0 {
					out = append(out, v)
				}
			}
			return out
		}
	}
	// ask the solver for models
	var out []*Term
	for {
		v := getModelValue(base, t)
		if v == nil {
			r, _ := checkUnsat(base, 0)
			if r == Unsat {
				return out
			}
			return nil
		}
		out = append(out, v)
		if len(out) > max {
			return nil
		}
		base = append(base, mkNot(mkEq(t, v)))
	}
}

func (ex *Exec) shift(fr *Frame, x *ssa.BinOp, st *State, p, q *Term) []*State {
	if ql, _ := st.interval(q); ql == nil || ql.Sign() < 0 {
		ex.check(st, mkLe(mkI(0), q), "shift", x.Pos(), "negative shift amount")
	}
	doit := func(s *State, k *Term) *Term {
		n := 64
		if k.iv.IsInt64() && k.iv.Int64() < 64 {
			n = int(k.iv.Int64())
		}
		bits, signed := bitsOf(x.Type())
		if x.Op == token.SHL {
			if n >= bits {
				return mkI(0)
			}
			return ex.wrapTo(s, mkMul(p, pow2(n)), x.Type())
		}
		if n >= bits {
			if signed {
				return mkIte(mkLt(p, mkI(0)), mkI(-1), mkI(0))
			}
			return mkI(0)
		}
		return mkDiv(p, pow2(n))
	}
	if isInt(q) {
		return ex.set(fr, st, x, doit(st, q))
	}
	ks := ex.enumerate(st, q, 4)
	if ks == nil {
		// value unknown: only the type range is known
		nm := "shl"
		if x.Op == token.SHR {
			nm = "shr"
		}
		r := mkApp(nm+"$"+sanitize(typeKey(x.Type())), sInt, p, q)
		rangeBy(r, x.Type())
		return ex.set(fr, st, x, r)
	}
	var out []*State
	for i, k := range ks {
		s := st
		if i < len(ks)-1 {
			s = st.clone()
		}
		if !s.assume(mkEq(q, k)) {
			continue
		}
		out = append(out, ex.set(fr, s, x, doit(s, k))...)
	}
	return out
}

func (ex *Exec) sliceOp(fr *Frame, x *ssa.Slice, st *State) []*State {
	v := ex.val(fr, st, x.X)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return ex.val(fr, st, e).(*Term)
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = mkI(0)
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Basic: // string
		s := v.(*Term)
		if hi == nil {
			hi = qlen(s)
		}
		ex.check(st, mkAnd(mkLe(mkI(0), lo), mkLe(lo, hi), mkLe(hi, qlen(s))), "slice", x.Pos(), "slice bounds out of range")
		return ex.set(fr, st, x, qsub(s, lo, hi))
	case *types.Slice:
		s := v.(*Term)
		if hi == nil {
			hi = slLen(s)
		}
		lim := slCap(s)
		if mx != nil {
			ex.check(st, mkAnd(mkLe(hi, mx), mkLe(mx, slCap(s))), "slice", x.Pos(), "slice bounds out of range")
			lim = mx
		}
		g := mkAnd(mkLe(mkI(0), lo), mkLe(lo, hi), mkLe(hi, lim))
		if hi == slLen(s) {
			g = mkAnd(mkLe(mkI(0), lo), mkLe(lo, hi))
		}
		ex.check(st, g, "slice", x.Pos(), "slice bounds out of range")
		if ex.pr.nonnilElem(u.Elem()) {
			ex.check(st, mkLe(hi, slLen(s)), "typeinv", x.Pos(), "reslicing past the length")
		}
		return ex.set(fr, st, x, mkSlice(slRef(s), mkAdd(slOff(s), lo), mkSub(hi, lo), mkSub(lim, lo)))
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		n := mkI(at.Len())
		if hi == nil {
			hi = n
		}
		lim := n
		if mx != nil {
			lim = mx
		}
		ex.check(st, mkAnd(mkLe(mkI(0), lo), mkLe(lo, hi), mkLe(hi, lim), mkLe(lim, n)), "slice", x.Pos(), "slice bounds out of range")
		p, ok := v.(*Term)
		if !ok {
			unsup("slicing a non heap array")
		}
		return ex.set(fr, st, x, mkSlice(p, lo, mkSub(hi, lo), mkSub(lim, lo)))
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func qsub(s, lo, hi *Term) *Term {
	if lo == mkI(0) && hi == qlen(s) {
		return s
	}
	if s.op == "lit" && isInt(lo) && isInt(hi) {
		v := litVal[s]
		a, b := lo.iv.Int64(), hi.iv.Int64()
		if a >= 0 && a <= b && b <= int64(len(v)) {
			return mkLit(v[a:b])
		}
	}
	if s.op == "app" && s.name == "mkseq" {
		return mkseq(s.args[0], mkAdd(s.args[1], lo), mkSub(hi, lo))
	}
	return mkApp("qsub", sSeq, s, lo, hi)
}

// mkseq: the sequence arr[off .. off+n)
func mkseq(arr, off, n *Term) *Term {
	if n == mkI(0) {
		return mkLit("")
	}
	if arr.op == "app" && arr.name == "seqarr" && off == mkI(0) && n == qlen(arr.args[0]) {
		return arr.args[0]
	}
	if isInt(n) && n.iv.IsInt64() && n.iv.Int64() <= 8 && isInt(off) {
		// all constant?
		var sb strings.Builder
		ok := true
		for i := int64(0); i < n.iv.Int64(); i++ {
			e := mkSelect(arr, mkAdd(off, mkI(i)), sInt)
			if !isInt(e) || e.iv.Sign() < 0 || e.iv.Cmp(big.NewInt(255)) > 0 {
				ok = false
				break
			}
			sb.WriteByte(byte(e.iv.Int64()))
		}
		if ok {
			return mkLit(sb.String())
		}
	}
	return mkApp("mkseq", sSeq, arr, off, n)
}

func seqarr(s *Term) *Term {
	if s.op == "app" && s.name == "mkseq" && s.args[1] == mkI(0) {
		return s.args[0]
	}
	return mkApp("seqarr", arrSort(sInt), s)
}

func init() {
	s, k := freshBound("s", sSeq), freshBound("k", sInt)
	sa := mkApp("seqarr", arrSort(sInt), s)
	e := mkSelect(sa, k, sInt)
	addAxiom("seqarr.at", mkForall([]*Term{s, k}, mkEq(e, mkApp("qat", sInt, s, k)), []*Term{e}), "seqarr")
	x, y, z := freshBound("x", sSeq), freshBound("y", sSeq), freshBound("z", sSeq)
	lt := func(a, b *Term) *Term { return mkApp("qlt", sBool, a, b) }
	addAxiom("qlt.irrefl", mkForall([]*Term{x}, mkNot(lt(x, x)), []*Term{lt(x, x)}), "qlt")
	addAxiom("qlt.asym", mkForall([]*Term{x, y}, mkNot(mkAnd(lt(x, y), lt(y, x))), []*Term{lt(x, y)}), "qlt")
	addAxiom("qlt.total", mkForall([]*Term{x, y}, mkOr(lt(x, y), lt(y, x), tb.mk("=", "Bool", "", x, y)), []*Term{lt(x, y)}), "qlt")
	_ = z
	f, g := freshBound("f", sF64), freshBound("g", sF64)
	flt := func(a, b *Term) *Term { return mkApp("flt", sBool, a, b) }
	fle := func(a, b *Term) *Term { return mkApp("fle", sBool, a, b) }
	addAxiom("flt.irrefl", mkForall([]*Term{f}, mkNot(flt(f, f)), []*Term{flt(f, f)}), "flt")
	addAxiom("flt.asym", mkForall([]*Term{f, g}, mkNot(mkAnd(flt(f, g), flt(g, f))), []*Term{flt(f, g)}), "flt")
	addAxiom("flt.fle", mkForall([]*Term{f, g}, mkImp(flt(f, g), mkAnd(fle(f, g), mkNot(fle(g, f)))), []*Term{flt(f, g)}), "flt")
	addAxiom("fle.anti", mkForall([]*Term{f, g}, mkImp(fle(f, g), mkNot(flt(g, f))), []*Term{fle(f, g)}), "fle")
}

func (ex *Exec) convert(fr *Frame, x *ssa.Convert, st *State) []*State {
	v := ex.val(fr, st, x.X)
	from, to := under(x.X.Type()), under(x.Type())
	fs, ts := sortOf(x.X.Type()), sortOf(x.Type())
	switch {
	case fs == sInt && ts == sInt:
		return ex.set(fr, st, x, ex.wrapTo(st, v.(*Term), x.Type()))
	case fs == sInt && ts == sF64:
		t := v.(*Term)
		if isInt(t) && t.iv.IsInt64() {
			return ex.set(fr, st, x, mkFloat(float64(t.iv.Int64())))
		}
		return ex.set(fr, st, x, mkApp("i2f", sF64, t))
	case fs == sF64 && ts == sF64:
		if b, ok := to.(*types.Basic); ok && b.Kind() == types.Float32 {
			return ex.set(fr, st, x, mkApp("f32", sF64, v.(*Term)))
		}
		return ex.set(fr, st, x, v)
	case fs == sF64 && ts == sInt:
		t := v.(*Term)
		r := mkApp("f2i$"+sanitize(typeKey(x.Type())), sInt, t)
		rangeBy(r, x.Type())
		return ex.set(fr, st, x, r)
	case fs == sSlice && ts == sSeq:
		s := v.(*Term)
		el := under(from.(*types.Slice).Elem()).(*types.Basic)
		seq := ex.seqOf(st, s, from.(*types.Slice).Elem())
		if el.Kind() == types.Uint8 || el.Kind() == types.Byte {
			return ex.set(fr, st, x, seq)
		}
		return ex.set(fr, st, x, mkApp("runestr", sSeq, seq))
	case fs == sSeq && ts == sSlice:
		s := v.(*Term)
		elT := to.(*types.Slice).Elem()
		el := under(elT).(*types.Basic)
		if el.Kind() != types.Uint8 {
			s = mkApp("str2runes", sSeq, s)
		}
		return ex.set(fr, st, x, ex.sliceFromSeq(st, s, elT))
	case fs == sInt && ts == sSeq:
		return ex.set(fr, st, x, mkApp("runestr1", sSeq, v.(*Term)))
	case fs == sSeq && ts == sSeq:
		return ex.set(fr, st, x, v)
	}
	unsup("convert %s -> %s", x.X.Type(), x.Type())
	return nil
}

// seqOf: abstract sequence held by a slice
func (ex *Exec) seqOf(st *State, s *Term, el types.Type) *Term {
	return mkseq(ex.arrAt(st, slRef(s), el), slOff(s), slLen(s))
}

func (ex *Exec) sliceFromSeq(st *State, q *Term, el types.Type) *Term {
	r := ex.newObj(st)
	ex.setArr(st, r, el, seqarr(q))
	if ex.pure > 0 {
		return mkSlice(r, mkI(0), qlen(q), qlen(q))
	}
	c := freshVar("cap", sInt)
	withRange(c, big0, maxLen)
	st.assume(mkLe(qlen(q), c))
	return mkSlice(r, mkI(0), qlen(q), c)
}

func (ex *Exec) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State) []*State {
	i := ex.val(fr, st, x.X).(*Term)
	t := x.AssertedType
	var ok *Term
	var v Val
	if types.IsInterface(t) {
		ok = ex.implements(st, i, t)
		v = i
	} else {
		ok = ifaceIs(i, t)
	}
	if x.CommaOk {
		d := st.decide(ok)
		if types.IsInterface(t) {
			return ex.set(fr, st, x, &TupleV{[]Val{mkIte(ok, i, tINil), ok}})
		}
		if d > 0 {
			val := ex.ifaceVal(st, i, t)
			return ex.set(fr, st, x, &TupleV{[]Val{val, tTrue}})
		}
		if d < 0 {
			return ex.set(fr, st, x, &TupleV{[]Val{zeroOf(t), tFals}})
		}
		// fork: keeps values precise
		s2 := st.clone()
		var out []*State
		if st.assume(ok) {
			val := ex.ifaceVal(st, i, t)
			out = append(out, ex.set(fr, st, x, &TupleV{[]Val{val, tTrue}})...)
		}
		if s2.assume(mkNot(ok)) {
			out = append(out, ex.set(fr, s2, x, &TupleV{[]Val{zeroOf(t), tFals}})...)
		}
		return out
	}
	ex.check(st, ok, "typeassert", x.Pos(), "type assertion to "+t.String())
	if st.dead {
		return nil
	}
	if v == nil {
		v = ex.ifaceVal(st, i, t)
	}
	return ex.set(fr, st, x, v)
}

func (ex *Exec) ifaceVal(st *State, i *Term, t types.Type) Val {
	v := ifaceGet(i, t)
	if tv, ok := v.(*Term); ok {
		if tv.op == "app" && strings.HasPrefix(tv.name, "vint$") {
			// a well-formed interface value holds an integer in the range of its type
			st.assume(mkEq(tv, sel("vint", i)))
		}
		ex.wf(st, tv, t, st.ctr)
	} else if sv, ok := v.(*StructV); ok {
		ex.wf(st, sv, t, st.ctr)
	}
	return v
}

func (ex *Exec) implements(st *State, i *Term, t types.Type) *Term {
	it := under(t).(*types.Interface)
	if isCtor(i) {
		if i == tINil {
			return tFals
		}
		if isInt(i.args[0]) {
			ct := tagTypes[i.args[0].iv.Int64()]
			return mkBool(types.Implements(ct, it))
		}
	}
	if it.NumMethods() == 0 {
		return mkNot(mkEq(i, tINil))
	}
	// scalar builtin kinds with unnamed types implement nothing; otherwise unknown
	return mkAnd(mkNot(mkEq(i, tINil)), mkApp("impl$"+sanitize(typeKey(t)), sBool, i))
}

func (ex *Exec) next(fr *Frame, x *ssa.Next, st *State) []*State {
	it := ex.val(fr, st, x.Iter).(*IterV)
	pos := st.locals[it.loc].(*Term)
	if it.str != nil {
		withRange(pos, nil, nil)
		ok := mkLt(pos, qlen(it.str))
		s2 := st.clone()
		var out []*State
		if s2.assume(mkNot(ok)) {
			out = append(out, ex.set(fr, s2, x, &TupleV{[]Val{tFals, mkI(0), mkI(0)}})...)
		}
		if st.assume(ok) {
			b := byteAt(it.str, pos)
			r := freshVar("rune", sInt)
			withRange(r, big0, big.NewInt(0x10FFFF))
			adv := freshVar("adv", sInt)
			withRange(adv, big1, big.NewInt(4))
			st.assume(mkIte(mkLt(b, mkI(128)), mkAnd(mkEq(r, b), mkEq(adv, mkI(1))), mkLe(mkI(128), r)))
			st.assume(mkLe(mkAdd(pos, adv), qlen(it.str)))
			st.locals[it.loc] = mkAdd(pos, adv)
			out = append(out, ex.set(fr, st, x, &TupleV{[]Val{tTrue, pos, r}})...)
		}
		return out
	}
	// map: arbitrary element of the domain, arbitrary termination (bounded by the map length)
	mt := it.mt
	okv := freshVar("more", sBool)
	k := ex.freshVal(st, "mapkey", mt.Key())
	s2 := st.clone()
	var out []*State
	if s2.assume(mkNot(okv)) {
		out = append(out, ex.set(fr, s2, x, &TupleV{[]Val{tFals, zeroOf(mt.Key()), zeroOf(mt.Elem())}})...)
	}
	if st.assume(okv) {
		v, dom := ex.mapLookup(st, mt, it.m, toTerm(k, mt.Key()))
		st.assume(dom)
		st.locals[it.loc] = mkAdd(pos, mkI(1))
		out = append(out, ex.set(fr, st, x, &TupleV{[]Val{tTrue, k, v}})...)
	}
	return out
}

func sortedStrs(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// capturedOnce: binding i of the closure is a variable that is not assigned after the closure is made
func capturedOnce(mc *ssa.MakeClosure, i int) bool {
	al, ok := mc.Bindings[i].(*ssa.Alloc)
	if !ok {
		return false
	}
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !reach[s] {
				reach[s] = true
				walk(s)
			}
		}
	}
	walk(mc.Block())
	at := func(in ssa.Instruction) int {
		for k, x := range in.Block().Instrs {
			if x == in {
				return k
			}
		}
		return -1
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Val == ssa.Value(al) {
				return false
			}
			if reach[y.Block()] || y.Block() == mc.Block() && at(y) > at(mc) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// the closures themselves must not assign it
			fn := y.Fn.(*ssa.Function)
			for k, b := range y.Bindings {
				if b != ssa.Value(al) {
					continue
				}
				for _, q := range *fn.FreeVars[k].Referrers() {
					switch q.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}
