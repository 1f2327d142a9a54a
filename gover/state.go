package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	parent *PC
	t      *Term
	n      int
}

type regKey struct {
	fr *Frame
	v  ssa.Value
}

type Frame struct {
	fn       *ssa.Function
	id       int
	parent   *Frame
	depth    int
	locs     map[*ssa.Alloc]*Loc
	binds    map[*ssa.FreeVar]Val
	specRoot bool   // a real function evaluated in a specification runs below this frame
	entry    *State // state at entry (for old())
	params   map[string]Val
	ptypes   map[string]types.Type
	key      string // call-path key (stable across re-executions)
	defers   []deferred
}

type deferred struct {
	call *ssa.Defer
	args []Val
	fnv  Val
}

type State struct {
	regs   map[regKey]Val
	locals map[*Loc]Val
	heap   map[string]*Term
	pc     *PC
	facts  map[*Term]bool
	bounds map[*Term][2]*big.Int
	ctr    *Term
	ghosts map[string]*Term
	snaps  map[string]*State // loop-header snapshots by loop key
	defers []deferred
	dead   bool
	trace  string
}

func newState() *State {
	return &State{regs: map[regKey]Val{}, locals: map[*Loc]Val{}, heap: map[string]*Term{}, facts: map[*Term]bool{},
		bounds: map[*Term][2]*big.Int{}, ghosts: map[string]*Term{}, snaps: map[string]*State{}}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, ctr: s.ctr, defers: s.defers, dead: s.dead, trace: s.trace}
	n.regs = make(map[regKey]Val, len(s.regs)+8)
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.locals = make(map[*Loc]Val, len(s.locals)+8)
	for k, v := range s.locals {
		n.locals[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.facts = make(map[*Term]bool, len(s.facts)+8)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.bounds = make(map[*Term][2]*big.Int, len(s.bounds)+8)
	for k, v := range s.bounds {
		n.bounds[k] = v
	}
	n.ghosts = make(map[string]*Term, len(s.ghosts))
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	n.snaps = make(map[string]*State, len(s.snaps))
	for k, v := range s.snaps {
		n.snaps[k] = v
	}
	return n
}

func (s *State) pcTerms() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.parent {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) pcLen() int {
	if s.pc == nil {
		return 0
	}
	return s.pc.n
}

// interval of a term under the state's known bounds
func (s *State) interval(t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	if b, ok := s.bounds[t]; ok {
		if b[0] != nil && (lo == nil || b[0].Cmp(lo) > 0) {
			lo = b[0]
		}
		if b[1] != nil && (hi == nil || b[1].Cmp(hi) < 0) {
			hi = b[1]
		}
	}
	switch t.op {
	case "+":
		l, h := big0, big0
		for _, a := range t.args {
			al, ah := s.interval(a)
			l = addI(l, al)
			h = addI(h, ah)
		}
		lo, hi = tight(lo, hi, l, h)
	case "*":
		if isInt(t.args[0]) {
			al, ah := s.interval(t.args[1])
			k := t.args[0].iv
			if k.Sign() < 0 {
				al, ah = ah, al
			}
			var l, h *big.Int
			if al != nil {
				l = new(big.Int).Mul(al, k)
			}
			if ah != nil {
				h = new(big.Int).Mul(ah, k)
			}
			lo, hi = tight(lo, hi, l, h)
		}
	case "div":
		if isInt(t.args[1]) && t.args[1].iv.Sign() > 0 {
			al, ah := s.interval(t.args[0])
			var l, h *big.Int
			if al != nil {
				l = new(big.Int)
				l.DivMod(al, t.args[1].iv, new(big.Int))
			}
			if ah != nil {
				h = new(big.Int)
				h.DivMod(ah, t.args[1].iv, new(big.Int))
			}
			lo, hi = tight(lo, hi, l, h)
		}
	case "ite":
		if t.sort == sInt {
			al, ah := s.interval(t.args[1])
			bl, bh := s.interval(t.args[2])
			var l, h *big.Int
			if al != nil && bl != nil {
				l = al
				if bl.Cmp(l) < 0 {
					l = bl
				}
			}
			if ah != nil && bh != nil {
				h = ah
				if bh.Cmp(h) > 0 {
					h = bh
				}
			}
			lo, hi = tight(lo, hi, l, h)
		}
	}
	return
}

func tight(lo, hi, l, h *big.Int) (*big.Int, *big.Int) {
	if l != nil && (lo == nil || l.Cmp(lo) > 0) {
		lo = l
	}
	if h != nil && (hi == nil || h.Cmp(hi) < 0) {
		hi = h
	}
	return lo, hi
}

// decide cheaply: 1 true, -1 false, 0 unknown
func (s *State) decide(t *Term) int {
	switch t.op {
	case "true":
		return 1
	case "false":
		return -1
	}
	if s.facts[t] {
		return 1
	}
	if s.facts[mkNot(t)] {
		return -1
	}
	switch t.op {
	case "not":
		return -s.decide(t.args[0])
	case "and":
		r := 1
		for _, a := range t.args {
			d := s.decide(a)
			if d < 0 {
				return -1
			}
			if d == 0 {
				r = 0
			}
		}
		return r
	case "or":
		r := -1
		for _, a := range t.args {
			d := s.decide(a)
			if d > 0 {
				return 1
			}
			if d == 0 {
				r = 0
			}
		}
		return r
	case "=>":
		a, b := s.decide(t.args[0]), s.decide(t.args[1])
		if a < 0 || b > 0 {
			return 1
		}
		if a > 0 && b < 0 {
			return -1
		}
	case "<=":
		_, ah := s.interval(t.args[0])
		al, _ := s.interval(t.args[0])
		bl, bh := s.interval(t.args[1])
		if ah != nil && bl != nil && ah.Cmp(bl) <= 0 {
			return 1
		}
		if al != nil && bh != nil && al.Cmp(bh) > 0 {
			return -1
		}
	case "=":
		if t.args[0].sort == sInt {
			al, ah := s.interval(t.args[0])
			bl, bh := s.interval(t.args[1])
			if al != nil && bh != nil && al.Cmp(bh) > 0 {
				return -1
			}
			if ah != nil && bl != nil && ah.Cmp(bl) < 0 {
				return -1
			}
			if al != nil && ah != nil && bl != nil && bh != nil && al.Cmp(ah) == 0 && bl.Cmp(bh) == 0 && al.Cmp(bl) == 0 {
				return 1
			}
		}
	}
	return 0
}

// assume adds a fact; returns false when the state becomes contradictory (cheaply detected).
func (s *State) assume(t *Term) bool {
	if s.dead {
		return false
	}
	switch t.op {
	case "true":
		return true
	case "false":
		s.dead = true
		return false
	case "and":
		for _, a := range t.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if s.facts[t] {
		return true
	}
	if d := s.decide(t); d < 0 {
		s.dead = true
		return false
	} else if d > 0 && !t.bound && t.op != "=" {
		// still record: cheap intervals may come from facts already in pc
		return true
	}
	if t.op == "=>" && s.decide(t.args[0]) > 0 {
		return s.assume(t.args[1])
	}
	s.facts[t] = true
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{s.pc, t, n}
	switch t.op {
	case "<=":
		s.learn(t.args[0], t.args[1])
	case "=":
		if t.args[0].sort == sInt {
			s.learn(t.args[0], t.args[1])
			s.learn(t.args[1], t.args[0])
		}
	}
	return true
}

func (s *State) learn(a, b *Term) { // a <= b
	l := &lin{c: big.NewInt(0)}
	l.addTerm(b, big1)
	l.addTerm(a, big.NewInt(-1)) // l >= 0
	for i, t := range l.ts {
		ci := l.cs[i]
		if ci.Sign() == 0 {
			continue
		}
		rest := new(big.Int).Set(l.c) // max of the rest
		ok := true
		for j, u := range l.ts {
			if j == i || l.cs[j].Sign() == 0 {
				continue
			}
			ul, uh := s.interval(u)
			m := uh
			if l.cs[j].Sign() < 0 {
				m = ul
			}
			if m == nil {
				ok = false
				break
			}
			rest.Add(rest, new(big.Int).Mul(m, l.cs[j]))
		}
		if !ok {
			continue
		}
		bd := s.bounds[t]
		if ci.Sign() > 0 { // t >= ceil(-rest/ci)
			q := new(big.Int)
			q.DivMod(rest, ci, new(big.Int)) // floor(rest/ci)
			q.Neg(q)
			if bd[0] == nil || q.Cmp(bd[0]) > 0 {
				bd[0] = q
				s.bounds[t] = bd
			}
		} else {
			q := new(big.Int)
			q.DivMod(rest, new(big.Int).Neg(ci), new(big.Int))
			if bd[1] == nil || q.Cmp(bd[1]) < 0 {
				bd[1] = q
				s.bounds[t] = bd
			}
		}
	}
}

// ---- heaps ----

var heapBirth = map[*Term]*Term{} // heap variable -> allocation counter when it was current

func (ex *Exec) heapGet(s *State, key, sort string) *Term {
	if h, ok := s.heap[key]; ok {
		return h
	}
	h := ex.heap0[key]
	if h == nil {
		h = mkVar(sanitize(key)+"@0", sort)
		ex.heap0[key] = h
		heapBirth[h] = ex.ctr0
	}
	s.heap[key] = h
	return h
}

func heapRef(elem string) string { return heapSort(elem) }

func ridTerm(r *Term) *Term {
	switch r.op {
	case "ctor:obj":
		return r.args[0]
	case "ctor:sub", "ctor:elm":
		return ridTerm(r.args[0])
	case "ctor:null":
		return mkI(-1000000)
	case "ite":
		return mkIte(r.args[0], ridTerm(r.args[1]), ridTerm(r.args[2]))
	}
	return mkApp("rid", sInt, r)
}

func init() {
	n := freshBound("n", sInt)
	b, i := freshBound("b", sRef), freshBound("i", sInt)
	o := mkCtor("obj", sRef, n)
	addAxiom("rid.obj", mkForall([]*Term{n}, mkEq(mkApp("rid", sInt, o), n), []*Term{mkApp("rid", sInt, o)}), "rid")
	sb := mkCtor("sub", sRef, b, i)
	addAxiom("rid.sub", mkForall([]*Term{b, i}, mkEq(mkApp("rid", sInt, sb), mkApp("rid", sInt, b)), []*Term{mkApp("rid", sInt, sb)}), "rid")
	addAxiom("rid.null", mkEq(mkApp("rid", sInt, tNull), mkI(-1000000)), "rid")
}

// stripStores returns the base of a store chain
func stripStores(t *Term) *Term {
	for t.op == "store" {
		t = t.args[0]
	}
	return t
}

// birthOf: allocation counter bounding refs found in (a select from) heap term h
func birthOf(h *Term) *Term {
	h = stripStores(h)
	return heapBirth[h]
}

// wf adds the facts every well-typed value satisfies.
func (ex *Exec) wf(s *State, v Val, t types.Type, bound *Term) {
	switch x := v.(type) {
	case *StructV:
		st := under(x.typ).(*types.Struct)
		for i := range x.f {
			ex.wf(s, x.f[i], st.Field(i).Type(), bound)
		}
	case *Term:
		if x.bound {
			return
		}
		switch x.sort {
		case sRef:
			if x.op == "ctor:null" || x.op == "ctor:obj" || x.op == "ctor:sub" {
				return
			}
			wfFact(s, mkLt(ridTerm(x), bound))
		case sSlice:
			if isCtor(x) {
				return
			}
			rangeSlice(x)
			wfFact(s, mkLe(slLen(x), slCap(x)))
			wfFact(s, mkLt(ridTerm(slRef(x)), bound))
			wfFact(s, mkImp(mkEq(slRef(x), tNull), mkEq(slCap(x), mkI(0))))
		case sInt:
			if lo, hi, ok := intRange(t); ok {
				if !ranged[x] {
					rangeBy(x, t)
				}
				if l, h := s.interval(x); l == nil || h == nil || l.Cmp(lo) < 0 || h.Cmp(hi) > 0 {
					s.assume(mkAnd(mkLe(mkInt(lo), x), mkLe(x, mkInt(hi))))
				}
			}
		case sIface:
			if !isCtor(x) {
				wfFact(s, mkLt(ridTerm(sel("vref", x)), bound))
				wfFact(s, mkLt(ridTerm(slRef(sel("vslice", x))), bound))
			}
		}
	}
}

// wfFacts: what holds of every value; never part of the condition of a path
var wfFacts = map[*Term]bool{}

func wfFact(s *State, t *Term) {
	wfFacts[t] = true
	s.assume(t)
}

func rangeSlice(x *Term) { slOff(x); slLen(x); slCap(x) }

func (ex *Exec) freshVal(s *State, name string, t types.Type) Val {
	if isStruct(t) {
		st := under(t).(*types.Struct)
		r := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			r.f = append(r.f, ex.freshVal(s, name+"."+st.Field(i).Name(), st.Field(i).Type()))
		}
		return r
	}
	if tp, ok := t.(*types.Tuple); ok {
		r := &TupleV{}
		for i := 0; i < tp.Len(); i++ {
			r.vs = append(r.vs, ex.freshVal(s, fmt.Sprintf("%s.%d", name, i), tp.At(i).Type()))
		}
		return r
	}
	x := freshVar(name, sortOf(t))
	rangeBy(x, t)
	if s != nil {
		ex.wf(s, x, t, s.ctr)
		heapBirth[x] = s.ctr
	}
	return x
}

// bornBefore: the allocation counter all references inside t are below, when
// t is a fresh value or was read from an unmodified heap (nil: unknown)
func bornBefore(t *Term) *Term {
	for {
		switch {
		case t.op == "select":
			t = t.args[0]
		case strings.HasPrefix(t.op, "sel:"):
			t = t.args[0]
		default:
			return heapBirth[t]
		}
	}
}

// refsApart: a is an object allocated after everything b can refer to
func refsApart(a, b *Term) bool {
	r := a
	for r.op == "ctor:sub" || r.op == "ctor:elm" {
		r = r.args[0]
	}
	if r.op != "ctor:obj" {
		return false
	}
	bb := bornBefore(b)
	return bb != nil && mkLe(bb, r.args[0]) == tTrue
}

func (s *State) sortedHeapKeys() []string {
	var ks []string
	for k := range s.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- merging ----

func mergeVal(g *Term, a, b Val) (Val, bool) {
	if a == b {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return mkIte(g, x, y), true
		}
		if y, ok := b.(*FnV); ok && x.sort == sFn {
			return mkIte(g, x, y.asTerm()), true
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		r := &StructV{typ: x.typ}
		for i := range x.f {
			m, ok := mergeVal(g, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			r.f = append(r.f, m)
		}
		return r, true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.vs) != len(y.vs) {
			return nil, false
		}
		r := &TupleV{}
		for i := range x.vs {
			m, ok := mergeVal(g, x.vs[i], y.vs[i])
			if !ok {
				return nil, false
			}
			r.vs = append(r.vs, m)
		}
		return r, true
	case *FnV:
		switch y := b.(type) {
		case *FnV:
			if x.fn == y.fn && len(x.binds) == 0 && len(y.binds) == 0 {
				return x, true
			}
			return mkIte(g, x.asTerm(), y.asTerm()), true
		case *Term:
			return mkIte(g, x.asTerm(), y), true
		}
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.kind != y.kind || x.loc != y.loc || x.heap != y.heap || len(x.path) != len(y.path) {
			return nil, false
		}
		r := *x
		r.path = append([]pstep(nil), x.path...)
		if x.ref != nil {
			r.ref = mkIte(g, x.ref, y.ref)
		}
		if x.idx != nil {
			r.idx = mkIte(g, x.idx, y.idx)
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field {
				return nil, false
			}
			if x.path[i].idx != nil {
				r.path[i].idx = mkIte(g, x.path[i].idx, y.path[i].idx)
			}
		}
		return &r, true
	case *IterV:
		if y, ok := b.(*IterV); ok && x.loc == y.loc && x.m == y.m && x.str == y.str {
			return x, true
		}
	}
	return nil, false
}

// merge2 merges two states of the same program point (nil if impossible).
func (ex *Exec) merge2(a, b *State) *State {
	if a.dead {
		return b
	}
	if b.dead {
		return a
	}
	// common pc prefix
	pa, pb := a.pc, b.pc
	for pa != pb {
		if pa == nil || pb != nil && pb.n > pa.n {
			pb = pb.parent
		} else {
			pa = pa.parent
		}
	}
	common := pa
	var da, db []*Term
	for p := a.pc; p != common; p = p.parent {
		da = append(da, p.t)
	}
	for p := b.pc; p != common; p = p.parent {
		db = append(db, p.t)
	}
	var g *Term
	if ex.pure > 0 {
		g = mkAnd(da...)
	} else {
		g = freshVar("g", sBool)
	}
	m := &State{pc: common, regs: map[regKey]Val{}, locals: map[*Loc]Val{}, heap: map[string]*Term{}, facts: map[*Term]bool{},
		bounds: map[*Term][2]*big.Int{}, ghosts: map[string]*Term{}, snaps: a.snaps, defers: a.defers}
	if len(a.defers) != len(b.defers) {
		return nil
	}
	for t := range a.facts {
		if b.facts[t] {
			m.facts[t] = true
		}
	}
	for t, x := range a.bounds {
		if y, ok := b.bounds[t]; ok {
			var r [2]*big.Int
			if x[0] != nil && y[0] != nil {
				r[0] = x[0]
				if y[0].Cmp(r[0]) < 0 {
					r[0] = y[0]
				}
			}
			if x[1] != nil && y[1] != nil {
				r[1] = x[1]
				if y[1].Cmp(r[1]) > 0 {
					r[1] = y[1]
				}
			}
			m.bounds[t] = r
		}
	}
	for k, x := range a.regs {
		y, ok := b.regs[k]
		if !ok {
			continue // not defined on both paths: cannot be used after the join
		}
		v, ok := mergeVal(g, x, y)
		if !ok {
			return nil
		}
		m.regs[k] = v
	}
	for k, x := range a.locals {
		y, ok := b.locals[k]
		if !ok {
			continue
		}
		v, ok := mergeVal(g, x, y)
		if !ok {
			return nil
		}
		m.locals[k] = v
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		x, okx := a.heap[k]
		y, oky := b.heap[k]
		if !okx {
			x = ex.heapGet(a, k, y.sort)
		}
		if !oky {
			y = ex.heapGet(b, k, x.sort)
		}
		m.heap[k] = mkIte(g, x, y)
		if x != y {
			// stores after the birth of the heap may have put later references into it
			bx, by := heapBirth[x], heapBirth[y]
			if bx == nil {
				bx = a.ctr
			}
			if by == nil {
				by = b.ctr
			}
			heapBirth[m.heap[k]] = mkIte(g, bx, by)
		}
	}
	for k, x := range a.ghosts {
		if y, ok := b.ghosts[k]; ok {
			m.ghosts[k] = mkIte(g, x, y)
		}
	}
	m.ctr = mkIte(g, a.ctr, b.ctr)
	add := func(t *Term) {
		m.facts[t] = true
		n := 1
		if m.pc != nil {
			n = m.pc.n + 1
		}
		m.pc = &PC{m.pc, t, n}
	}
	if ex.pure > 0 {
		if t := mkOr(mkAnd(da...), mkAnd(db...)); t != tTrue {
			add(t)
		}
	}
	// named facts stay apart, so that clauses can leave them out
	side := func(c *Term, fs []*Term) {
		var rest []*Term
		for _, t := range fs {
			l := factLabel[t]
			if l == "" {
				rest = append(rest, t)
				continue
			}
			if t = mkImp(c, t); t != tTrue {
				factLabel[t] = l
				add(t)
			}
		}
		if len(rest) > 0 {
			add(mkImp(c, mkAnd(rest...)))
		}
	}
	if ex.pure == 0 {
		side(g, da)
		side(mkNot(g), db)
	}
	if strings.Compare(a.trace, b.trace) != 0 {
		m.trace = a.trace + "|" + b.trace
		if len(m.trace) > 200 {
			m.trace = m.trace[:200]
		}
	}
	return m
}

// mergeAll greedily merges states.
func (ex *Exec) mergeAll(ss []*State) []*State {
	var live []*State
	for _, s := range ss {
		if s != nil && !s.dead {
			live = append(live, s)
		}
	}
	for len(live) > 1 {
		// balanced pairwise
		var next []*State
		merged := false
		for i := 0; i < len(live); i += 2 {
			if i+1 < len(live) {
				if m := ex.merge2(live[i], live[i+1]); m != nil {
					next = append(next, m)
					merged = true
					continue
				}
				next = append(next, live[i], live[i+1])
			} else {
				next = append(next, live[i])
			}
		}
		live = next
		if !merged {
			break
		}
	}
	return live
}
