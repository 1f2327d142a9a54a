package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT terms.  Integers are mathematical; every machine
// operation wraps explicitly (see wrapTo).
type Term struct {
	id    int
	op    string // "var","int","true","false","app:..." or an SMT operator
	args  []*Term
	sort  string
	iv    *big.Int // op == "int"
	name  string   // op == "var" (free constant), "bvar" (bound variable)
	lo    *big.Int // interval known to hold in every intended model (may be nil)
	hi    *big.Int
	bound bool    // contains a bound variable
	bv    []*Term // quantifier variables
	pats  [][]*Term
}

type TB struct {
	tab   map[string]*Term
	n     int
	fresh int
}

var tb = &TB{tab: map[string]*Term{}}

func (b *TB) mk(op, sort, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.n++
	t := &Term{id: b.n, op: op, sort: sort, name: name, args: args}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	if op == "bvar" {
		t.bound = true
	}
	b.tab[k] = t
	return t
}

var (
	big0  = big.NewInt(0)
	big1  = big.NewInt(1)
	tTrue = tb.mk("true", "Bool", "")
	tFals = tb.mk("false", "Bool", "")
)

func mkInt(v *big.Int) *Term {
	t := tb.mk("int", "Int", v.String())
	if t.iv == nil {
		t.iv = new(big.Int).Set(v)
		t.lo, t.hi = t.iv, t.iv
	}
	return t
}
func mkI(v int64) *Term { return mkInt(big.NewInt(v)) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFals
}

func mkVar(name, sort string) *Term { return tb.mk("var", sort, name) }

func freshVar(prefix, sort string) *Term {
	tb.fresh++
	return mkVar(fmt.Sprintf("%s!%d", sanitize(prefix), tb.fresh), sort)
}

func freshBound(prefix, sort string) *Term {
	tb.fresh++
	return tb.mk("bvar", sort, fmt.Sprintf("%s?%d", sanitize(prefix), tb.fresh))
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// withRange attaches an interval to a term (sound only for terms whose value is in range in all
// intended models, e.g. loads of typed memory).
// ranged: terms whose own range is attached. A term is shared by every path, so its
// range must hold on all of them; a narrower one met later is a fact about a path.
var ranged = map[*Term]bool{}

func withRange(t *Term, lo, hi *big.Int) *Term {
	switch t.op {
	case "ite":
		if c := t.args[0]; !strings.HasPrefix(c.name, "g!") {
			return t // unlike a choice between merged paths
		}
	case "int", "+", "*", "div", "mod":
		// the range of a computed term follows from its parts; a narrower one (the length of a
		// subslice, say) holds only on the path that computes it
		return t
	}
	if lo != nil || hi != nil {
		ranged[t] = true
	}
	if lo != nil && (t.lo == nil || t.lo.Cmp(lo) < 0) {
		t.lo = lo
	}
	if hi != nil && (t.hi == nil || t.hi.Cmp(hi) > 0) {
		t.hi = hi
	}
	return t
}

func isInt(t *Term) bool { return t.op == "int" }

func addI(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}
func subI(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Sub(a, b)
}

// linear normalisation: sum of (coef*term)+const
type lin struct {
	c  *big.Int
	ts []*Term
	cs []*big.Int
}

func (l *lin) addTerm(t *Term, k *big.Int) {
	if k.Sign() == 0 {
		return
	}
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.iv, k))
		return
	case "+":
		for _, a := range t.args {
			l.addTerm(a, k)
		}
		return
	case "*":
		if isInt(t.args[0]) {
			l.addTerm(t.args[1], new(big.Int).Mul(k, t.args[0].iv))
			return
		}
	}
	for i, x := range l.ts {
		if x == t {
			l.cs[i] = new(big.Int).Add(l.cs[i], k)
			return
		}
	}
	l.ts = append(l.ts, t)
	l.cs = append(l.cs, new(big.Int).Set(k))
}

func (l *lin) term() *Term {
	var ts []*Term
	for i, t := range l.ts {
		if l.cs[i].Sign() == 0 {
			continue
		}
		if l.cs[i].Cmp(big1) == 0 {
			ts = append(ts, t)
		} else {
			m := tb.mk("*", "Int", "", mkInt(l.cs[i]), t)
			if m.lo == nil && m.hi == nil {
				a, b := t.lo, t.hi
				if l.cs[i].Sign() < 0 {
					a, b = b, a
				}
				if a != nil {
					m.lo = new(big.Int).Mul(a, l.cs[i])
				}
				if b != nil {
					m.hi = new(big.Int).Mul(b, l.cs[i])
				}
			}
			ts = append(ts, m)
		}
	}
	// canonical order by id
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
	if l.c.Sign() != 0 || len(ts) == 0 {
		ts = append(ts, mkInt(l.c))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	t := tb.mk("+", "Int", "", ts...)
	if t.lo == nil && t.hi == nil {
		lo, hi := big0, big0
		for _, x := range ts {
			lo = addI(lo, x.lo)
			hi = addI(hi, x.hi)
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

func mkAdd(a, b *Term) *Term {
	l := &lin{c: big.NewInt(0)}
	l.addTerm(a, big1)
	l.addTerm(b, big1)
	return l.term()
}
func mkSub(a, b *Term) *Term {
	l := &lin{c: big.NewInt(0)}
	l.addTerm(a, big1)
	l.addTerm(b, big.NewInt(-1))
	return l.term()
}
func mkNeg(a *Term) *Term { return mkSub(mkI(0), a) }
func mkMul(a, b *Term) *Term {
	if isInt(b) && !isInt(a) {
		a, b = b, a
	}
	if isInt(a) {
		l := &lin{c: big.NewInt(0)}
		l.addTerm(b, a.iv)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := tb.mk("*", "Int", "", a, b)
	if t.lo == nil && t.hi == nil && a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		var lo, hi *big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

// Euclidean div / mod by a positive constant or general term
func mkDiv(a, b *Term) *Term {
	if isInt(b) && b.iv.Sign() > 0 {
		if isInt(a) {
			q := new(big.Int)
			m := new(big.Int)
			q.DivMod(a.iv, b.iv, m)
			return mkInt(q)
		}
		if b.iv.Cmp(big1) == 0 {
			return a
		}
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(b.iv) < 0 {
			return mkI(0)
		}
		// (k*x + c) div b when b | k for every coefficient
		if t := divLin(a, b.iv); t != nil {
			return t
		}
		t := tb.mk("div", "Int", "", a, b)
		if t.lo == nil && a.lo != nil {
			q := new(big.Int)
			q.DivMod(a.lo, b.iv, new(big.Int))
			t.lo = q
		}
		if t.hi == nil && a.hi != nil {
			q := new(big.Int)
			q.DivMod(a.hi, b.iv, new(big.Int))
			t.hi = q
		}
		return t
	}
	return tb.mk("div", "Int", "", a, b)
}

func divLin(a *Term, b *big.Int) *Term {
	l := &lin{c: big.NewInt(0)}
	l.addTerm(a, big1)
	q := &lin{c: big.NewInt(0)}
	for i, t := range l.ts {
		m := new(big.Int)
		d := new(big.Int)
		d.DivMod(l.cs[i], b, m)
		if m.Sign() != 0 {
			return nil
		}
		q.addTerm(t, d)
	}
	d := new(big.Int)
	d.DivMod(l.c, b, new(big.Int))
	q.c.Add(q.c, d)
	return q.term()
}

func mkMod(a, b *Term) *Term {
	if isInt(b) && b.iv.Sign() > 0 {
		if isInt(a) {
			m := new(big.Int)
			new(big.Int).DivMod(a.iv, b.iv, m)
			return mkInt(m)
		}
		if b.iv.Cmp(big1) == 0 {
			return mkI(0)
		}
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(b.iv) < 0 {
			return a
		}
		// drop multiples of b
		l := &lin{c: big.NewInt(0)}
		l.addTerm(a, big1)
		red := &lin{c: big.NewInt(0)}
		ch := false
		for i, t := range l.ts {
			m := new(big.Int)
			new(big.Int).DivMod(l.cs[i], b.iv, m)
			if m.Sign() == 0 {
				ch = true
				continue
			}
			red.addTerm(t, l.cs[i])
		}
		if ch {
			m := new(big.Int)
			new(big.Int).DivMod(l.c, b.iv, m)
			red.c.Add(red.c, m)
			return mkMod(red.term(), b)
		}
		t := tb.mk("mod", "Int", "", a, b)
		if t.lo == nil {
			t.lo = big0
			t.hi = new(big.Int).Sub(b.iv, big1)
		}
		return t
	}
	return tb.mk("mod", "Int", "", a, b)
}

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFals
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "<=":
		return mkLe(mkAdd(a.args[1], mkI(1)), a.args[0])
	}
	return tb.mk("not", "Bool", "", a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tTrue || seen[t] {
			return true
		}
		if t == tFals {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFals
		}
	}
	for _, t := range out {
		if seen[mkNotNoCreate(t)] {
			return tFals
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return tb.mk("and", "Bool", "", out...)
}

func mkNotNoCreate(t *Term) *Term {
	if t.op == "not" {
		return t.args[0]
	}
	return mkNot(t)
}

func mkOr(as ...*Term) *Term {
	var ns []*Term
	for _, a := range as {
		ns = append(ns, mkNot(a))
	}
	n := mkAnd(ns...)
	if n == tFals {
		return tTrue
	}
	if n == tTrue {
		return tFals
	}
	if n.op == "and" {
		var os []*Term
		for _, x := range n.args {
			os = append(os, mkNot(x))
		}
		return tb.mk("or", "Bool", "", os...)
	}
	return mkNot(n)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFals || b == tTrue {
		return tTrue
	}
	if b == tFals {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	return tb.mk("=>", "Bool", "", a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFals {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFals {
			return c
		}
		if a == tFals && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if b == tFals {
			return mkAnd(c, a)
		}
		if a == tFals {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
	}
	t := tb.mk("ite", a.sort, "", c, a, b)
	if a.sort == "Int" && t.lo == nil && t.hi == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				t.hi = b.hi
			}
		}
	}
	return t
}

// constructors whose equality is decided structurally
var ctorOps = map[string]bool{}

func isCtor(t *Term) bool { return ctorOps[t.op] }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sorts %s vs %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == "Int" {
		d := mkSub(a, b)
		if isInt(d) {
			return mkBool(d.iv.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return tFals
		}
		if isInt(a) {
			a, b = b, a
		}
		// ite(c, k1, k2) == k
		if isInt(b) && a.op == "ite" && isInt(a.args[1]) && isInt(a.args[2]) {
			return mkIte(a.args[0], mkBool(a.args[1].iv.Cmp(b.iv) == 0), mkBool(a.args[2].iv.Cmp(b.iv) == 0))
		}
		if !isInt(b) && a.id > b.id {
			a, b = b, a
		}
		return tb.mk("=", "Bool", "", a, b)
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFals {
			return mkNot(b)
		}
		if b == tFals {
			return mkNot(a)
		}
	}
	if a.sort == "Ref" && (refsApart(a, b) || refsApart(b, a)) {
		return tFals
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return tFals
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	if a.op == "lit" && b.op == "lit" {
		return tFals // distinct string literals (interned)
	}
	if a.op == "flit" && b.op == "flit" {
		return tFals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk("=", "Bool", "", a, b)
}

func mkLe(a, b *Term) *Term {
	l := &lin{c: big.NewInt(0)}
	l.addTerm(b, big1)
	l.addTerm(a, big.NewInt(-1)) // l >= 0
	d := l.term()
	if isInt(d) {
		return mkBool(d.iv.Sign() >= 0)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return tTrue
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return tFals
	}
	// canonical: divide by gcd of coefficients, negative part on the left
	g := new(big.Int)
	for _, c := range l.cs {
		if c.Sign() != 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
	}
	L := &lin{c: big.NewInt(0)}
	R := &lin{c: big.NewInt(0)}
	for i, c := range l.cs {
		if c.Sign() == 0 {
			continue
		}
		q := new(big.Int).Quo(c, g)
		if q.Sign() > 0 {
			R.addTerm(l.ts[i], q)
		} else {
			L.addTerm(l.ts[i], q.Neg(q))
		}
	}
	// floor(c/g)
	q := new(big.Int)
	q.DivMod(l.c, g, new(big.Int))
	if q.Sign() >= 0 {
		R.c.Add(R.c, q)
	} else {
		L.c.Sub(L.c, q)
	}
	return tb.mk("<=", "Bool", "", L.term(), R.term())
}
func mkLt(a, b *Term) *Term { return mkLe(mkAdd(a, mkI(1)), b) }

func mkSelect(arr, idx *Term, sort string) *Term {
	for {
		if arr.op == "store" {
			e := mkEq(arr.args[1], idx)
			if e == tTrue {
				return arr.args[2]
			}
			if e == tFals {
				arr = arr.args[0]
				continue
			}
		}
		break
	}
	if arr.op == "constarr" {
		return arr.args[0]
	}
	return tb.mk("select", sort, "", arr, idx)
}
func mkStore(arr, idx, v *Term) *Term {
	if arr.op == "store" && arr.args[1] == idx {
		arr = arr.args[0]
	}
	if v.op == "select" && v.args[0] == arr && v.args[1] == idx {
		return arr
	}
	return tb.mk("store", arr.sort, "", arr, idx, v)
}
func mkConstArr(sort string, v *Term) *Term { return tb.mk("constarr", sort, "", v) }

// mkApp: application of an uninterpreted/defined function
func mkApp(f, sort string, args ...*Term) *Term { return tb.mk("app", sort, f, args...) }

// datatype constructor / selector
func mkCtor(c, sort string, args ...*Term) *Term {
	ctorOps["ctor:"+c] = true
	return tb.mk("ctor:"+c, sort, "", args...)
}
func mkSel(sel string, idx int, ctor, sort string, x *Term) *Term {
	if x.op == "ctor:"+ctor {
		return x.args[idx]
	}
	if x.op == "ite" {
		a, b := x.args[1], x.args[2]
		if isCtor(a) || isCtor(b) {
			if (!isCtor(a) || a.op == "ctor:"+ctor) && (!isCtor(b) || b.op == "ctor:"+ctor) {
				return mkIte(x.args[0], mkSel(sel, idx, ctor, sort, a), mkSel(sel, idx, ctor, sort, b))
			}
		}
	}
	return tb.mk("sel:"+sel, sort, "", x)
}
func mkIs(ctor string, x *Term) *Term {
	if isCtor(x) {
		return mkBool(x.op == "ctor:"+ctor)
	}
	return tb.mk("is:"+ctor, "Bool", "", x)
}

func mkForall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return mkQuant("forall", vars, body, pats...)
}
func mkExists(vars []*Term, body *Term) *Term { return mkQuant("exists", vars, body) }

func mkQuant(q string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue || body == tFals {
		return body
	}
	used := map[*Term]bool{}
	freeBound(body, used, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	args := append([]*Term{body}, vs...)
	nm := ""
	for _, p := range pats {
		nm += "#"
		for _, x := range p {
			nm += fmt.Sprintf("%d,", x.id)
		}
	}
	t := tb.mk(q, "Bool", nm, args...)
	t.bv = vs
	t.pats = pats
	// recompute bound: true if other bound vars remain free
	fb := map[*Term]bool{}
	freeBound(t, fb, map[*Term]bool{})
	t.bound = len(fb) > 0
	return t
}

func freeBound(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.bound && t.op != "bvar" {
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bvar" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		freeBound(t.args[0], in, map[*Term]bool{})
		for v := range in {
			isq := false
			for _, q := range t.bv {
				if q == v {
					isq = true
				}
			}
			if !isq {
				out[v] = true
			}
		}
		return
	}
	for _, a := range t.args {
		freeBound(a, out, seen)
	}
}

// substitute bound variables (used to instantiate)
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if t.op == "forall" || t.op == "exists" {
		b := subst(t.args[0], m, memo)
		var pats [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, x := range p {
				np = append(np, subst(x, m, memo))
			}
			pats = append(pats, np)
		}
		r := mkQuant(t.op, t.bv, b, pats...)
		memo[t] = r
		return r
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = mkAdd(r, x)
		}
		return r
	case "*":
		return mkMul(a[0], a[1])
	case "div":
		return mkDiv(a[0], a[1])
	case "mod":
		return mkMod(a[0], a[1])
	case "not":
		return mkNot(a[0])
	case "and":
		return mkAnd(a...)
	case "or":
		return mkOr(a...)
	case "=>":
		return mkImp(a[0], a[1])
	case "ite":
		return mkIte(a[0], a[1], a[2])
	case "=":
		return mkEq(a[0], a[1])
	case "<=":
		return mkLe(a[0], a[1])
	case "select":
		r := mkSelect(a[0], a[1], t.sort)
		if r.op == "select" {
			withRange(r, t.lo, t.hi)
		}
		return r
	case "store":
		return mkStore(a[0], a[1], a[2])
	}
	if strings.HasPrefix(t.op, "sel:") {
		if si, ok := selInfo[t.op[4:]]; ok {
			r := mkSel(t.op[4:], si.idx, si.ctor, t.sort, a[0])
			return r
		}
	}
	if strings.HasPrefix(t.op, "is:") {
		return mkIs(t.op[3:], a[0])
	}
	if t.op == "app" && strings.HasPrefix(t.name, "vint$") {
		n, _ := strconv.ParseInt(t.name[5:], 10, 64)
		return mkVint(a[0], n)
	}
	r := tb.mk(t.op, t.sort, t.name, a...)
	if t.lo != nil || t.hi != nil {
		if t.op == "app" {
			withRange(r, t.lo, t.hi)
		}
	}
	return r
}

type selInf struct {
	ctor string
	idx  int
	sort string
}

var selInfo = map[string]selInf{}

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil, 0)
	return sb.String()
}
