package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- sorts ----

const (
	sBool  = "Bool"
	sInt   = "Int"
	sF64   = "F64"
	sSeq   = "Sq"
	sRef   = "Ref"
	sSlice = "Slice"
	sIface = "Iface"
	sFn    = "Fn"
)

func arrSort(elem string) string  { return "(Array Int " + elem + ")" }
func mapSort(k, v string) string  { return "(Array " + k + " " + v + ")" }
func heapSort(elem string) string { return "(Array Ref " + elem + ")" }
func arrElem(s string) string     { return splitSort(s)[1] }
func splitSort(s string) []string { // (Array A B) -> A, B
	in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return []string{in[:i], in[i+1:]}
			}
		}
	}
	panic("splitSort " + s)
}

type dtField struct{ name, sort string }
type dtDecl struct {
	name   string
	fields []dtField
}

var structDTs = map[string]*dtDecl{} // by sort name

const preludeSorts = `(declare-sort Sq 0)
(declare-sort F64 0)
(declare-sort Fn 0)
(declare-sort Vec 0)
(declare-datatypes ((Ref 0)) (((null) (obj (oid Int)) (sub (sbase Ref) (sfld Int)) (elm (ebase Ref) (eidx Int)))))
(declare-datatypes ((Slice 0)) (((mkslice (sref Ref) (soff Int) (sln Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((inil) (iint (tint Int) (vint Int)) (ibool (tbool Int) (vbool Bool)) (istr (tstr Int) (vstr Sq)) (if64 (tf64 Int) (vf64 F64)) (iref (tref Int) (vref Ref)) (islice (tslice Int) (vslice Slice)) (ifn (tfn Int) (vfn Fn)) (ioth (toth Int) (voth Int)))))
`

func init() {
	reg := func(ctor string, sels ...string) {
		for i := 0; i+1 < len(sels); i += 2 {
			selInfo[sels[i]] = selInf{ctor, i / 2, sels[i+1]}
		}
		ctorOps["ctor:"+ctor] = true
	}
	reg("null")
	reg("obj", "oid", sInt)
	reg("sub", "sbase", sRef, "sfld", sInt)
	reg("elm", "ebase", sRef, "eidx", sInt)
	reg("mkslice", "sref", sRef, "soff", sInt, "sln", sInt, "scap", sInt)
	reg("inil")
	reg("iint", "tint", sInt, "vint", sInt)
	reg("ibool", "tbool", sInt, "vbool", sBool)
	reg("istr", "tstr", sInt, "vstr", sSeq)
	reg("if64", "tf64", sInt, "vf64", sF64)
	reg("iref", "tref", sInt, "vref", sRef)
	reg("islice", "tslice", sInt, "vslice", sSlice)
	reg("ifn", "tfn", sInt, "vfn", sFn)
	reg("ioth", "toth", sInt, "voth", sInt)
}

func sel(name string, x *Term) *Term {
	si := selInfo[name]
	return mkSel(name, si.idx, si.ctor, si.sort, x)
}

var maxLen = new(big.Int).Lsh(big1, 30)

func mkSlice(ref, off, ln, cp *Term) *Term { return mkCtor("mkslice", sSlice, ref, off, ln, cp) }
func slRef(s *Term) *Term                  { return sel("sref", s) }
func slOff(s *Term) *Term                  { return withRange(sel("soff", s), big0, maxLen) }
func slLen(s *Term) *Term                  { return withRange(sel("sln", s), big0, maxLen) }
func slCap(s *Term) *Term                  { return withRange(sel("scap", s), big0, maxLen) }

var tNull = mkCtor("null", sRef)
var tINil = mkCtor("inil", sIface)
var tNilSlice = mkSlice(tNull, mkI(0), mkI(0), mkI(0))

// ---- sequences (Go strings, and abstract integer sequences) ----

func qlen(s *Term) *Term {
	switch s.op {
	case "lit":
		return mkI(int64(len(litVal[s])))
	case "app":
		switch s.name {
		case "mkseq":
			if s.args[2].lo != nil && s.args[2].lo.Sign() >= 0 {
				return s.args[2]
			}
		}
	}
	return withRange(mkApp("qlen", sInt, s), big0, maxLen)
}
func qat(s, i *Term) *Term {
	if s.op == "lit" && isInt(i) && i.iv.IsInt64() && i.iv.Int64() >= 0 && i.iv.Int64() < int64(len(litVal[s])) {
		return mkI(int64(litVal[s][i.iv.Int64()]))
	}
	return mkApp("qat", sInt, s, i)
}

var litVal = map[*Term]string{}

func mkLit(s string) *Term {
	t := tb.mk("lit", sSeq, s)
	litVal[t] = s
	return t
}

// ---- printing ----

func smtName(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!?$", c)) {
			return "|" + strings.ReplaceAll(s, "|", "_") + "|"
		}
	}
	return s
}

func printTerm(sb *strings.Builder, t *Term, named map[*Term]string, depth int) {
	if named != nil {
		if n, ok := named[t]; ok && depth > 0 {
			sb.WriteString(n)
			return
		}
	}
	d := depth + 1
	list := func(head string) {
		if len(t.args) == 0 {
			sb.WriteString(head)
			return
		}
		sb.WriteByte('(')
		sb.WriteString(head)
		for _, a := range t.args {
			sb.WriteByte(' ')
			printTerm(sb, a, named, d)
		}
		sb.WriteByte(')')
	}
	switch t.op {
	case "var", "bvar":
		sb.WriteString(smtName(t.name))
	case "int":
		if t.iv.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.iv).String() + ")")
		} else {
			sb.WriteString(t.iv.String())
		}
	case "true", "false":
		sb.WriteString(t.op)
	case "lit":
		if named == nil {
			fmt.Fprintf(sb, "%q", t.name)
		} else {
			fmt.Fprintf(sb, "lit_%d", t.id)
		}
	case "flit":
		sb.WriteString("flit_" + t.name)
	case "app":
		list(smtName(t.name))
	case "constarr":
		sb.WriteString("((as const " + t.sort + ") ")
		printTerm(sb, t.args[0], named, d)
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bv {
			sb.WriteString("(" + smtName(v.name) + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		var pats [][]*Term
		for _, p := range t.pats {
			ok := true
			for _, x := range p {
				ok = ok && !hasAnyOp(x, noPat, map[*Term]bool{})
			}
			if ok {
				pats = append(pats, p)
			}
		}
		if len(pats) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.args[0], named, d)
		if len(pats) > 0 {
			for _, p := range pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, named, d)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if strings.HasPrefix(t.op, "ctor:") {
			list(smtName(t.op[5:]))
		} else if strings.HasPrefix(t.op, "sel:") {
			list(smtName(t.op[4:]))
		} else if strings.HasPrefix(t.op, "is:") {
			list("(_ is " + smtName(t.op[3:]) + ")")
		} else {
			list(t.op)
		}
	}
}

// ---- axioms ----

type funDecl struct {
	args []string
	ret  string
	def  *funDef // optional definition (defined function)
}
type funDef struct {
	params []*Term
	body   *Term
}

// axioms keyed by the function symbols whose presence activates them
type axiom struct {
	name string
	trig []string // all must be present
	term *Term
}

var axioms []*axiom

func addAxiom(name string, t *Term, trig ...string) {
	axioms = append(axioms, &axiom{name, trig, t})
}

func init() {
	a := freshBound("a", arrSort(sInt))
	o, n, k := freshBound("o", sInt), freshBound("n", sInt), freshBound("k", sInt)
	s, t := freshBound("s", sSeq), freshBound("t", sSeq)
	i, j := freshBound("i", sInt), freshBound("j", sInt)
	ql := func(x *Term) *Term { return mkApp("qlen", sInt, x) }
	qa := func(x, y *Term) *Term { return mkApp("qat", sInt, x, y) }
	addAxiom("qlen.nonneg", mkForall([]*Term{s}, mkLe(mkI(0), ql(s)), []*Term{ql(s)}), "qlen")
	ms := mkApp("mkseq", sSeq, a, o, n)
	addAxiom("mkseq.len", mkForall([]*Term{a, o, n}, mkImp(mkLe(mkI(0), n), mkEq(ql(ms), n)), []*Term{ms}), "mkseq", "qlen")
	addAxiom("mkseq.at", mkForall([]*Term{a, o, n, k}, mkImp(mkAnd(mkLe(mkI(0), k), mkLt(k, n)), mkEq(qa(ms, k), mkSelect(a, mkAdd(o, k), sInt))), []*Term{qa(ms, k)}), "mkseq", "qat")
	ss := mkApp("qsub", sSeq, s, i, j)
	g := mkAnd(mkLe(mkI(0), i), mkLe(i, j), mkLe(j, ql(s)))
	addAxiom("qsub.len", mkForall([]*Term{s, i, j}, mkImp(g, mkEq(ql(ss), mkSub(j, i))), []*Term{ss}), "qsub")
	addAxiom("qsub.at", mkForall([]*Term{s, i, j, k}, mkImp(mkAnd(g, mkLe(mkI(0), k), mkLt(k, mkSub(j, i))), mkEq(qa(ss, k), qa(s, mkAdd(i, k)))), []*Term{qa(ss, k)}), "qsub", "qat")
	sc := mkApp("qcat", sSeq, s, t)
	addAxiom("qcat.len", mkForall([]*Term{s, t}, mkEq(ql(sc), mkAdd(ql(s), ql(t))), []*Term{sc}), "qcat")
	addAxiom("qcat.at", mkForall([]*Term{s, t, k}, mkEq(qa(sc, k), mkIte(mkLt(k, ql(s)), qa(s, k), qa(t, mkSub(k, ql(s))))), []*Term{qa(sc, k)}), "qcat", "qat")
}

// ---- query construction ----

type Query struct {
	asserts []*Term
}

func collect(ts []*Term) []*Term { // topological order
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// arrayRoots: the arrays whose elements an array term can show
func arrayRoots(a *Term, d int) []*Term {
	switch {
	case d > 10:
		return nil
	case a.op == "store":
		return arrayRoots(a.args[0], d+1)
	case a.op == "ite":
		return append(arrayRoots(a.args[1], d+1), arrayRoots(a.args[2], d+1)...)
	case a.op == "var":
		return []*Term{a}
	case a.op == "select":
		var out []*Term
		var heaps func(h *Term, d int)
		heaps = func(h *Term, d int) {
			switch {
			case d > 10:
			case h.op == "store":
				out = append(out, arrayRoots(h.args[2], d+1)...)
				heaps(h.args[0], d+1)
			case h.op == "ite":
				heaps(h.args[1], d+1)
				heaps(h.args[2], d+1)
			case h.op == "var":
				out = append(out, mkSelect(h, a.args[1], a.sort))
			}
		}
		heaps(a.args[0], d)
		return out
	}
	return nil
}

func (q *Query) build() string { return q.buildNamed(nil) }

func (q *Query) buildNamed(getVals []*Term) string {
	ri := &reindexer{memo: [2]map[*Term]*Term{{}, {}}}
	var asserts []*Term
	for _, a := range q.asserts {
		asserts = append(asserts, ri.do(a, true))
	}
	// what every slice and reference read from memory satisfies
	nf := 0
	factSeen := map[*Term]bool{}
	fact := func(t *Term) {
		if factSeen[t] || nf > 200 {
			return
		}
		factSeen[t] = true
		bb := bornBefore(t)
		if bb == nil {
			return
		}
		nf++
		if t.sort == sRef {
			asserts = append(asserts, mkLt(ridTerm(t), bb))
			return
		}
		asserts = append(asserts, mkLt(ridTerm(slRef(t)), bb), mkLe(mkI(0), slOff(t)), mkLe(mkI(0), slLen(t)), mkLe(slLen(t), slCap(t)), mkImp(mkEq(slRef(t), tNull), mkEq(slCap(t), mkI(0))))
	}
	for _, t := range collect(asserts) {
		if t.bound || t.op != "select" || t.sort != sSlice && t.sort != sRef {
			continue
		}
		for _, a := range arrayRoots(t.args[0], 0) {
			fact(mkSelect(a, t.args[1], t.sort))
		}
	}
	used := map[*axiom]bool{}
	extSeen := map[[2]*Term]bool{}
	var all []*Term
	for round := 0; round < 8; round++ {
		all = collect(append(append([]*Term(nil), asserts...), getVals...))
		changed := false
		syms := map[string]bool{}
		byFn := map[string][]*Term{}
		for _, t := range all {
			if t.op == "app" {
				syms[t.name] = true
				if !t.bound {
					byFn[t.name] = append(byFn[t.name], t)
				}
			}
			if t.op == "lit" {
				syms["lit"] = true
			}
		}
		for _, ax := range axioms {
			if used[ax] || realFloat && (strings.HasPrefix(ax.name, "flt.") || strings.HasPrefix(ax.name, "fle.")) {
				continue
			}
			ok := true
			for _, s := range ax.trig {
				if !syms[s] {
					ok = false
				}
			}
			if ok {
				used[ax] = true
				asserts = append(asserts, ax.term)
				changed = true
			}
		}
		// extensionality for sequences
		addExt := func(a, b *Term) {
			if a == b || a.bound || b.bound {
				return
			}
			if a.op == "lit" && b.op == "lit" {
				return
			}
			if a.id > b.id {
				a, b = b, a
			}
			key := [2]*Term{a, b}
			if extSeen[key] || len(extSeen) > 40 {
				return
			}
			extSeen[key] = true
			if a.op == "lit" || b.op == "lit" {
				l, x := a, b
				if b.op == "lit" {
					l, x = b, a
				}
				v := litVal[l]
				if len(v) <= 64 {
					cs := []*Term{mkEq(qlen(x), mkI(int64(len(v))))}
					for i := 0; i < len(v); i++ {
						cs = append(cs, mkEq(qat(x, mkI(int64(i))), mkI(int64(v[i]))))
					}
					asserts = append(asserts, mkEq(tb.mk("=", "Bool", "", l, x), mkAnd(cs...)))
					changed = true
					return
				}
			}
			d := mkApp("qdiff", sInt, a, b)
			asserts = append(asserts, mkOr(tb.mk("=", "Bool", "", a, b), mkNot(mkEq(qlen(a), qlen(b))),
				mkAnd(mkLe(mkI(0), d), mkLt(d, qlen(a)), mkNot(mkEq(qat(a, d), qat(b, d))))))
			changed = true
		}
		for _, t := range all {
			if t.op == "=" && t.args[0].sort == sSeq {
				addExt(t.args[0], t.args[1])
			}
		}
		for fn, ts := range byFn {
			if fn == "qlen" || fn == "qat" || fn == "qdiff" || fn == "qcat" || fn == "qsub" || len(ts) > 8 {
				continue
			}
			for i := range ts {
				for j := 0; j < i; j++ {
					for k := range ts[i].args {
						if ts[i].args[k].sort == sSeq {
							addExt(ts[i].args[k], ts[j].args[k])
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	all = collect(append(append([]*Term(nil), asserts...), getVals...))

	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	if realFloat {
		sb.WriteString(strings.Replace(preludeSorts, "(declare-sort F64 0)", "(define-sort F64 () Real)", 1) + "(declare-fun powu (Real Real) Real)\n(declare-fun fint (Real) Bool)\n")
	} else {
		sb.WriteString(preludeSorts)
	}
	// struct datatypes
	decl := map[string]bool{}
	var needSort func(s string)
	needSort = func(s string) {
		if strings.HasPrefix(s, "(Array ") {
			p := splitSort(s)
			needSort(p[0])
			needSort(p[1])
			return
		}
		d, ok := structDTs[s]
		if !ok || decl[s] {
			return
		}
		decl[s] = true
		for _, f := range d.fields {
			needSort(f.sort)
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((mk_%s", smtName(s), sanitize(s))
		for _, f := range d.fields {
			fmt.Fprintf(&sb, " (%s %s)", smtName(f.name), f.sort)
		}
		sb.WriteString("))))\n")
	}
	for _, t := range all {
		needSort(t.sort)
	}
	// declarations
	declared := map[string]bool{}
	var lits, flits []*Term
	for _, t := range all {
		switch t.op {
		case "var":
			if !declared[t.name] {
				declared[t.name] = true
				fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(t.name), t.sort)
			}
		case "lit":
			fmt.Fprintf(&sb, "(declare-fun lit_%d () Sq)\n", t.id)
			lits = append(lits, t)
		case "flit":
			if realFloat {
				r, _ := new(big.Rat).SetString(fmt.Sprintf("%g", flitVal[t]))
				n := smtInt(r.Num())
				fmt.Fprintf(&sb, "(define-fun flit_%s () F64 (/ (to_real %s) (to_real %s)))\n", t.name, n, r.Denom())
				continue
			}
			fmt.Fprintf(&sb, "(declare-fun flit_%s () F64)\n", t.name)
			flits = append(flits, t)
		case "app":
			if !declared["f:"+t.name] {
				declared["f:"+t.name] = true
				if d, ok := realDefs[strings.SplitN(t.name, "$", 2)[0]]; ok && realFloat {
					fmt.Fprintf(&sb, "(define-fun %s %s)\n", smtName(t.name), d)
					continue
				}
				if strings.HasPrefix(t.name, "vint$") {
					if n, err := strconv.ParseInt(t.name[5:], 10, 64); err == nil {
						if lo, hi, ok := intRange(tagTypes[n]); ok {
							fmt.Fprintf(&sb, "(define-fun %s ((i Iface)) Int (ite (and ((_ is iint) i) (= (tint i) %d) (<= %s (vint i) %s)) (vint i) 0))\n", smtName(t.name), n, smtInt(lo), smtInt(hi))
							continue
						}
					}
				}
				var as []string
				for _, a := range t.args {
					as = append(as, a.sort)
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(as, " "), t.sort)
			}
		}
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range lits {
			fmt.Fprintf(&sb, " lit_%d", l.id)
		}
		sb.WriteString("))\n")
	}
	if len(flits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range flits {
			fmt.Fprintf(&sb, " flit_%s", l.name)
		}
		sb.WriteString("))\n")
	}
	hasQ := false
	for _, t := range all {
		if t.op == "app" && (t.name == "qlen" || t.name == "qat") {
			hasQ = true
		}
	}
	if hasQ {
		if !declared["f:qlen"] {
			sb.WriteString("(declare-fun qlen (Sq) Int)\n")
		}
		if !declared["f:qat"] {
			sb.WriteString("(declare-fun qat (Sq Int) Int)\n")
		}
		for _, l := range lits {
			v := litVal[l]
			fmt.Fprintf(&sb, "(assert (= (qlen lit_%d) %d))\n", l.id, len(v))
			if len(v) <= 64 {
				for i := 0; i < len(v); i++ {
					fmt.Fprintf(&sb, "(assert (= (qat lit_%d %d) %d))\n", l.id, i, v[i])
				}
			}
		}
	}
	// sharing
	cnt := map[*Term]int{}
	for _, t := range all {
		for _, a := range t.args {
			cnt[a]++
		}
	}
	named := map[*Term]string{}
	for _, t := range all {
		if !t.bound && len(t.args) > 0 && cnt[t] > 1 && t.op != "forall" && t.op != "exists" {
			var b strings.Builder
			printTerm(&b, t, named, 0)
			n := fmt.Sprintf("$%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, b.String())
			named[t] = n
		}
	}
	// ranges
	for _, t := range all {
		if t.sort == sInt && !t.bound && (t.op == "var" || t.op == "select" || t.op == "app" || strings.HasPrefix(t.op, "sel:")) {
			var b strings.Builder
			printTerm(&b, t, named, 1)
			if t.lo != nil && t.hi != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s %s))\n", smtInt(t.lo), b.String(), smtInt(t.hi))
			} else if t.lo != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", smtInt(t.lo), b.String())
			} else if t.hi != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", b.String(), smtInt(t.hi))
			}
		}
	}
	if realFloat {
		pr := func(t *Term) string {
			var b strings.Builder
			printTerm(&b, t, named, 1)
			return b.String()
		}
		fact := func(f string, a ...interface{}) { fmt.Fprintf(&sb, "(assert "+f+")\n", a...) }
		hasRound := false
		for _, t := range all {
			if t.bound || t.op == "var" && t.sort != sF64 {
				continue
			}
			if t.op == "flit" {
				if f := flitVal[t]; f == math.Floor(f) {
					fact("(fint %s)", pr(t))
				}
			}
			if t.op != "app" {
				continue
			}
			b := pr(t)
			x, y := "", ""
			if len(t.args) > 0 {
				x = pr(t.args[0])
			}
			if len(t.args) > 1 {
				y = pr(t.args[1])
			}
			switch t.name {
			case "fadd", "fsub":
				fact("(=> (and (fint %s) (fint %s)) (fint %s))", x, y, b)
			case "fneg":
				fact("(= (fint %s) (fint %s))", x, b)
			case "i2f":
				fact("(fint %s)", b)
			case "fdiv":
				fact("(=> (and (< 0.0 %s) (<= %s %s)) (<= 1.0 %s))", y, y, x, b)
				fact("(=> (and (< 0.0 %s) (<= 0.0 %s)) (<= 0.0 %s))", y, x, b)
			case "fmul":
				fact("(=> (and (fint %s) (fint %s)) (fint %s))", x, y, b)
				fact("(=> (and (<= 0.0 %s) (<= 1.0 %s)) (<= %s %s))", x, y, x, b)
				fact("(=> (and (<= 0.0 %s) (<= 1.0 %s)) (<= %s %s))", y, x, y, b)
				fact("(=> (and (<= 0.0 %s) (<= 0.0 %s) (<= %s 1.0)) (<= %s %s))", x, y, y, b, x)
				fact("(=> (and (<= 0.0 %s) (<= 0.0 %s) (<= %s 1.0)) (<= %s %s))", y, x, x, b, y)
				fact("(=> (and (<= 0.0 %s) (<= 0.0 %s)) (<= 0.0 %s))", y, x, b)
			case "math.Floor", "modf#0":
				fact("(fint %s)", b)
				fact("(=> (fint %s) (= %s %s))", x, b, x)
				c := "(<= 0.0 " + x + ")"
				if t.name == "math.Floor" {
					c = "true"
				}
				fact("(ite %s (and (<= %s %s) (< %s (+ %s 1.0))) (and (<= %s %s) (< %s (+ %s 1.0))))", c, b, x, x, b, x, b, b, x)
				fact("(=> (<= 0.0 %s) (<= 0.0 %s))", x, b)
				fact("(=> (<= 1.0 %s) (<= 1.0 %s))", x, b)
				fact("(=> (<= %s 0.0) (<= %s 0.0))", x, b)
			case "modf#1":
				fact("(and (< (- 1.0) %s) (< %s 1.0) (= (= %s 0.0) (fint %s)))", b, b, b, x)
				fact("(and (=> (<= 0.0 %s) (<= 0.0 %s)) (=> (<= %s 0.0) (<= %s 0.0)))", x, b, x, b)
			case "math.Round":
				hasRound = true
				fact("(fint %s)", b)
				fact("(and (<= %s (+ %s 0.5)) (<= %s (+ %s 0.5)))", b, x, x, b)
				fact("(=> (<= 0.0 %s) (<= 0.0 %s))", x, b)
			case "math.Pow":
				fact("(=> (and (= %s 10.0) (fint %s) (<= 0.0 %s)) (and (fint %s) (<= 1.0 %s)))", x, y, y, b, b)
				fact("(=> (and (= %s 10.0) (fint %s) (<= 1.0 %s)) (<= 10.0 %s))", x, y, y, b)
				fact("(=> (and (= %s 10.0) (fint %s) (<= %s 17.0)) (<= %s 100000000000000000.0))", x, y, y, b)
			case "f2i$int", "f2i$int64":
				fact("(=> (and (<= 0.0 %s) (< %s 9223372036854775000.0)) (and (<= 0 %s) (<= (to_real %s) %s) (< %s (+ 1.0 (to_real %s)))))", x, x, b, b, x, x, b)
				fact("(=> (and (<= %s 0.0) (< (- 9223372036854775000.0) %s)) (and (<= %s 0) (<= %s (to_real %s)) (< (- (to_real %s) 1.0) %s)))", x, x, b, x, b, b, x)
				fact("(=> (and (fint %s) (< (- 9223372036854775000.0) %s) (< %s 9223372036854775000.0)) (= (to_real %s) %s))", x, x, x, b, x)
			}
		}
		if hasRound {
			sb.WriteString("(assert (forall ((a Real)(n Real)) (! (=> (and (fint n) (<= a n)) (<= (math.Round a) n)) :pattern ((math.Round a) (fint n)))))\n")
		}
	}
	for _, a := range asserts {
		var b strings.Builder
		printTerm(&b, a, named, 1)
		fmt.Fprintf(&sb, "(assert %s)\n", b.String())
	}
	sb.WriteString("(check-sat)\n")
	if len(getVals) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range getVals {
			var b strings.Builder
			printTerm(&b, v, named, 1)
			sb.WriteString(b.String() + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// ---- solver ----

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type solverStat struct {
	mu      sync.Mutex
	queries int
	cached  int
	byName  map[string]int
	time    time.Duration
}

var sstat = &solverStat{byName: map[string]int{}}

var solverSem = make(chan struct{}, 8)

type cacheEnt struct {
	once sync.Once
	r    Res
	by   string
}

var qcache sync.Map

// takeSlot limits the number of solver processes, across the verifier processes of one check
func takeSlot(ctx context.Context) func() {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return nil
	}
	dir := os.Getenv("GOVER_SLOTS")
	if dir == "" {
		return func() { <-solverSem }
	}
	for {
		for i := 0; i < 8; i++ {
			f, err := os.OpenFile(fmt.Sprintf("%s/slot%d", dir, i), os.O_CREATE|os.O_RDWR, 0644)
			if err != nil {
				return func() { <-solverSem }
			}
			if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() { f.Close(); <-solverSem }
			}
			f.Close()
		}
		if ctx.Err() != nil {
			<-solverSem
			return nil
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func runSolver(script string, timeoutMs int, cmd ...string) (Res, string) {
	return runSolverCtx(context.Background(), script, timeoutMs, cmd...)
}

func runSolverCtx(parent context.Context, script string, timeoutMs int, cmd ...string) (Res, string) {
	release := takeSlot(parent)
	if release == nil {
		return Unknown, ""
	}
	defer release()
	ctx, cancel := context.WithTimeout(parent, time.Duration(timeoutMs+1500)*time.Millisecond)
	defer cancel()
	c := exec.CommandContext(ctx, cmd[0], cmd[1:]...)
	c.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	st := time.Now()
	c.Run()
	sstat.mu.Lock()
	sstat.queries++
	sstat.time += time.Since(st)
	sstat.mu.Unlock()
	s := out.String()
	first := ""
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "WARNING") {
			first = l
			break
		}
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		return Unsat, s
	case "sat":
		return Sat, s
	}
	if strings.Contains(s, "error") && !strings.Contains(s, "timeout") && !strings.Contains(s, "canceled") && !strings.Contains(s, "interrupted") {
		h := sha256.Sum256([]byte(script))
		fn := "/tmp/gover_err_" + hex.EncodeToString(h[:6]) + ".smt2"
		if os.Getenv("GOVER_DEBUG") != "" {
			os.WriteFile(fn, []byte(script), 0644)
			fmt.Fprintln(os.Stderr, "solver error:", first, fn)
		}
	}
	return Unknown, s
}

// prove: is the conjunction unsatisfiable?  level 0 = quick (one solver), 1 = portfolio
func checkUnsat(asserts []*Term, level int) (Res, string) {
	for _, a := range asserts {
		if a == tFals {
			return Unsat, "simplifier"
		}
	}
	script := (&Query{asserts: asserts}).build()
	return checkScript(script, level)
}

func checkScript(script string, level int) (Res, string) {
	h := sha256.Sum256([]byte(script))
	key := fmt.Sprintf("%d:%x", level, h)
	v, _ := qcache.LoadOrStore(key, &cacheEnt{})
	e := v.(*cacheEnt)
	e.once.Do(func() {
		e.r, e.by = solvePortfolio(script, level)
		sstat.mu.Lock()
		sstat.byName[e.by]++
		sstat.mu.Unlock()
	})
	return e.r, e.by
}

var (
	quickMs = 2000
	fullMs  = 20000
	tmul    = 1
)

func init() {
	if n, err := strconv.Atoi(os.Getenv("GOVER_TMUL")); err == nil && n > 1 {
		tmul = n
		quickMs *= n
		fullMs *= n
	}
}

func solvePortfolio(script string, level int) (Res, string) {
	hasQuant := strings.Contains(script, "(forall") || strings.Contains(script, "(exists")
	if level <= 0 {
		ms := quickMs
		if level < 0 {
			ms = 400 * tmul
		}
		if hasQuant {
			r, _ := runSolver(script, ms, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false")
			return r, "z3-5.3.2"
		}
		r, _ := runSolver(script, ms, "z3-new", "-in", fmt.Sprintf("-t:%d", ms))
		return r, "z3-5.3.2"
	}
	if hasQuant {
		ms := 5000 * tmul
		if level == 2 {
			ms = 2500 * tmul
		}
		if r, _ := runSolver(script, ms, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false"); r == Unsat {
			return r, "z3-5.3.2"
		}
	} else {
		if r, _ := runSolver(script, 8000*tmul, "z3-new", "-in", fmt.Sprintf("-t:%d", 8000*tmul)); r != Unknown {
			return r, "z3-5.3.2"
		}
	}
	type ans struct {
		r  Res
		by string
	}
	fullMs := fullMs
	if level == 2 { // candidate invariants
		fullMs = 4000 * tmul
	}
	ch := make(chan ans, 4)
	cmds := [][]string{
		{"z3-new", "-in", fmt.Sprintf("-t:%d", fullMs)},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", fullMs), "-"},
		{"z3", "-in", fmt.Sprintf("-t:%d", fullMs)},
		{"z3-new", "-in", fmt.Sprintf("-t:%d", fullMs), "smt.auto_config=false", "smt.mbqi=false", "smt.random_seed=7", "smt.case_split=3"},
	}
	names := []string{"z3-5.3.2", "cvc5-1.1.2", "z3-4.8.12", "z3-5.3.2"}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := range cmds {
		go func(i int) {
			r, _ := runSolverCtx(ctx, script, fullMs, cmds[i]...)
			ch <- ans{r, names[i]}
		}(i)
	}
	res := ans{Unknown, "none"}
	for range cmds {
		a := <-ch
		if a.r == Unsat {
			return a.r, a.by
		}
		if a.r == Sat {
			res = a
		}
	}
	return res.r, res.by
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// hints: boolean specification functions that an axiom makes true for every argument; mentioning one
// makes the axiom's instance available.
var hintFns = map[string]bool{}

func isHint(t *Term) bool { return t.op == "app" && t.sort == sBool && hintFns[t.name] }

// goalPieces splits a goal into pieces that together prove it; each piece is a list of facts to assert
// ending in the negated sub-goal.  Universal variables become fresh constants, conjuncts already
// proved (and hints) are assumed for the later ones.
func goalPieces(goal *Term) [][]*Term {
	var out [][]*Term
	var rec func(extra []*Term, g *Term)
	rec = func(extra []*Term, g *Term) {
		switch g.op {
		case "and":
			ex := append([]*Term(nil), extra...)
			for _, c := range g.args {
				if !isHint(c) {
					rec(ex, c)
				}
				ex = append(ex, c)
			}
			return
		case "=>":
			rec(append(append([]*Term(nil), extra...), g.args[0]), g.args[1])
			return
		case "forall":
			m := map[*Term]*Term{}
			for _, v := range g.bv {
				m[v] = freshVar("sk", v.sort)
			}
			rec(extra, subst(g.args[0], m, map[*Term]*Term{}))
			return
		}
		if isHint(g) || g == tTrue {
			return
		}
		out = append(out, append(append([]*Term(nil), extra...), mkNot(g)))
	}
	rec(nil, goal)
	return out
}

// realFloat: floating-point arithmetic is treated as arithmetic on mathematical reals (an assumption the
// evidence states); set by the directive "realfloat" of the function being verified.
var realFloat bool

var realDefs = map[string]string{
	"fadd": "((a Real)(b Real)) Real (+ a b)",
	"fsub": "((a Real)(b Real)) Real (- a b)",
	// fmul and fdiv: uninterpreted, with true facts about each product and quotient
	"fneg": "((a Real)) Real (- a)",
	"feq":  "((a Real)(b Real)) Bool (= a b)",
	"flt":  "((a Real)(b Real)) Bool (< a b)",
	"fle":  "((a Real)(b Real)) Bool (<= a b)",
	"i2f":  "((a Int)) Real (to_real a)",
}

func init() {
	pow := "(powu a b)"
	for k := 18; k >= 0; k-- {
		pow = fmt.Sprintf("(ite (= b %d.0) 1%s.0 %s)", k, strings.Repeat("0", k), pow)
	}
	realDefs["math.Pow"] = "((a Real)(b Real)) Real (ite (= a 10.0) " + pow + " (powu a b))"
}
