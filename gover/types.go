package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an executor value: *Term, *StructV, *TupleV, *PtrV, *FnV, *IterV
type Val interface{}

type StructV struct {
	typ types.Type
	f   []Val
}
type TupleV struct{ vs []Val }

// PtrV is a pointer that is not a plain heap Ref.
type PtrV struct {
	kind  byte // 'l' local cell, 'f' heap field, 'e' element, 'g' global
	loc   *Loc
	heap  string
	hsort string // sort of the value held (field/global) or of the element
	ref   *Term
	idx   *Term
	path  []pstep
	base  types.Type // type of the base value (before path)
	typ   types.Type // pointee type
}
type pstep struct {
	field int
	idx   *Term
}

// Loc identifies a local memory cell of one activation.
type Loc struct {
	name string
	typ  types.Type
	id   int
	fr   *Frame
}

type FnV struct {
	fn    *ssa.Function
	binds []Val
	term  *Term
}

type IterV struct {
	m   *Term // map ref
	mt  *types.Map
	str *Term // string
	loc *Loc  // position cell (string) / step counter (map)
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

var aliasRe = regexp.MustCompile(`\b(byte|rune|any)\b`)
var typeKeys = map[types.Type]string{}

// typeKey names a type; identical types have one name (byte is uint8, rune is int32).
func typeKey(t types.Type) string {
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
	k = aliasRe.ReplaceAllStringFunc(k, func(s string) string {
		return map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}[s]
	})
	typeKeys[t] = k
	return k
}

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }

func sortOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsFloat != 0:
			return sF64
		case u.Info()&types.IsString != 0:
			return sSeq
		case u.Kind() == types.UnsafePointer:
			return sRef
		case u.Kind() == types.UntypedNil:
			return sRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return sRef
	case *types.Slice:
		return sSlice
	case *types.Interface:
		return sIface
	case *types.Signature:
		return sFn
	case *types.Array:
		return arrSort(sortOf(u.Elem()))
	case *types.Struct:
		return structSort(t)
	case *types.Tuple:
		return "Tuple"
	}
	unsup("sort of type %s", t)
	return ""
}

func structSort(t types.Type) string {
	n := "S_" + sanitize(typeKey(t))
	if _, ok := structDTs[n]; ok {
		return n
	}
	d := &dtDecl{name: n}
	structDTs[n] = d
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fs := sortOf(f.Type())
		sname := n + "." + f.Name()
		if f.Name() == "_" {
			sname = fmt.Sprintf("%s._%d", n, i)
		}
		d.fields = append(d.fields, dtField{sname, fs})
		selInfo[sname] = selInf{"mk_" + n, i, fs}
	}
	ctorOps["ctor:mk_"+n] = true
	return n
}

func fieldName(t types.Type, i int) string {
	return under(t).(*types.Struct).Field(i).Name()
}

func toTerm(v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *StructV:
		s := structSort(x.typ)
		st := under(x.typ).(*types.Struct)
		var args []*Term
		for i, f := range x.f {
			args = append(args, toTerm(f, st.Field(i).Type()))
		}
		if len(args) == 0 {
			return tb.mk("ctor:mk_"+s, s, "")
		}
		return mkCtor("mk_"+s, s, args...)
	case *FnV:
		return x.asTerm()
	case *PtrV:
		unsup("interior pointer stored as a value (%s)", x.typ)
	}
	unsup("toTerm %T", v)
	return nil
}

func fromTerm(x *Term, t types.Type) Val {
	if isStruct(t) {
		s := structSort(t)
		d := structDTs[s]
		st := under(t).(*types.Struct)
		r := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			e := mkSel(d.fields[i].name, i, "mk_"+s, d.fields[i].sort, x)
			r.f = append(r.f, fromTerm(rangeBy(e, ft), ft))
		}
		return r
	}
	if fnv, ok := fnTerms[x]; ok {
		return fnv
	}
	return x
}

var fnTerms = map[*Term]*FnV{}
var fnConst = map[*ssa.Function]*Term{}

func (f *FnV) asTerm() *Term {
	if f.term != nil {
		return f.term
	}
	if len(f.binds) == 0 {
		t := fnConst[f.fn]
		if t == nil {
			t = mkApp("fn$"+f.fn.String(), sFn)
			fnConst[f.fn] = t
		}
		f.term = t
		if fnTerms[t] == nil {
			fnTerms[t] = f
		}
		return t
	}
	f.term = freshVar("clo", sFn)
	fnTerms[f.term] = f
	return f.term
}

var intRanges = map[types.BasicKind][2]*big.Int{}

func init() {
	mk := func(k types.BasicKind, bits uint, signed bool) {
		if signed {
			h := new(big.Int).Lsh(big1, bits-1)
			intRanges[k] = [2]*big.Int{new(big.Int).Neg(h), new(big.Int).Sub(h, big1)}
		} else {
			h := new(big.Int).Lsh(big1, bits)
			intRanges[k] = [2]*big.Int{big0, new(big.Int).Sub(h, big1)}
		}
	}
	mk(types.Int, 64, true)
	mk(types.Int8, 8, true)
	mk(types.Int16, 16, true)
	mk(types.Int32, 32, true)
	mk(types.Int64, 64, true)
	mk(types.Uint, 64, false)
	mk(types.Uint8, 8, false)
	mk(types.Uint16, 16, false)
	mk(types.Uint32, 32, false)
	mk(types.Uint64, 64, false)
	mk(types.Uintptr, 64, false)
	mk(types.UntypedInt, 64, true)
	mk(types.UntypedRune, 32, true)
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	r, ok := intRanges[b.Kind()]
	return r[0], r[1], ok
}

// rangeBy attaches the type's interval to a term of that type.
func rangeBy(x *Term, t types.Type) *Term {
	if x.sort != sInt || ranged[x] {
		return x
	}
	if lo, hi, ok := intRange(t); ok {
		switch x.op {
		case "var", "select", "app":
			return withRange(x, lo, hi)
		}
		if strings.HasPrefix(x.op, "sel:") {
			return withRange(x, lo, hi)
		}
	}
	return x
}

func bitsOf(t types.Type) (int, bool) { // width, signed
	lo, hi, ok := intRange(t)
	if !ok {
		unsup("bitsOf %s", t)
	}
	if lo.Sign() < 0 {
		return hi.BitLen() + 1, true
	}
	return hi.BitLen(), false
}

func zeroOf(t types.Type) Val {
	if isStruct(t) {
		st := under(t).(*types.Struct)
		r := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			r.f = append(r.f, zeroOf(st.Field(i).Type()))
		}
		return r
	}
	return zeroTerm(t)
}

var tNilFn = mkApp("fn$nil", sFn)

func zeroTerm(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Array:
		return mkConstArr(sortOf(t), toTerm(zeroOf(u.Elem()), u.Elem()))
	case *types.Struct:
		return toTerm(zeroOf(t), t)
	}
	switch sortOf(t) {
	case sInt:
		return mkI(0)
	case sBool:
		return tFals
	case sSeq:
		return mkLit("")
	case sF64:
		return mkFloat(0)
	case sRef:
		return tNull
	case sSlice:
		return tNilSlice
	case sIface:
		return tINil
	case sFn:
		return tNilFn
	}
	unsup("zero of %s", t)
	return nil
}

var flitVal = map[*Term]float64{}

func mkFloat(f float64) *Term {
	if f == 0 {
		f = 0 // drop sign of zero is not done: +0 only arises from constants
	}
	t := tb.mk("flit", sF64, sanitize(fmt.Sprintf("%x", f)))
	flitVal[t] = f
	return t
}

// type tags for interface values
var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	k := typeKey(t)
	n, ok := typeTags[k]
	if !ok {
		n = int64(len(typeTags) + 1)
		typeTags[k] = n
		tagTypes[n] = t
	}
	return mkI(n)
}

// ifaceCtor: which Iface constructor holds a value of type t
func ifaceCtor(t types.Type) (ctor, tsel, vsel string) {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return "ioth", "toth", "voth"
	}
	switch sortOf(t) {
	case sInt:
		return "iint", "tint", "vint"
	case sBool:
		return "ibool", "tbool", "vbool"
	case sSeq:
		return "istr", "tstr", "vstr"
	case sF64:
		return "if64", "tf64", "vf64"
	case sRef:
		return "iref", "tref", "vref"
	case sSlice:
		return "islice", "tslice", "vslice"
	case sFn:
		return "ifn", "tfn", "vfn"
	}
	return "ioth", "toth", "voth"
}

func mkIface(v Val, t types.Type, assume func(*Term)) *Term {
	c, _, _ := ifaceCtor(t)
	if c == "ioth" {
		x := toTerm(v, t)
		// box: injective function of the value
		b := mkApp("box$"+x.sort, sInt, x)
		if assume != nil {
			assume(tb.mk("=", "Bool", "", mkApp("unbox$"+x.sort, x.sort, b), x))
		}
		boxVal[b] = x
		return mkCtor("ioth", sIface, typeTag(t), b)
	}
	if p, ok := v.(*PtrV); ok {
		// interior pointer in an interface: keep it out of band
		x := freshVar("ptr", sRef)
		ptrTerms[x] = p
		return mkCtor(c, sIface, typeTag(t), x)
	}
	return mkCtor(c, sIface, typeTag(t), toTerm(v, t))
}

var ptrTerms = map[*Term]*PtrV{}
var boxVal = map[*Term]*Term{}

func ifaceIs(i *Term, t types.Type) *Term {
	c, ts, _ := ifaceCtor(t)
	return mkAnd(mkIs(c, i), mkEq(sel(ts, i), typeTag(t)))
}

func ifaceGet(i *Term, t types.Type) Val {
	c, _, vs := ifaceCtor(t)
	if c == "ioth" {
		b := sel(vs, i)
		if x, ok := boxVal[b]; ok {
			return fromTerm(x, t)
		}
		return fromTerm(mkApp("unbox$"+sortOf(t), sortOf(t), b), t)
	}
	v := sel(vs, i)
	if p, ok := ptrTerms[v]; ok {
		return p
	}
	if c == "iint" {
		return fromTerm(mkVint(i, typeTag(t).iv.Int64()), t)
	}
	return fromTerm(v, t)
}

// mkVint: the integer of a given type held by an interface value. It is a defined
// function (see smt.go) that is 0 when the interface holds something else, so that
// its range holds of every term and not only under the matching type case.
func mkVint(i *Term, tag int64) *Term {
	if i.op == "ctor:iint" && isInt(i.args[0]) && i.args[0].iv.Int64() == tag {
		return i.args[1]
	}
	if i.op == "ite" {
		a, b := mkVintOpt(i.args[1], tag), mkVintOpt(i.args[2], tag)
		if a != nil && b != nil {
			return mkIte(i.args[0], a, b)
		}
	}
	r := mkApp(fmt.Sprintf("vint$%d", tag), sInt, i)
	if lo, hi, ok := intRange(tagTypes[tag]); ok {
		withRange(r, lo, hi)
	}
	return r
}

func mkVintOpt(i *Term, tag int64) *Term {
	if i.op == "ctor:iint" && isInt(i.args[0]) && i.args[0].iv.Int64() == tag {
		return i.args[1]
	}
	if i.op == "ite" {
		a, b := mkVintOpt(i.args[1], tag), mkVintOpt(i.args[2], tag)
		if a != nil && b != nil {
			return mkIte(i.args[0], a, b)
		}
	}
	return nil
}
