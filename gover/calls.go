package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	in   ssa.Instruction
	pos  token.Pos
	args []Val
	sig  *types.Signature
	name string
	fr   *Frame
	key  string
	fn   *ssa.Function
}

func (c *callCtx) t(i int) *Term { return c.args[i].(*Term) }
func (c *callCtx) rt(i int) types.Type {
	return c.sig.Results().At(i).Type()
}

type modelFn func(ex *Exec, st *State, c *callCtx) []*retState

var models = map[string]modelFn{}

func ret(st *State, vs ...Val) []*retState { return []*retState{{st, vs}} }

// namedTag: tag of an opaque dynamic type (external, unexported)
var namedTags = map[string]int64{}

func namedTag(n string) *Term {
	k := "!" + n
	v, ok := typeTags[k]
	if !ok {
		v = int64(len(typeTags) + 1)
		typeTags[k] = v
	}
	return mkI(v)
}

func (ex *Exec) newErr(st *State, what string) *Term {
	return mkCtor("iref", sIface, namedTag("error:"+what), ex.newObj(st))
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func posOf(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	return in.Pos()
}

func instrKey(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", in.Block().Index, i)
		}
	}
	return "?"
}

func (ex *Exec) callCommon(fr *Frame, st *State, c *ssa.CallCommon, in ssa.Instruction, args []Val, fnv Val) []*retState {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, b, c, in, args)
	}
	if c.IsInvoke() {
		return ex.invoke(fr, st, c, in, args, fnv)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if f, ok := fnv.(*FnV); ok {
			binds = f.binds
		}
		return ex.callFn(fr, st, fn, args, binds, in)
	}
	return ex.callDyn(fr, st, c.Signature(), in, args, fnv)
}

// forkIte enumerates the leaves of an ite tree, forking the state on its conditions.
func forkIte(st *State, t *Term, max int) (sts []*State, leaves []*Term) {
	if t.op != "ite" || max <= 0 {
		return []*State{st}, []*Term{t}
	}
	c := t.args[0]
	switch st.decide(c) {
	case 1:
		return forkIte(st, t.args[1], max)
	case -1:
		return forkIte(st, t.args[2], max)
	}
	s2 := st.clone()
	if st.assume(c) {
		a, b := forkIte(st, t.args[1], max-1)
		sts, leaves = append(sts, a...), append(leaves, b...)
	}
	if s2.assume(mkNot(c)) {
		a, b := forkIte(s2, t.args[2], max-1)
		sts, leaves = append(sts, a...), append(leaves, b...)
	}
	return
}

func (ex *Exec) callDyn(fr *Frame, st *State, sig *types.Signature, in ssa.Instruction, args []Val, fnv Val) []*retState {
	switch f := fnv.(type) {
	case *FnV:
		return ex.callFn(fr, st, f.fn, args, f.binds, in)
	case *Term:
		if g, ok := fnTerms[f]; ok {
			return ex.callFn(fr, st, g.fn, args, g.binds, in)
		}
		if f.op == "ite" {
			allKnown := true
			var leaf func(t *Term)
			leaf = func(t *Term) {
				if t.op == "ite" {
					leaf(t.args[1])
					leaf(t.args[2])
				} else if fnTerms[t] == nil && t != tNilFn {
					allKnown = false
				}
			}
			leaf(f)
			n := 0
			for _, x := range collect([]*Term{f}) {
				if x.op == "ite" {
					n++
				}
			}
			if allKnown && n < 8 {
				var out []*retState
				sts, ls := forkIte(st, f, 10)
				for i := range sts {
					out = append(out, ex.callDyn(fr, sts[i], sig, in, args, ls[i])...)
				}
				return out
			}
		}
		ex.check(st, mkNot(mkEq(f, tNilFn)), "nil", posOf(in), "call of nil function")
		if st.dead {
			return nil
		}
		known := false
		if n, ok := callType(in).(*types.Named); ok {
			key := ex.pr.functypeKey(n)
			if sp := ex.pr.sp.funcs[key]; sp != nil {
				ex.used[key], known = true, true
				cf := ex.newFrame(fr.fn, fr, fr.key+"/"+instrKey(in))
				for i, a := range args {
					nm := fmt.Sprintf("p%d", i)
					cf.params[nm], cf.ptypes[nm] = a, sig.Params().At(i).Type()
				}
				env := &specEnv{ex: ex, fr: cf, st: st, old: st, noLocals: true}
				for _, cl := range sp.requires {
					ex.check(st, env.boolOf(cl.expr), "pre", posOf(in), "precondition of function type "+key[5:]+": "+cl.text, cl.tags...)
				}
				if st.dead {
					return nil
				}
			}
		}
		if !known {
			ex.trusted["dynamic function values of type "+sig.String()+" are total and free of side effects"] = true
		} else {
			ex.note("function values of type " + sig.String() + ": every function of the repository used as one is verified against the type's contract; function values are built from earlier ones only, so calls through them end")
		}
		ts := []*Term{f}
		for i, a := range args {
			ts = append(ts, ex.pureArg(st, a, sig.Params().At(i).Type()))
		}
		return ex.pureRes(st, dynName(sig), ts, sig.Results())
	}
	unsup("dynamic call through %T", fnv)
	return nil
}

func dynName(sig *types.Signature) string { return "dyn$" + sanitize(sig.String()) }

// pureArg abstracts an argument to a term (byte/string content for slices).
func (ex *Exec) pureArg(st *State, a Val, t types.Type) *Term {
	if s, ok := under(t).(*types.Slice); ok {
		x := a.(*Term)
		if sortOf(s.Elem()) == sInt {
			return ex.seqOf(st, x, s.Elem())
		}
		if x.op == "ctor:mkslice" && isInt(slLen(x)) && slLen(x).iv.IsInt64() && slLen(x).iv.Int64() <= 12 {
			n := slLen(x).iv.Int64()
			r := mkApp(fmt.Sprintf("vec%d", 0), "Vec")
			for i := int64(0); i < n; i++ {
				e := ex.elemAt(st, slRef(x), mkAdd(slOff(x), mkI(i)), s.Elem())
				et := toTerm(e, s.Elem())
				r = mkApp("vcons$"+et.sort, "Vec", r, et)
			}
			return r
		}
		return mkApp("vslice$"+sanitize(sortOf(s.Elem())), "Vec", ex.arrAt(st, slRef(x), s.Elem()), slOff(x), slLen(x))
	}
	switch x := a.(type) {
	case *PtrV:
		// pointer into a cell: abstract by its content
		return mkApp("ptrto$"+sanitize(typeKey(x.typ)), sRef, toTerm(ex.load(st, x, x.typ), x.typ))
	}
	return toTerm(a, t)
}

func (ex *Exec) pureRes(st *State, name string, ts []*Term, res *types.Tuple) []*retState {
	var vs []Val
	for i := 0; i < res.Len(); i++ {
		n := name
		if res.Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		vs = append(vs, ex.pureVal(st, n, ts, res.At(i).Type()))
	}
	return ret(st, vs...)
}

func (ex *Exec) pureVal(st *State, name string, ts []*Term, t types.Type) Val {
	if sl, ok := under(t).(*types.Slice); ok {
		// a fresh slice whose contents are a function of the arguments
		if sortOf(sl.Elem()) == sInt {
			q := mkApp(name, sSeq, ts...)
			return ex.sliceFromSeq(st, q, sl.Elem())
		}
		r := ex.newObj(st)
		arr := mkApp(name+"$arr", arrSort(sortOf(sl.Elem())), ts...)
		ex.setArr(st, r, sl.Elem(), arr)
		n := withRange(mkApp(name+"$len", sInt, ts...), big0, maxLen)
		return mkSlice(r, mkI(0), n, n)
	}
	if _, ok := under(t).(*types.Pointer); ok {
		return ex.freshVal(st, name, t)
	}
	x := mkApp(name, sortOf(t), ts...)
	rangeBy(x, t)
	if !isStruct(t) {
		ex.wf(st, x, t, st.ctr)
	}
	return fromTerm(x, t)
}

func (ex *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, in ssa.Instruction, args []Val, fnv Val) []*retState {
	i := fnv.(*Term)
	ex.check(st, mkNot(mkEq(i, tINil)), "nil", posOf(in), "method call on nil interface")
	if st.dead {
		return nil
	}
	m := c.Method
	if i.op == "ite" {
		ok := true
		for _, x := range collect([]*Term{i}) {
			_ = x
		}
		sts, ls := forkIte(st, i, 4)
		if ok && len(sts) > 1 {
			var out []*retState
			for k := range sts {
				if ls[k] == tINil {
					continue
				}
				out = append(out, ex.invoke(fr, sts[k], c, in, args, ls[k])...)
			}
			return out
		}
		if len(ls) == 1 {
			i = ls[0]
		}
	}
	callOn := func(st *State, t types.Type) []*retState {
		fn := ex.pr.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			unsup("method %s of %s", m.Name(), t)
		}
		rv := ifaceGet(i, t)
		return ex.callFn(fr, st, fn, append([]Val{rv}, args...), nil, in)
	}
	if isCtor(i) && isInt(i.args[0]) {
		if t := tagTypes[i.args[0].iv.Int64()]; t != nil {
			return callOn(st, t)
		}
	}
	it := c.Value.Type()
	cc := &callCtx{in: in, pos: posOf(in), args: append([]Val{i}, args...), sig: c.Signature(), name: "(" + typeKey(it) + ")." + m.Name(), fr: fr}
	if f, ok := models[cc.name]; ok {
		return f(ex, st, cc)
	}
	// closed world for interfaces declared in the repository
	if n, ok := types.Unalias(it).(*types.Named); ok && ex.pr.inRepo(n.Obj().Pkg()) {
		impls := ex.pr.implementers(under(it).(*types.Interface))
		if len(impls) == 1 {
			t := impls[0]
			ex.note("closed world: the only implementation of " + typeKey(it) + " is " + t.String())
			if st.assume(ifaceIs(i, t)) {
				if sortOf(t) == sRef {
					st.assume(mkNot(mkEq(sel("vref", i), tNull)))
				}
				return callOn(st, t)
			}
			return nil
		}
	}
	return ex.havocCall(st, cc, c.Signature())
}

func (ex *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, in ssa.Instruction) []*retState {
	switch fn.Name() {
	case "verifAssume":
		st.assume(args[0].(*Term))
		return ret(st)
	case "verifAssert":
		tag := ""
		if l, ok := args[1].(*Term); ok && l.op == "lit" {
			tag = litVal[l]
		}
		text := tag
		if i := strings.IndexByte(tag, ' '); i > 0 {
			tag, text = tag[:i], tag[i+1:]
		}
		ex.check(st, args[0].(*Term), "lemma", posOf(in), text, tag)
		return ret(st)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	cc := &callCtx{in: in, pos: posOf(in), args: args, sig: fn.Signature, name: name, fr: fr, fn: fn}
	ex.atCall(fr, st, fn, args, in)
	if f, ok := models[name]; ok {
		ex.trusted["model of "+name] = true
		return f(ex, st, cc)
	}
	inRepo := fn.Pkg != nil && ex.pr.inRepo(fn.Pkg.Pkg)
	if sp := ex.pr.spec(fn); sp != nil && sp.contract() && fn != ex.curFnOrNil() || sp != nil && sp.contract() && fn == ex.curFn {
		if !sp.inline && !(ex.pure > 0 && len(fn.Blocks) > 0 && !hasLoop(fn)) {
			return ex.applyContract(fr, st, sp, fn, args, binds, in)
		}
	}
	if len(fn.Blocks) > 0 && (inRepo || fn.Synthetic != "" || fn.Parent() != nil) {
		ex.inlined[shortName(fn)] = true
		return ex.runFunc(fn, args, binds, st, fr, fr.key+"/"+instrKey(in)+":"+fn.Name())
	}
	if pureName(name) {
		ex.trusted["pure function "+name] = true
		var ts []*Term
		ps := fn.Signature.Params()
		off := 0
		if fn.Signature.Recv() != nil {
			ts = append(ts, ex.pureArg(st, args[0], fn.Signature.Recv().Type()))
			off = 1
		}
		for i := 0; i < ps.Len(); i++ {
			ts = append(ts, ex.pureArg(st, args[i+off], ps.At(i).Type()))
		}
		return ex.pureRes(st, name, ts, fn.Signature.Results())
	}
	return ex.havocCall(st, cc, fn.Signature)
}

func (ex *Exec) curFnOrNil() *ssa.Function { return ex.curFn }

func pureName(n string) bool {
	for _, p := range []string{"strings.", "strconv.", "math.", "unicode", "path/filepath.", "time.", "(time.", "(*regexp.Regexp).", "regexp.", "net/url.", "errors.Is", "errors.Unwrap", "errors.As", "math/bits.", "path."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// havocCall: unknown external effect: results arbitrary, memory directly reachable from slice and pointer
// arguments arbitrary.
func (ex *Exec) havocCall(st *State, c *callCtx, sig *types.Signature) []*retState {
	ex.trusted["external "+c.name+": arbitrary results, writes only through its arguments, terminates"] = true
	harmless := false
	for _, p := range []string{"log.", "fmt.", "(*log.", "os.", "(*os.", "(*archive/zip.", "archive/zip.", "(io.Closer)", "(io.ReadCloser)", "(*encoding/csv.", "encoding/csv.", "(*bufio.", "bufio.", "encoding/xml.", "errors.", "(error)", "(fmt.Stringer)"} {
		if strings.HasPrefix(c.name, p) {
			harmless = true
		}
	}
	if !harmless {
		ps := sig.Params()
		off := len(c.args) - ps.Len()
		for i := 0; i < ps.Len(); i++ {
			switch u := under(ps.At(i).Type()).(type) {
			case *types.Slice:
				s, ok := c.args[off+i].(*Term)
				if ok {
					ex.setArr(st, slRef(s), u.Elem(), freshVar("hv", arrSort(sortOf(u.Elem()))))
				}
			case *types.Pointer:
				ex.store(st, c.args[off+i], u.Elem(), ex.freshVal(st, "hv", u.Elem()))
			}
		}
	}
	var vs []Val
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, ex.freshVal(st, "x_"+sanitize(c.name), res.At(i).Type()))
	}
	ex.errConv(st, vs, res)
	return ret(st, vs...)
}

// errConv: Go convention for (T, error) results of library functions: nil error means usable results.
func (ex *Exec) errConv(st *State, vs []Val, res *types.Tuple) {
	n := res.Len()
	if n < 2 || !isErrorType(res.At(n-1).Type()) {
		if n == 1 {
			if t, ok := vs[0].(*Term); ok && t.sort == sRef {
				st.assume(mkNot(mkEq(t, tNull)))
			}
		}
		return
	}
	okT := mkEq(vs[n-1].(*Term), tINil)
	for i := 0; i < n-1; i++ {
		t, ok := vs[i].(*Term)
		if !ok {
			continue
		}
		switch t.sort {
		case sRef:
			st.assume(mkImp(okT, mkNot(mkEq(t, tNull))))
		case sIface:
			st.assume(mkImp(okT, mkNot(mkEq(t, tINil))))
		}
	}
}

// ---- builtins ----

func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, in ssa.Instruction, args []Val) []*retState {
	switch b.Name() {
	case "len", "cap":
		x := args[0].(*Term)
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return ret(st, slCap(x))
			}
			return ret(st, slLen(x))
		case *types.Basic:
			return ret(st, qlen(x))
		case *types.Array:
			return ret(st, mkI(u.Len()))
		case *types.Pointer:
			return ret(st, mkI(under(u.Elem()).(*types.Array).Len()))
		case *types.Map:
			_, _, ml := mapKeys(u)
			l := withRange(mkSelect(ex.heapGet(st, ml, heapSort(sInt)), x, sInt), big0, maxLen)
			return ret(st, mkIte(mkEq(x, tNull), mkI(0), l))
		}
	case "append":
		return ex.appendB(st, c, in, args)
	case "copy":
		return ex.copyB(st, c, in, args)
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		m := args[0].(*Term)
		ks := sortOf(mt.Key())
		md, _, ml := mapKeys(mt)
		k := toTerm(args[1], mt.Key())
		d := mkSelect(ex.heapGet(st, md, heapSort(mapSort(ks, sBool))), m, mapSort(ks, sBool))
		had := mkSelect(d, k, sBool)
		l := withRange(mkSelect(ex.heapGet(st, ml, heapSort(sInt)), m, sInt), big0, maxLen)
		s2 := mkStore(d, k, tFals)
		ex.put(st, md, heapSort(mapSort(ks, sBool)), m, s2)
		ex.put(st, ml, heapSort(sInt), m, mkIte(had, mkSub(l, mkI(1)), l))
		return ret(st)
	case "print", "println":
		return ret(st)
	case "recover":
		return ret(st, tINil)
	case "min", "max":
		r := args[0].(*Term)
		if r.sort == sInt {
			for _, a := range args[1:] {
				t := a.(*Term)
				if b.Name() == "min" {
					r = mkIte(mkLe(r, t), r, t)
				} else {
					r = mkIte(mkLe(r, t), t, r)
				}
			}
			return ret(st, r)
		}
	case "ssa:wrapnilchk":
		ex.check(st, mkNot(mkEq(args[0].(*Term), tNull)), "nil", posOf(in), "nil receiver")
		return ret(st, args[0])
	case "ssa:deferstack":
		return ret(st, tNull)
	case "clear":
	}
	unsup("builtin %s", b.Name())
	return nil
}

func ite3(c, a, b *Term) *Term { return mkIte(c, a, b) }

func (ex *Exec) appendB(st *State, c *ssa.CallCommon, in ssa.Instruction, args []Val) []*retState {
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	es := sortOf(el)
	s := args[0].(*Term)
	var n *Term
	var elemAt func(k *Term) *Term
	var seq *Term // whole appended sequence for int elements
	if b, ok := under(c.Args[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		q := args[1].(*Term)
		n = qlen(q)
		elemAt = func(k *Term) *Term { return byteAt(q, k) }
		seq = q
	} else {
		y := args[1].(*Term)
		n = slLen(y)
		ya := ex.arrAt(st, slRef(y), el)
		elemAt = func(k *Term) *Term { return mkSelect(ya, mkAdd(slOff(y), k), es) }
		_ = seq
	}
	if n == mkI(0) {
		return ret(st, s)
	}
	ex.elemInv(st, el, func() (*Term, *Term) { return n, nil }, elemAt, in)
	l := slLen(s)
	nl := mkAdd(l, n)
	fits := mkLe(nl, slCap(s))
	if d := st.decide(fits); d > 0 {
		fits = tTrue
	} else if d < 0 {
		fits = tFals
	}
	var r2 *Term
	if fits != tTrue {
		r2 = ex.newObj(st)
	}
	oldA := ex.arrAt(st, slRef(s), el)
	a2 := oldA
	if isInt(n) && n.iv.IsInt64() && n.iv.Int64() <= 8 {
		for k := int64(0); k < n.iv.Int64(); k++ {
			a2 = mkStore(a2, mkAdd(slOff(s), l), elemAt(mkI(k)))
			if k > 0 {
				// handled below
			}
		}
		a2 = oldA
		for k := int64(0); k < n.iv.Int64(); k++ {
			a2 = mkStore(a2, mkAdd(mkAdd(slOff(s), l), mkI(k)), elemAt(mkI(k)))
		}
	} else {
		a2 = freshVar("app", arrSort(es))
		k := freshBound("k", sInt)
		base := mkAdd(slOff(s), l)
		e := mkSelect(a2, k, es)
		in1 := mkAnd(mkLe(base, k), mkLt(k, mkAdd(base, n)))
		st.assume(mkForall([]*Term{k}, mkImp(in1, mkEq(e, elemAt(mkSub(k, base)))), []*Term{e}))
		st.assume(mkForall([]*Term{k}, mkImp(mkNot(in1), mkEq(e, mkSelect(oldA, k, es))), []*Term{e}))
		heapBirth[a2] = st.ctr
	}
	var rr, cp *Term
	switch {
	case fits == tTrue:
		rr, cp = slRef(s), slCap(s)
	default:
		nc := freshVar("cap", sInt)
		if ex.pure > 0 {
			nc = nl
		}
		if ex.pure == 0 {
			withRange(nc, big0, maxLen)
		}
		st.assume(mkLe(nl, nc))
		if fits == tFals {
			rr, cp = r2, nc
		} else {
			rr, cp = mkIte(fits, slRef(s), r2), mkIte(fits, slCap(s), nc)
		}
	}
	ex.setArr(st, rr, el, a2)
	return ret(st, mkSlice(rr, slOff(s), nl, cp))
}

// elemInv: refinement "elements of this type are never nil" must hold for everything stored
func (ex *Exec) elemInv(st *State, el types.Type, cnt func() (*Term, *Term), elemAt func(k *Term) *Term, in ssa.Instruction) {
	if !ex.pr.nonnilElem(el) {
		return
	}
	n, _ := cnt()
	if isInt(n) && n.iv.IsInt64() && n.iv.Int64() <= 8 {
		for k := int64(0); k < n.iv.Int64(); k++ {
			ex.check(st, notNil(elemAt(mkI(k))), "typeinv", posOf(in), "nil element stored in []"+typeKey(el))
		}
		return
	}
	// copied from a slice of the same element type: holds by the refinement of the source
}

func notNil(t *Term) *Term {
	switch t.sort {
	case sRef:
		return mkNot(mkEq(t, tNull))
	case sIface:
		return mkNot(mkEq(t, tINil))
	case sFn:
		return mkNot(mkEq(t, tNilFn))
	}
	return tTrue
}

func (ex *Exec) copyB(st *State, c *ssa.CallCommon, in ssa.Instruction, args []Val) []*retState {
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	es := sortOf(el)
	d := args[0].(*Term)
	var sl *Term
	var srcAt func(k *Term) *Term
	if b, ok := under(c.Args[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		q := args[1].(*Term)
		sl = qlen(q)
		srcAt = func(k *Term) *Term { return byteAt(q, k) }
	} else {
		y := args[1].(*Term)
		sl = slLen(y)
		ya := ex.arrAt(st, slRef(y), el)
		srcAt = func(k *Term) *Term { return mkSelect(ya, mkAdd(slOff(y), k), es) }
	}
	le := mkLe(slLen(d), sl)
	var n *Term
	switch st.decide(le) {
	case 1:
		n = slLen(d)
	case -1:
		n = sl
	default:
		n = mkIte(le, slLen(d), sl)
	}
	ex.copyInto(st, d, el, n, srcAt)
	return ret(st, n)
}

func (ex *Exec) copyInto(st *State, d *Term, el types.Type, n *Term, srcAt func(k *Term) *Term) {
	es := sortOf(el)
	oldA := ex.arrAt(st, slRef(d), el)
	a2 := oldA
	if isInt(n) && n.iv.IsInt64() && n.iv.Int64() <= 16 {
		for k := int64(0); k < n.iv.Int64(); k++ {
			a2 = mkStore(a2, mkAdd(slOff(d), mkI(k)), srcAt(mkI(k)))
		}
	} else {
		a2 = freshVar("cpy", arrSort(es))
		k := freshBound("k", sInt)
		e := mkSelect(a2, k, es)
		in1 := mkAnd(mkLe(slOff(d), k), mkLt(k, mkAdd(slOff(d), n)))
		st.assume(mkForall([]*Term{k}, mkImp(in1, mkEq(e, srcAt(mkSub(k, slOff(d))))), []*Term{e}))
		st.assume(mkForall([]*Term{k}, mkImp(mkNot(in1), mkEq(e, mkSelect(oldA, k, es))), []*Term{e}))
		heapBirth[a2] = st.ctr
	}
	ex.setArr(st, slRef(d), el, a2)
}

// ---- external models ----

func leBytes(at func(k int64) *Term, n int) *Term {
	r := mkI(0)
	for i := n - 1; i >= 0; i-- {
		r = mkAdd(mkMul(r, mkI(256)), at(int64(i)))
	}
	return r
}

var tByte = types.Typ[types.Uint8]

func (ex *Exec) byteOf(st *State, s *Term, k *Term) *Term {
	a := ex.arrAt(st, slRef(s), tByte)
	return rangeBy(mkSelect(a, mkAdd(slOff(s), k), sInt), tByte)
}

func init() {
	for _, w := range []int{2, 4, 8} {
		w := w
		bits := fmt.Sprint(w * 8)
		models["(encoding/binary.littleEndian).Uint"+bits] = func(ex *Exec, st *State, c *callCtx) []*retState {
			s := c.t(1)
			ex.check(st, mkLe(mkI(int64(w)), slLen(s)), "index", c.pos, "binary.LittleEndian.Uint"+bits+": slice too short")
			if st.dead {
				return nil
			}
			return ret(st, leBytes(func(k int64) *Term { return ex.byteOf(st, s, mkI(k)) }, w))
		}
		models["(encoding/binary.littleEndian).PutUint"+bits] = func(ex *Exec, st *State, c *callCtx) []*retState {
			s := c.t(1)
			ex.check(st, mkLe(mkI(int64(w)), slLen(s)), "index", c.pos, "binary.LittleEndian.PutUint"+bits+": slice too short")
			if st.dead {
				return nil
			}
			a := ex.arrAt(st, slRef(s), tByte)
			for k := 0; k < w; k++ {
				a = mkStore(a, mkAdd(slOff(s), mkI(int64(k))), mkMod(mkDiv(c.t(2), pow2(8*k)), mkI(256)))
			}
			ex.setArr(st, slRef(s), tByte, a)
			return ret(st)
		}
	}
	newErrModel := func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, ex.newErr(st, "new"))
	}
	models["errors.New"] = newErrModel
	models["fmt.Errorf"] = newErrModel
	noop := func(ex *Exec, st *State, c *callCtx) []*retState { return ret(st) }
	for _, n := range []string{"log.Println", "log.Printf", "log.Print", "(*sync.Pool).Put", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock"} {
		models[n] = noop
	}
	models["log.Fatal"] = func(ex *Exec, st *State, c *callCtx) []*retState { return nil }

	readAll := func(ex *Exec, st *State, c *callCtx) []*retState {
		s2 := st.clone()
		r := ex.newObj(st)
		n := freshVar("rdlen", sInt)
		withRange(n, big0, new(big.Int).Lsh(big1, 40))
		a := freshVar("rdall", arrSort(sInt))
		ex.setArr(st, r, tByte, a)
		cp := freshVar("cap", sInt)
		withRange(cp, big0, maxLen)
		st.assume(mkLe(n, cp))
		out := ret(st, mkSlice(r, mkI(0), n, cp), tINil)
		return append(out, ret(s2, ex.freshVal(s2, "rderr", c.rt(0)), ex.newErr(s2, "read"))...)
	}
	models["io/ioutil.ReadAll"] = readAll
	models["io.ReadAll"] = readAll

	models["bytes.NewReader"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		t := c.rt(0).Underlying().(*types.Pointer).Elem()
		r := ex.newObj(st)
		ex.store(st, r, t, zeroOf(t))
		ex.storeField(st, r, t, fieldIdx(t, "s"), c.args[0])
		return ret(st, r)
	}
	models["(*bytes.Reader).Seek"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		t := c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		br := c.t(0)
		ex.nilCheck(st, br, c.pos)
		i := ex.loadField(st, br, t, fieldIdx(t, "i")).(*Term)
		s := ex.loadField(st, br, t, fieldIdx(t, "s")).(*Term)
		wh := c.t(2)
		abs := mkIte(mkEq(wh, mkI(0)), c.t(1), mkIte(mkEq(wh, mkI(1)), mkAdd(i, c.t(1)), mkAdd(slLen(s), c.t(1))))
		ok := mkAnd(mkLe(mkI(0), wh), mkLe(wh, mkI(2)), mkLe(mkI(0), abs))
		s2 := st.clone()
		var out []*retState
		if st.assume(ok) {
			ex.storeField(st, br, t, fieldIdx(t, "i"), abs)
			out = append(out, ret(st, abs, tINil)...)
		}
		if s2.assume(mkNot(ok)) {
			out = append(out, ret(s2, mkI(0), ex.newErr(s2, "seek"))...)
		}
		return out
	}
	models["encoding/binary.Read"] = binRead
	models["encoding/binary.Write"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		w, data := c.t(0), c.t(2)
		if !isCtor(data) || !isInt(data.args[0]) {
			unsup("binary.Write of unknown type")
		}
		t := tagTypes[data.args[0].iv.Int64()]
		bits, _ := bitsOf(t)
		n := bits / 8
		v := data.args[1]
		r := ex.newObj(st)
		a := mkConstArr(arrSort(sInt), mkI(0))
		for k := 0; k < n; k++ {
			a = mkStore(a, mkI(int64(k)), mkMod(mkDiv(v, pow2(8*k)), mkI(256)))
		}
		ex.setArr(st, r, tByte, a)
		sl := mkSlice(r, mkI(0), mkI(int64(n)), mkI(int64(n)))
		// w.Write(sl)
		impls := ex.pr.implementersOfMethod(w, "Write")
		if ci, ok := c.in.(ssa.CallInstruction); ok && impls == nil {
			impls = ex.pr.closedWorld(ci.Common().Args[0])
			if len(impls) == 1 {
				ex.check(st, mkNot(mkEq(w, tINil)), "nil", c.pos, "method call on nil interface")
				ex.note("closed world: the only implementation of the writer is " + impls[0].String())
			}
		}
		if len(impls) != 1 {
			unsup("binary.Write to unknown writer")
		}
		if !isCtor(w) && !st.assume(ifaceIs(w, impls[0])) {
			return nil
		}
		if !isCtor(w) && sortOf(impls[0]) == sRef {
			st.assume(mkNot(mkEq(sel("vref", w), tNull)))
		}
		fn := ex.pr.prog.LookupMethod(impls[0], nil, "Write")
		var out []*retState
		for _, r := range ex.callFn(c.fr, st, fn, []Val{ifaceGet(w, impls[0]), sl}, nil, c.in) {
			out = append(out, &retState{r.st, []Val{r.vals[1]}})
		}
		return out
	}
	models["unicode/utf16.Decode"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		q := mkApp("u16dec", sSeq, ex.seqOf(st, c.t(0), types.Typ[types.Uint16]))
		return ret(st, ex.sliceFromSeq(st, q, types.Typ[types.Rune]))
	}
	s := freshBound("s", sSeq)
	ud := mkApp("u16dec", sSeq, s)
	addAxiom("u16dec.len", mkForall([]*Term{s}, mkAnd(mkLe(mkApp("qlen", sInt, ud), mkApp("qlen", sInt, s)), mkLe(mkApp("qlen", sInt, s), mkMul(mkI(2), mkApp("qlen", sInt, ud)))), []*Term{ud}), "u16dec")

	models["crypto/md5.Sum"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, mkApp("md5", arrSort(sInt), ex.seqOf(st, c.t(0), tByte)))
	}
	models["crypto/md5.New"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		r := ex.newObj(st)
		ex.put(st, "X|md5seq", heapSort(sSeq), r, mkLit(""))
		return ret(st, mkCtor("iref", sIface, namedTag("*md5.digest"), r))
	}
	models["(hash.Hash).Write"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		r := sel("vref", c.t(0))
		h := ex.heapGet(st, "X|md5seq", heapSort(sSeq))
		ex.put(st, "X|md5seq", heapSort(sSeq), r, qcat(mkSelect(h, r, sSeq), ex.seqOf(st, c.t(1), tByte)))
		return ret(st, slLen(c.t(1)), tINil)
	}
	models["(hash.Hash).Sum"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		r := sel("vref", c.t(0))
		h := ex.heapGet(st, "X|md5seq", heapSort(sSeq))
		d := mkApp("md5", arrSort(sInt), mkSelect(h, r, sSeq))
		if st.decide(mkEq(slLen(c.t(1)), mkI(0))) <= 0 {
			unsup("hash.Sum onto a non-empty slice")
		}
		nr := ex.newObj(st)
		ex.setArr(st, nr, tByte, d)
		return ret(st, mkSlice(nr, mkI(0), mkI(16), mkI(16)))
	}
	models["crypto/rc4.NewCipher"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		k := c.t(0)
		ok := mkAnd(mkLe(mkI(1), slLen(k)), mkLe(slLen(k), mkI(256)))
		s2 := st.clone()
		var out []*retState
		if st.assume(ok) {
			r := ex.newObj(st)
			ex.put(st, "X|rc4key", heapSort(sSeq), r, ex.seqOf(st, k, tByte))
			ex.put(st, "X|rc4pos", heapSort(sInt), r, mkI(0))
			out = append(out, ret(st, r, tINil)...)
		}
		if s2.assume(mkNot(ok)) {
			out = append(out, ret(s2, tNull, ex.newErr(s2, "rc4"))...)
		}
		return out
	}
	models["(*crypto/rc4.Cipher).XORKeyStream"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		d, src := c.t(1), c.t(2)
		r := c.t(0)
		ex.nilCheck(st, r, c.pos)
		ex.check(st, mkLe(slLen(src), slLen(d)), "index", c.pos, "rc4: output smaller than input")
		if st.dead {
			return nil
		}
		key := mkSelect(ex.heapGet(st, "X|rc4key", heapSort(sSeq)), r, sSeq)
		pos := mkSelect(ex.heapGet(st, "X|rc4pos", heapSort(sInt)), r, sInt)
		sa := ex.arrAt(st, slRef(src), tByte)
		ex.copyInto(st, d, tByte, slLen(src), func(k *Term) *Term {
			return bxor(rangeBy(mkSelect(sa, mkAdd(slOff(src), k), sInt), tByte), mkApp("ks", sInt, key, mkAdd(pos, k)))
		})
		ex.put(st, "X|rc4pos", heapSort(sInt), r, mkAdd(pos, slLen(src)))
		return ret(st)
	}
	x, y := freshBound("x", sInt), freshBound("y", sInt)
	bx := mkApp("bxor", sInt, x, y)
	addAxiom("bxor.range", mkForall([]*Term{x, y}, mkAnd(mkLe(mkI(0), bx), mkLe(bx, mkI(255))), []*Term{bx}), "bxor")

	bufSeq := func(ex *Exec, st *State, r *Term) *Term {
		return mkSelect(ex.heapGet(st, "X|bufseq", heapSort(sSeq)), r, sSeq)
	}
	models["(*bytes.Buffer).Write"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		r := c.t(0)
		ex.put(st, "X|bufseq", heapSort(sSeq), r, qcat(bufSeq(ex, st, r), ex.seqOf(st, c.t(1), tByte)))
		return ret(st, slLen(c.t(1)), tINil)
	}
	models["(*bytes.Buffer).Reset"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		ex.put(st, "X|bufseq", heapSort(sSeq), c.t(0), mkLit(""))
		return ret(st)
	}
	models["(*bytes.Buffer).Bytes"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, ex.sliceFromSeq(st, bufSeq(ex, st, c.t(0)), tByte))
	}
	models["(*bytes.Buffer).Len"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, qlen(bufSeq(ex, st, c.t(0))))
	}
	models["(*bytes.Buffer).Read"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		ex.put(st, "X|bufseq", heapSort(sSeq), c.t(0), freshVar("bufrest", sSeq))
		d := c.t(1)
		ex.setArr(st, slRef(d), tByte, freshVar("bufrd", arrSort(sInt)))
		n := freshVar("n", sInt)
		withRange(n, big0, maxLen)
		st.assume(mkLe(n, slLen(d)))
		return ret(st, n, ex.freshVal(st, "err", c.rt(1)))
	}
	models["(*sync.Pool).Get"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		t := ex.pr.poolType(c.fr.fn)
		if t == nil {
			unsup("sync.Pool with unknown element type")
		}
		ex.note("sync.Pool.Get returns an object of the pooled type that nothing else references, with arbitrary contents")
		r := ex.newObj(st)
		el := t.Underlying().(*types.Pointer).Elem()
		ex.store(st, r, el, ex.freshVal(st, "pooled", el))
		return ret(st, mkIface(r, t, nil))
	}
	models["(*encoding/xml.Decoder).RawToken"] = rawToken
	models["(*encoding/xml.Decoder).Token"] = rawToken
	models["(*bufio.Scanner).Scan"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		s2 := st.clone()
		ex.useTok(st)
		return append(ret(st, tTrue), ret(s2, tFals)...)
	}
	models["(*bufio.Scanner).Text"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		t := st.ghosts["toks"]
		if t == nil {
			return ret(st, ex.freshVal(st, "scantext", c.rt(0)))
		}
		return ret(st, mkApp("scantext", sSeq, c.t(0), t))
	}
	models["(*bufio.Scanner).Err"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		t := st.ghosts["toks"]
		if t == nil {
			return ret(st, ex.freshVal(st, "scanerr", c.rt(0)))
		}
		return ret(st, mkApp("scanerr", sIface, c.t(0), t))
	}
	models["(*encoding/csv.Reader).Read"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		s2 := st.clone()
		ex.useTok(st)
		out := ret(st, ex.freshVal(st, "csvrec", c.rt(0)), tINil)
		e := ex.freshVal(s2, "csverr", c.rt(1)).(*Term)
		s2.assume(mkNot(mkEq(e, tINil)))
		return append(out, ret(s2, ex.freshVal(s2, "csvrec", c.rt(0)), e)...)
	}
	models["sort.Slice"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		i := c.t(0)
		if !isCtor(i) || i.op != "ctor:islice" {
			unsup("sort.Slice")
		}
		t := tagTypes[i.args[0].iv.Int64()]
		el := under(t).(*types.Slice).Elem()
		x := i.args[1]
		a0, a1 := ex.arrAt(st, slRef(x), el), freshVar("sorted", arrSort(sortOf(el)))
		ex.setArr(st, slRef(x), el, a1)
		// the elements are those of before in another order; the rest of the array is unchanged
		at := func(a, k *Term) *Term { return mkSelect(a, k, sortOf(el)) }
		in := func(k *Term) *Term { return mkAnd(mkLe(slOff(x), k), mkLt(k, mkAdd(slOff(x), slLen(x)))) }
		p, q := a1.name+"$p", a1.name+"$q"
		k := freshBound("k", sInt)
		pk, qk := mkApp(p, sInt, k), mkApp(q, sInt, k)
		st.assume(mkForall([]*Term{k}, mkImp(mkNot(in(k)), mkEq(at(a1, k), at(a0, k))), []*Term{at(a1, k)}))
		st.assume(mkForall([]*Term{k}, mkImp(in(k), mkAnd(in(pk), mkEq(at(a1, k), at(a0, pk)), mkEq(mkApp(q, sInt, pk), k))), []*Term{at(a1, k)}))
		st.assume(mkForall([]*Term{k}, mkImp(in(k), mkAnd(in(qk), mkEq(at(a0, k), at(a1, qk)), mkEq(mkApp(p, sInt, qk), k))), []*Term{at(a0, k)}))
		// and they are in order: no later element is less than an earlier one
		var f *FnV
		switch v := c.args[1].(type) {
		case *FnV:
			f = v
		case *Term:
			f = fnTerms[v]
		}
		if f != nil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
						ex.note("sort.Slice: the order of the result is not known")
					}
				}()
				b1, b2 := freshBound("i", sInt), freshBound("j", sInt)
				env := &specEnv{ex: ex, fr: c.fr, st: st, old: st}
				v := env.pureCallBinds(f.fn, []Val{b2, b1}, f.binds)
				rng := mkAnd(mkLe(mkI(0), b1), mkLt(b1, b2), mkLt(b2, slLen(x)))
				st.assume(mkForall([]*Term{b1, b2}, mkImp(rng, mkNot(v.v.(*Term))), []*Term{at(a1, mkAdd(slOff(x), b1)), at(a1, mkAdd(slOff(x), b2))}))
				ex.trusted["sort.Slice sorts (its less function is a strict weak order)"] = true
			}()
		}
		return ret(st)
	}
	// strings
	idx := func(name string, inset func(c *callCtx, b *Term) *Term, last bool) {
		models[name] = func(ex *Exec, st *State, c *callCtx) []*retState {
			s := c.t(0)
			ts := []*Term{s, c.t(1)}
			r := mkApp(name, sInt, ts...)
			withRange(r, big.NewInt(-1), maxLen)
			st.assume(mkLt(r, qlen(s)))
			if inset != nil && inset(c, mkI(0)) != nil {
				st.assume(mkImp(mkLe(mkI(0), r), inset(c, byteAt(s, r))))
				k := freshBound("k", sInt)
				e := qat(s, k)
				g := mkAnd(mkLe(mkI(0), k), mkLt(k, qlen(s)))
				if last {
					st.assume(mkForall([]*Term{k}, mkImp(mkAnd(g, mkLt(r, k)), mkNot(inset(c, e))), []*Term{e}))
				} else {
					st.assume(mkForall([]*Term{k}, mkImp(mkAnd(g, mkOr(mkLt(k, r), mkLt(r, mkI(0)))), mkNot(inset(c, e))), []*Term{e}))
				}
			}
			return ret(st, r)
		}
	}
	anySet := func(c *callCtx, b *Term) *Term {
		l := c.t(1)
		if l.op != "lit" {
			return nil
		}
		var os []*Term
		for i := 0; i < len(litVal[l]); i++ {
			if litVal[l][i] >= 128 {
				return nil
			}
			os = append(os, mkEq(b, mkI(int64(litVal[l][i]))))
		}
		return mkOr(os...)
	}
	idx("strings.IndexAny", anySet, false)
	idx("strings.LastIndexAny", anySet, true)
	idx("strings.IndexByte", func(c *callCtx, b *Term) *Term { return mkEq(b, c.t(1)) }, false)
	idx("strings.LastIndexByte", func(c *callCtx, b *Term) *Term { return mkEq(b, c.t(1)) }, true)
	idx("strings.Index", nil, false)
	idx("strings.LastIndex", nil, false)
	models["strings.HasPrefix"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		s, p := c.t(0), c.t(1)
		if p.op == "lit" && len(litVal[p]) <= 16 {
			v := litVal[p]
			cs := []*Term{mkLe(mkI(int64(len(v))), qlen(s))}
			for i := 0; i < len(v); i++ {
				cs = append(cs, mkEq(byteAt(s, mkI(int64(i))), mkI(int64(v[i]))))
			}
			return ret(st, mkAnd(cs...))
		}
		r := mkApp("strings.HasPrefix", sBool, s, p)
		st.assume(mkImp(r, mkLe(qlen(p), qlen(s))))
		return ret(st, r)
	}
	models["strings.Split"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		s, p := c.t(0), c.t(1)
		r := ex.newObj(st)
		el := types.Typ[types.String]
		ex.setArr(st, r, el, mkApp("split$arr", arrSort(sSeq), s, p))
		n := withRange(mkApp("split$len", sInt, s, p), big0, maxLen)
		if p.op == "lit" && litVal[p] != "" {
			st.assume(mkLe(mkI(1), n))
		}
		return ret(st, mkSlice(r, mkI(0), n, n))
	}
	shorter := func(name string) {
		models[name] = func(ex *Exec, st *State, c *callCtx) []*retState {
			var ts []*Term
			for i := range c.args {
				ts = append(ts, c.t(i))
			}
			r := mkApp(name, sSeq, ts...)
			st.assume(mkLe(qlen(r), qlen(c.t(0))))
			return ret(st, r)
		}
	}
	for _, n := range []string{"strings.Trim", "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimRight"} {
		shorter(n)
	}
	nonEmpty := func(name string) {
		models[name] = func(ex *Exec, st *State, c *callCtx) []*retState {
			var ts []*Term
			for i := range c.args {
				ts = append(ts, c.t(i))
			}
			r := mkApp(name, sSeq, ts...)
			st.assume(mkLe(mkI(1), qlen(r)))
			return ret(st, r)
		}
	}
	nonEmpty("strconv.FormatInt")
	nonEmpty("strconv.FormatFloat")
	nonEmpty("strconv.Itoa")
	models["strconv.ParseInt"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		ts := []*Term{c.t(0), c.t(1), c.t(2)}
		v := mkApp("strconv.ParseInt#0", sInt, ts...)
		rangeBy(v, types.Typ[types.Int64])
		e := mkApp("strconv.ParseInt#1", sIface, ts...)
		ex.wf(st, e, c.rt(1), st.ctr)
		if isInt(c.t(2)) && c.t(2).iv.Int64() > 0 && c.t(2).iv.Int64() < 64 {
			h := pow2(int(c.t(2).iv.Int64()) - 1)
			st.assume(mkAnd(mkLe(mkNeg(h), v), mkLt(v, h)))
		}
		return ret(st, v, e)
	}
	models["(*regexp.Regexp).FindStringIndex"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		s2 := st.clone()
		s := c.t(1)
		r := ex.newObj(st)
		a, b := freshVar("loc0", sInt), freshVar("loc1", sInt)
		st.assume(mkAnd(mkLe(mkI(0), a), mkLe(a, b), mkLe(b, qlen(s))))
		arr := mkStore(mkStore(mkConstArr(arrSort(sInt), mkI(0)), mkI(0), a), mkI(1), b)
		ex.setArr(st, r, types.Typ[types.Int], arr)
		return append(ret(st, mkSlice(r, mkI(0), mkI(2), mkI(2))), ret(s2, tNilSlice)...)
	}
	models["(*regexp.Regexp).Split"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		n := freshVar("nsplit", sInt)
		withRange(n, big1, maxLen)
		if isInt(c.t(2)) && c.t(2).iv.Sign() > 0 {
			st.assume(mkLe(n, c.t(2)))
		}
		r := ex.newObj(st)
		ex.setArr(st, r, types.Typ[types.String], freshVar("splt", arrSort(sSeq)))
		return ret(st, mkSlice(r, mkI(0), n, n))
	}
	models["regexp.MustCompile"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, ex.newObj(st))
	}
	pureVariadic := func(name string) {
		models[name] = func(ex *Exec, st *State, c *callCtx) []*retState {
			var ts []*Term
			for i := range c.args {
				ts = append(ts, ex.pureArg(st, c.args[i], c.sig.Params().At(i).Type()))
			}
			return ex.pureRes(st, name, ts, c.sig.Results())
		}
	}
	pureVariadic("fmt.Sprint")
	sprint := models["fmt.Sprint"]
	models["fmt.Sprint"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		rs := sprint(ex, st, c)
		if va := c.t(0); isInt(slLen(va)) && slLen(va).iv.Int64() == 1 && len(rs) == 1 {
			// a text is printed as it is
			i := ex.elemAt(rs[0].st, slRef(va), slOff(va), types.NewInterfaceType(nil, nil)).(*Term)
			str := types.Typ[types.String]
			rs[0].vals[0] = mkIte(ifaceIs(i, str), ifaceGet(i, str).(*Term), rs[0].vals[0].(*Term))
		}
		return rs
	}
	pureVariadic("fmt.Sprintf")
	pureVariadic("fmt.Sprintln")
	models["fmt.Sscanf"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		str, f, va := c.t(0), c.t(1), c.t(2)
		if !isInt(slLen(va)) || slLen(va).iv.Int64() != 1 {
			unsup("fmt.Sscanf with several destinations")
		}
		okT := mkApp("sscan_ok", sBool, str, f)
		i := ex.elemAt(st, slRef(va), slOff(va), types.NewInterfaceType(nil, nil)).(*Term)
		if isCtor(i) && isInt(i.args[0]) {
			pt := tagTypes[i.args[0].iv.Int64()]
			el := pt.Underlying().(*types.Pointer).Elem()
			p := ifaceGet(i, pt)
			v := mkApp("sscan$"+sanitize(typeKey(el)), sortOf(el), str, f)
			rangeBy(v, el)
			ex.store(st, p, el, mkIte(okT, v, ex.load(st, p, el).(*Term)))
		} else {
			unsup("fmt.Sscanf destination")
		}
		e := mkIte(okT, tINil, ex.newErr(st, "sscanf"))
		return ret(st, mkIte(okT, mkI(1), mkI(0)), e)
	}
	models["(error).Error"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, mkApp("errtext", sSeq, c.t(0)))
	}
	models["(fmt.Stringer).String"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, mkApp("stringer", sSeq, c.t(0)))
	}
	// ---- time: a timestamp's instant in nanoseconds, a mathematical integer ----
	tinst := func(x *Term) *Term { return mkApp("tinstant", sInt, x) }
	tutc := func(x *Term) *Term { return mkApp("tutc", sBool, x) }
	day := mkInt(big.NewInt(86400000000000))
	for nm, f := range map[string]func(a, b *Term) *Term{"Before": mkLt, "Equal": mkEq, "After": func(a, b *Term) *Term { return mkLt(b, a) }} {
		f := f
		models["(time.Time)."+nm] = func(ex *Exec, st *State, c *callCtx) []*retState {
			ex.note("timestamps carry no monotonic clock reading: comparing them compares their instants")
			tt := timeType(c)
			return ret(st, f(tinst(toTerm(c.args[0], tt)), tinst(toTerm(c.args[1], tt))))
		}
	}
	models["time.Date"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		var ts []*Term
		for i := range c.args {
			ts = append(ts, ex.pureArg(st, c.args[i], c.sig.Params().At(i).Type()))
		}
		tt := c.rt(0)
		x := mkApp("time.Date", sortOf(tt), ts...)
		var k []int
		for _, a := range ts[:7] {
			if isInt(a) && a.iv.IsInt64() {
				k = append(k, int(a.iv.Int64()))
			}
		}
		if call, ok := c.in.(*ssa.Call); ok && len(k) == 7 {
			if u, ok := call.Call.Args[7].(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "UTC" && g.Pkg.Pkg.Path() == "time" {
					d := time.Date(k[0], time.Month(k[1]), k[2], k[3], k[4], k[5], k[6], time.UTC)
					v := new(big.Int).Mul(big.NewInt(d.Unix()), big.NewInt(1000000000))
					v.Add(v, big.NewInt(int64(d.Nanosecond())))
					st.assume(mkAnd(mkEq(tinst(x), mkInt(v)), tutc(x)))
				}
			}
		}
		return ret(st, fromTerm(x, tt))
	}
	models["(time.Time).AddDate"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		tt := c.rt(0)
		t := toTerm(c.args[0], tt)
		x := mkApp("time.AddDate", sortOf(tt), t, c.t(1), c.t(2), c.t(3))
		if isInt(c.t(1)) && c.t(1).iv.Sign() == 0 && isInt(c.t(2)) && c.t(2).iv.Sign() == 0 {
			ex.note("time.AddDate adds whole days to UTC timestamps (up to a billion days)")
			lim := mkI(1000000000)
			st.assume(mkImp(mkAnd(tutc(t), mkLe(mkNeg(lim), c.t(3)), mkLe(c.t(3), lim)), mkAnd(tutc(x), mkEq(tinst(x), mkAdd(tinst(t), mkMul(day, c.t(3)))))))
		}
		return ret(st, fromTerm(x, tt))
	}
	models["(time.Time).Add"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		tt := c.rt(0)
		t := toTerm(c.args[0], tt)
		x := mkApp("time.Add", sortOf(tt), t, c.t(1))
		st.assume(mkAnd(mkEq(tutc(x), tutc(t)), mkEq(tinst(x), mkAdd(tinst(t), c.t(1)))))
		return ret(st, fromTerm(x, tt))
	}
	models["math.Modf"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, mkApp("modf#0", sF64, c.t(0)), mkApp("modf#1", sF64, c.t(0)))
	}
	models["errors.Is"] = func(ex *Exec, st *State, c *callCtx) []*retState {
		return ret(st, mkOr(mkAnd(mkEq(c.t(0), c.t(1))), mkApp("errors.Is", sBool, c.t(0), c.t(1))))
	}
}

func timeType(c *callCtx) types.Type {
	if r := c.sig.Recv(); r != nil {
		return r.Type()
	}
	return c.sig.Params().At(0).Type()
}

func bxor(a, b *Term) *Term {
	if isInt(a) && isInt(b) && a.iv.Sign() >= 0 && b.iv.Sign() >= 0 {
		return mkInt(new(big.Int).Xor(a.iv, b.iv))
	}
	return mkApp("bxor", sInt, a, b)
}

func (ex *Exec) useTok(st *State) {
	t := st.ghosts["toks"]
	if t == nil {
		return
	}
	n := freshVar("toks", sInt)
	st.assume(mkAnd(mkLe(mkI(0), n), mkLt(n, t)))
	st.ghosts["toks"] = n
}

func rawToken(ex *Exec, st *State, c *callCtx) []*retState {
	ex.note("encoding/xml token streams are finite (each document is a finite byte string); tokens are arbitrary")
	s2 := st.clone()
	ex.useTok(st)
	pk := c.fn.Pkg.Pkg
	var alts []*Term
	i := ex.freshVal(st, "tok", c.rt(0)).(*Term)
	for _, n := range []string{"StartElement", "EndElement", "CharData", "Comment", "ProcInst", "Directive"} {
		t := pk.Scope().Lookup(n).Type()
		alts = append(alts, ifaceIs(i, t))
	}
	st.assume(mkOr(alts...))
	st.assume(mkImp(mkIs("islice", i), mkAnd(mkLe(slLen(sel("vslice", i)), slCap(sel("vslice", i))))))
	e := ex.freshVal(s2, "tokerr", c.rt(1)).(*Term)
	s2.assume(mkNot(mkEq(e, tINil)))
	t2 := ex.freshVal(s2, "tok", c.rt(0)).(*Term)
	_ = t2
	return append(ret(st, i, tINil), ret(s2, tINil, e)...)
}

func fieldIdx(t types.Type, name string) int {
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s in %s", name, t)
	return -1
}

func binSize(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		b, _ := bitsOf(t)
		return int64(b / 8)
	case *types.Array:
		return u.Len() * binSize(u.Elem())
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n += binSize(u.Field(i).Type())
		}
		return n
	}
	unsup("binary.Read size of %s", t)
	return 0
}

func binDecode(t types.Type, at func(k int64) *Term, off int64) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		bits, signed := bitsOf(t)
		v := leBytes(func(k int64) *Term { return at(off + k) }, bits/8)
		if signed {
			v = mkIte(mkLt(v, pow2(bits-1)), v, mkSub(v, pow2(bits)))
		}
		return v
	case *types.Array:
		es := binSize(u.Elem())
		a := mkConstArr(sortOf(t), toTerm(zeroOf(u.Elem()), u.Elem()))
		for i := int64(0); i < u.Len(); i++ {
			a = mkStore(a, mkI(i), toTerm(binDecode(u.Elem(), at, off+i*es), u.Elem()))
		}
		return a
	case *types.Struct:
		r := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r.f = append(r.f, binDecode(ft, at, off))
			off += binSize(ft)
		}
		return r
	}
	unsup("binary.Read decode of %s", t)
	return nil
}

func binRead(ex *Exec, st *State, c *callCtx) []*retState {
	rd, data := c.t(0), c.t(2)
	if !isCtor(rd) || !isInt(rd.args[0]) || tagTypes[rd.args[0].iv.Int64()] == nil || typeKey(tagTypes[rd.args[0].iv.Int64()]) != "*bytes.Reader" {
		unsup("binary.Read from an unknown reader")
	}
	if !isCtor(data) || !isInt(data.args[0]) {
		unsup("binary.Read into unknown data")
	}
	rt := tagTypes[rd.args[0].iv.Int64()].Underlying().(*types.Pointer).Elem()
	br := rd.args[1]
	s := ex.loadField(st, br, rt, fieldIdx(rt, "s")).(*Term)
	i := ex.loadField(st, br, rt, fieldIdx(rt, "i")).(*Term)
	dt := tagTypes[data.args[0].iv.Int64()]
	pt, ok := under(dt).(*types.Pointer)
	if !ok {
		unsup("binary.Read into %s", dt)
	}
	el := pt.Elem()
	n := binSize(el)
	s2 := st.clone()
	var out []*retState
	okT := mkAnd(mkLe(mkI(0), i), mkLe(mkAdd(i, mkI(n)), slLen(s)))
	if st.assume(okT) {
		a := ex.arrAt(st, slRef(s), tByte)
		at := func(k int64) *Term {
			return rangeBy(mkSelect(a, mkAdd(mkAdd(slOff(s), i), mkI(k)), sInt), tByte)
		}
		ex.store(st, data.args[1], el, binDecode(el, at, 0))
		ex.storeField(st, br, rt, fieldIdx(rt, "i"), mkAdd(i, mkI(n)))
		out = append(out, ret(st, tINil)...)
	}
	if s2.assume(mkNot(okT)) {
		ni := mkIte(mkLe(slLen(s), i), i, slLen(s))
		ex.storeField(s2, br, rt, fieldIdx(rt, "i"), ni)
		out = append(out, ret(s2, ex.newErr(s2, "binread"))...)
	}
	return out
}

// ---- contract application ----

func (ex *Exec) applyContract(fr *Frame, st *State, sp *FuncSpec, fn *ssa.Function, args, binds []Val, in ssa.Instruction) []*retState {
	ex.used[sp.name] = true
	ex.calledSpecs[sp.name] = true
	// a pointer into an element or field: the callee works on a copy that is stored back
	var back []func()
	args = append([]Val(nil), args...)
	for i, a := range args {
		pv, ok := a.(*PtrV)
		if !ok {
			continue
		}
		el := under(fn.Params[i].Type()).(*types.Pointer).Elem()
		tmp := ex.newObj(st)
		ex.store(st, tmp, el, ex.load(st, pv, el))
		args[i] = tmp
		back = append(back, func() { ex.store(st, pv, el, ex.load(st, tmp, el)) })
		ex.trusted["calls with a pointer to an element or field: "+sp.name+" does not keep the pointer and reaches the memory through it only"] = true
	}
	cf := ex.newFrame(fn, fr, fr.key+"/"+instrKey(in)+":"+fn.Name())
	for i, p := range fn.Params {
		cf.params[p.Name()] = args[i]
		cf.ptypes[p.Name()] = p.Type()
	}
	for i, fv := range fn.FreeVars {
		cf.binds[fv] = binds[i]
	}
	ex.canary(st, posOf(in), "before "+sp.name)
	env := &specEnv{ex: ex, fr: cf, st: st, old: st, noLocals: true}
	for _, cl := range sp.requires {
		g := env.boolOf(cl.expr)
		ex.check(st, g, "pre", posOf(in), "precondition of "+sp.name+": "+cl.text, cl.tags...)
		if st.dead {
			return nil
		}
	}
	if sp.pureCall && len(sp.modifies) == 0 && !sp.modAll {
		v := env.pureCall(fn, args)
		ex.inlined[shortName(fn)] = true
		return ret(st, v.v)
	}
	old := st.clone()
	cf.entry = old
	// effects
	mods := ex.pr.modset(fn)
	allowed := ex.allowed(sp, &specEnv{ex: ex, fr: cf, st: old, old: old, noLocals: true})
	if len(mods) > 0 {
		nc := freshVar("ctr", sInt)
		st.assume(mkLe(old.ctr, nc))
		st.ctr = nc
		var ks []string
		for k := range mods {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			al := allowed[k]
			h0 := ex.heapGet(st, k, mods[k])
			if strings.HasPrefix(k, "G|") {
				if al != nil && al.all {
					x := freshVar(sanitize(k), mods[k])
					st.heap[k] = x
					ex.noteWrite(k, tNull)
				}
				continue
			}
			x := freshVar(sanitize(k), h0.sort)
			heapBirth[x] = nc
			st.heap[k] = x
			if al != nil && al.all {
				ex.noteWrite(k, freshVar("any", sRef))
				continue
			}
			r := freshBound("r", sRef)
			vs := splitSort(h0.sort)[1]
			g := []*Term{mkLt(ridTerm(r), old.ctr)}
			if al != nil {
				for _, w := range al.refs {
					g = append(g, mkNot(mkEq(r, w)))
					ex.noteWrite(k, w)
				}
			}
			st.assume(mkForall([]*Term{r}, mkImp(mkAnd(g...), mkEq(mkSelect(x, r, vs), mkSelect(h0, r, vs))), []*Term{mkSelect(x, r, vs)}))
			ex.noteWrite(k, mkCtor("obj", sRef, freshVar("newobj", sInt)))
		}
	}
	var vs []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, ex.freshVal(st, "r_"+fn.Name(), res.At(i).Type()))
	}
	post := &specEnv{ex: ex, fr: cf, st: st, old: old, results: vs, noLocals: true}
	for _, cl := range sp.ensures {
		st.assume(cl.labelFacts(post.boolOf(cl.expr)))
	}
	if len(sp.modifies) > 0 || sp.modAll {
		for _, b := range back {
			b()
		}
	}
	ex.canary(st, posOf(in), "after "+sp.name)
	return ret(st, vs...)
}

type allowSet struct {
	all  bool
	refs []*Term
}

// callType is the static type of the called function value
func callType(in ssa.Instruction) types.Type {
	if c, ok := in.(ssa.CallInstruction); ok {
		return types.Unalias(c.Common().Value.Type())
	}
	return nil
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}
