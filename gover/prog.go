package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type constMap struct {
	name string
	keys []*ssa.Const
	vals []ssa.Value
}

type Prog struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	ssaPkgs []*ssa.Package
	byPath  map[string]*ssa.Package
	root    string // module path
	dir     string
	funcs   map[string]*ssa.Function // short name -> function
	cfgs    map[*ssa.Function]*cfgInfo
	cmaps   map[*ssa.Global]*constMap
	fts     map[*ssa.Function]*FuncSpec
	cmDone  map[*ssa.Global]bool
	stores  map[*ssa.Global][]*ssa.Store
	mods    map[*ssa.Function]map[string]string
	sp      *SpecSet
	broken  map[string]bool // contracts that cannot be evaluated on this tree
	all     []*ssa.Function
	mutMaps map[*ssa.Global]bool
	esc     map[*ssa.Global]bool
}

func loadProg(dir string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Overlay: overlay, Env: append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	pr := &Prog{prog: prog, pkgs: pkgs, ssaPkgs: sp, byPath: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, cfgs: map[*ssa.Function]*cfgInfo{},
		cmaps: map[*ssa.Global]*constMap{}, cmDone: map[*ssa.Global]bool{}, stores: map[*ssa.Global][]*ssa.Store{}, mods: map[*ssa.Function]map[string]string{},
		broken: map[string]bool{}, dir: dir, mutMaps: map[*ssa.Global]bool{}, esc: map[*ssa.Global]bool{}}
	for _, p := range pkgs {
		if p.Module != nil {
			pr.root = p.Module.Path
		}
	}
	if pr.root == "" {
		return nil, fmt.Errorf("module of %s not found", dir)
	}
	for _, p := range sp {
		pr.byPath[p.Pkg.Path()] = p
		var add func(f *ssa.Function)
		add = func(f *ssa.Function) {
			pr.all = append(pr.all, f)
			pr.funcs[shortName(f)] = f
			for _, a := range f.AnonFuncs {
				add(a)
			}
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == p {
							if _, ok := pr.funcs[shortName(f)]; !ok {
								add(f)
							}
						}
					}
				}
			}
		}
	}
	for _, f := range pr.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						pr.stores[g] = append(pr.stores[g], s)
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if ld, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := ld.X.(*ssa.Global); ok {
							pr.mutMaps[g] = true
						}
					}
				}
				// address taken other than load/store/field access?
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := in.(type) {
						case *ssa.Store:
							if y.Val == g {
								pr.esc[g] = true
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						default:
							pr.esc[g] = true
						}
					}
				}
			}
		}
	}
	return pr, nil
}

func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return "-"
	}
	q := p.prog.Fset.Position(x)
	f, err := filepath.Rel(p.dir, q.Filename)
	if err != nil || strings.HasPrefix(f, "..") {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) cfg(fn *ssa.Function) *cfgInfo {
	c := p.cfgs[fn]
	if c == nil {
		c = buildCFG(fn)
		p.cfgs[fn] = c
	}
	return c
}

func (p *Prog) inRepo(pk *types.Package) bool {
	return pk != nil && (pk.Path() == p.root || strings.HasPrefix(pk.Path(), p.root+"/"))
}

// shortName: pkg.Func, pkg.Type.Method, pkg.Func$1
func shortName(f *ssa.Function) string {
	if f.Pkg == nil {
		return f.String()
	}
	pk := f.Pkg.Pkg.Name()
	if pk == "main" {
		pk = filepath.Base(f.Pkg.Pkg.Path())
	}
	if f.Parent() != nil {
		n := f.Name()
		if i := strings.LastIndexByte(n, '$'); i >= 0 {
			return shortName(f.Parent()) + n[i:]
		}
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func (p *Prog) spec(fn *ssa.Function) *FuncSpec {
	if p.sp == nil {
		return nil
	}
	n := shortName(fn)
	if p.broken[n] {
		return nil
	}
	return p.sp.funcs[n]
}

func isInitFn(f *ssa.Function) bool {
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// constMap: a package-level map that is filled in init only.
func (p *Prog) constMap(g *ssa.Global) *constMap {
	if p.cmDone[g] {
		return p.cmaps[g]
	}
	p.cmDone[g] = true
	ss := p.stores[g]
	if len(ss) != 1 || ss[0].Parent().Name() != "init" || p.mutMaps[g] || p.esc[g] {
		return nil
	}
	mm, ok := ss[0].Val.(*ssa.MakeMap)
	var lit ssa.Instruction = ss[0]
	if !ok {
		// the literal goes through a local of its own
		ld, isl := ss[0].Val.(*ssa.UnOp)
		if !isl || ld.Op != token.MUL || len(*ld.Referrers()) != 1 {
			return nil
		}
		al, isa := ld.X.(*ssa.Alloc)
		if !isa || al.Heap {
			return nil
		}
		for _, r := range *al.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if mm != nil || x.Addr != al {
					return nil
				}
				if mm, ok = x.Val.(*ssa.MakeMap); !ok {
					return nil
				}
				lit = x
			case *ssa.UnOp:
				if x != ld {
					return nil
				}
			case *ssa.DebugRef:
			default:
				return nil
			}
		}
		if mm == nil {
			return nil
		}
	}
	// loads of the map must only be looked up / ranged / measured
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.X != g {
					continue
				}
				for _, r := range *ld.Referrers() {
					switch x := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
							return nil
						}
					default:
						return nil
					}
				}
			}
		}
	}
	cm := &constMap{name: g.String()}
	for _, r := range *mm.Referrers() {
		mu, ok := r.(*ssa.MapUpdate)
		if !ok {
			if s, ok := r.(*ssa.Store); ok && s == lit {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return nil
		}
		k, ok := mu.Key.(*ssa.Const)
		if !ok {
			return nil
		}
		v := mu.Value
		cm.keys = append(cm.keys, k)
		cm.vals = append(cm.vals, v)
	}
	p.cmaps[g] = cm
	return cm
}

// globalConst: the value of a global that is never reassigned after initialisation, when known.
func (ex *Exec) globalConst(g *ssa.Global) Val {
	p := ex.pr
	t := g.Type().(*types.Pointer).Elem()
	s := sortSafe(t)
	opaque := func() Val {
		id, ok := globalIDs[g]
		if !ok {
			id = -int64(len(globalIDs) + 1)
			globalIDs[g] = id
		}
		switch s {
		case sRef:
			return mkCtor("obj", sRef, mkI(id))
		case sIface:
			return mkCtor("iref", sIface, namedTag("error:"+g.String()), mkCtor("obj", sRef, mkI(id)))
		}
		return nil
	}
	if !p.inRepo(g.Pkg.Pkg) {
		if isErrorType(t) || s == sRef {
			ex.trusted["library variable "+g.String()+" is a fixed non-nil value"] = true
			return opaque()
		}
		return nil
	}
	ss := p.stores[g]
	if g.Name() == "init$guard" {
		return nil
	}
	if len(ss) != 1 || !isInitFn(ss[0].Parent()) || p.esc[g] {
		return nil
	}
	switch v := ss[0].Val.(type) {
	case *ssa.Const:
		return ex.constVal(v)
	case *ssa.Function:
		return &FnV{fn: v}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "errors.New", "fmt.Errorf", "regexp.MustCompile":
				return opaque()
			}
		}
	case *ssa.MakeInterface:
		if isErrorType(t) {
			return opaque()
		}
	}
	return nil
}

func (p *Prog) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, pk := range p.ssaPkgs {
		if pk.Pkg.Name() == "main" {
			continue
		}
		var names []string
		for n := range pk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			m, ok := pk.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(m.Type()) {
				continue
			}
			if types.Implements(m.Type(), it) {
				out = append(out, m.Type())
			} else if types.Implements(types.NewPointer(m.Type()), it) {
				out = append(out, types.NewPointer(m.Type()))
			}
		}
	}
	return out
}

func (p *Prog) implementersOfMethod(i *Term, name string) []types.Type {
	if isCtor(i) && isInt(i.args[0]) {
		if t := tagTypes[i.args[0].iv.Int64()]; t != nil {
			return []types.Type{t}
		}
	}
	return nil
}

// closedWorld: the only implementation of the repository interface a value was converted from
func (p *Prog) closedWorld(v ssa.Value) []types.Type {
	ch, ok := v.(*ssa.ChangeInterface)
	if !ok {
		return nil
	}
	it := ch.X.Type()
	if n, ok := types.Unalias(it).(*types.Named); ok && p.inRepo(n.Obj().Pkg()) {
		if impls := p.implementers(under(it).(*types.Interface)); len(impls) == 1 {
			return impls
		}
	}
	return nil
}

// poolType: the type asserted from sync.Pool.Get in fn
func (p *Prog) poolType(fn *ssa.Function) types.Type {
	var t types.Type
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ta, ok := in.(*ssa.TypeAssert); ok {
				if _, ok := under(ta.AssertedType).(*types.Pointer); ok {
					t = ta.AssertedType
				}
			}
		}
	}
	return t
}

func (p *Prog) nonnilElem(t types.Type) bool {
	if p.sp == nil {
		return false
	}
	return p.sp.nonnil[strings.ReplaceAll(typeKey(t), p.root+"/", "")] || p.sp.nonnil[typeKey(t)]
}

// ---- static over-approximation of the heaps a function may modify ----

func (p *Prog) typeKeys(t types.Type, out map[string]string) {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isStruct(ft) || isArray(ft) {
				p.typeKeys(ft, out)
				continue
			}
			out[fkey(t, i)] = heapSort(sortOf(ft))
		}
	case *types.Array:
		out[ekey(u.Elem())] = heapSort(arrSort(sortOf(u.Elem())))
	default:
		out[ckey(t)] = heapSort(sortOf(t))
	}
}

func (p *Prog) modset(fn *ssa.Function) map[string]string {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	out := map[string]string{}
	seen := map[*ssa.Function]bool{}
	p.modRec(fn, seen, out)
	p.mods[fn] = out
	return out
}

// findMethod: nil when the type has no such (exported) method
func (p *Prog) findMethod(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	sel := p.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Prog) addrKeys(a ssa.Value, out map[string]string) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		ft := under(t).(*types.Struct).Field(x.Field).Type()
		if isStruct(ft) || isArray(ft) {
			p.typeKeys(ft, out)
		} else {
			out[fkey(t, x.Field)] = heapSort(sortOf(ft))
		}
		// the struct itself may live in a slice element
		p.addrOwner(x.X, out)
	case *ssa.IndexAddr:
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			out[ekey(u.Elem())] = heapSort(arrSort(sortOf(u.Elem())))
		case *types.Pointer:
			el := under(u.Elem()).(*types.Array).Elem()
			out[ekey(el)] = heapSort(arrSort(sortOf(el)))
			p.addrOwner(x.X, out)
		}
	case *ssa.Global:
		t := x.Type().(*types.Pointer).Elem()
		if isStruct(t) || isArray(t) {
			p.typeKeys(t, out)
		} else {
			out["G|"+x.String()] = sortOf(t)
		}
	case *ssa.Alloc:
		if x.Heap {
			p.typeKeys(x.Type().(*types.Pointer).Elem(), out)
		}
	default:
		if pt, ok := under(a.Type()).(*types.Pointer); ok {
			p.typeKeys(pt.Elem(), out)
		}
	}
}

func (p *Prog) addrOwner(a ssa.Value, out map[string]string) {
	switch x := a.(type) {
	case *ssa.IndexAddr, *ssa.FieldAddr:
		p.addrKeys(x.(ssa.Value), out)
	}
}

func (p *Prog) modRec(fn *ssa.Function, seen map[*ssa.Function]bool, out map[string]string) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	ek := func(el types.Type) { out[ekey(el)] = heapSort(arrSort(sortOf(el))) }
	mk := func(mt *types.Map) {
		ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
		a, b, c := mapKeys(mt)
		out[a], out[b], out[c] = heapSort(mapSort(ks, sBool)), heapSort(mapSort(ks, vs)), heapSort(sInt)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && f.Pkg != nil && p.inRepo(f.Pkg.Pkg) {
					p.modRec(f, seen, out)
				}
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				if x.Heap {
					p.typeKeys(x.Type().(*types.Pointer).Elem(), out)
				}
			case *ssa.Store:
				p.addrKeys(x.Addr, out)
			case *ssa.MakeSlice:
				ek(under(x.Type()).(*types.Slice).Elem())
			case *ssa.MakeMap:
				mk(under(x.Type()).(*types.Map))
			case *ssa.MapUpdate:
				mk(under(x.Map.Type()).(*types.Map))
			case *ssa.Convert:
				if s, ok := under(x.Type()).(*types.Slice); ok {
					ek(s.Elem())
				}
			case *ssa.MakeClosure:
				p.modRec(x.Fn.(*ssa.Function), seen, out)
			case ssa.CallInstruction:
				c := x.Common()
				for _, a := range c.Args {
					// a pointer into an element or field
					switch a.(type) {
					case *ssa.IndexAddr, *ssa.FieldAddr:
						p.addrKeys(a, out)
					}
				}
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy":
						ek(under(c.Args[0].Type()).(*types.Slice).Elem())
					case "delete":
						mk(under(c.Args[0].Type()).(*types.Map))
					}
					continue
				}
				if c.IsInvoke() {
					if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && p.inRepo(n.Obj().Pkg()) {
						for _, t := range p.implementers(under(n).(*types.Interface)) {
							if f := p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil {
								p.modRec(f, seen, out)
							}
						}
					} else {
						p.extKeys(typeKey(c.Value.Type())+"."+c.Method.Name(), c, out, seen)
					}
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					// dynamic: closures of this package were collected through their creation sites
					continue
				}
				if len(f.Blocks) > 0 && (f.Pkg == nil || p.inRepo(f.Pkg.Pkg)) {
					p.modRec(f, seen, out)
					continue
				}
				p.extKeys(f.String(), c, out, seen)
			}
		}
	}
}

func (p *Prog) extKeys(name string, c *ssa.CallCommon, out map[string]string, seen map[*ssa.Function]bool) {
	add := func(t types.Type) {
		switch u := under(t).(type) {
		case *types.Slice:
			out[ekey(u.Elem())] = heapSort(arrSort(sortOf(u.Elem())))
		case *types.Pointer:
			if sortSafe(u.Elem()) != "" {
				p.typeKeys(u.Elem(), out)
			}
		}
	}
	for _, a := range c.Args {
		add(a.Type())
		if mi, ok := a.(*ssa.MakeInterface); ok {
			add(mi.X.Type())
			p.addrKeys(mi.X, out)
			if name == "encoding/binary.Write" || name == "encoding/binary.Read" {
				if w := p.findMethod(mi.X.Type(), "Write"); w != nil && w.Pkg != nil && p.inRepo(w.Pkg.Pkg) {
					p.modRec(w, seen, out)
				}
			}
		}
	}
	if name == "encoding/binary.Write" {
		out[ekey(tByte)] = heapSort(arrSort(sInt))
		if len(c.Args) > 0 {
			if n, ok := c.Args[0].(*ssa.MakeInterface); ok {
				if w := p.findMethod(n.X.Type(), "Write"); w != nil {
					p.modRec(w, seen, out)
				}
			}
			for _, t := range p.closedWorld(c.Args[0]) {
				if w := p.findMethod(t, "Write"); w != nil {
					p.modRec(w, seen, out)
				}
			}
		}
	}
	res := c.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		add(res.At(i).Type())
	}
	switch {
	case strings.Contains(name, "crypto/md5"), strings.Contains(name, "hash.Hash"):
		out["X|md5seq"] = heapSort(sSeq)
		out[ekey(tByte)] = heapSort(arrSort(sInt))
	case strings.Contains(name, "crypto/rc4"):
		out["X|rc4key"] = heapSort(sSeq)
		out["X|rc4pos"] = heapSort(sInt)
		out[ekey(tByte)] = heapSort(arrSort(sInt))
	case strings.Contains(name, "bytes.Buffer"):
		out["X|bufseq"] = heapSort(sSeq)
		out[ekey(tByte)] = heapSort(arrSort(sInt))
	case strings.Contains(name, "sync.Pool"):
		if f := c.StaticCallee(); f != nil {
			for _, pf := range p.all {
				for _, b := range pf.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common() == c {
							if t := p.poolType(pf); t != nil {
								p.typeKeys(t.Underlying().(*types.Pointer).Elem(), out)
							}
						}
					}
				}
			}
		}
	}
	out[ekey(tByte)] = heapSort(arrSort(sInt))
}

// functypes: for every function that is used as a value of a named function type with a contract, that
// contract; the functions are found from the conversions in the code.
func (p *Prog) functypes() map[*ssa.Function]*FuncSpec {
	if p.fts != nil {
		return p.fts
	}
	p.fts = map[*ssa.Function]*FuncSpec{}
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.ChangeType)
				if !ok {
					continue
				}
				n, ok := c.Type().(*types.Named)
				if !ok {
					continue
				}
				sp := p.sp.funcs[p.functypeKey(n)]
				if sp == nil {
					continue
				}
				switch x := c.X.(type) {
				case *ssa.Function:
					p.fts[x] = sp
				case *ssa.MakeClosure:
					p.fts[x.Fn.(*ssa.Function)] = sp
				}
			}
		}
	}
	return p.fts
}

func (p *Prog) functypeKey(n *types.Named) string {
	k := strings.TrimPrefix(typeKey(n), p.root+"/")
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	return "type " + k
}

func (p *Prog) functypeOf(fn *ssa.Function) *FuncSpec { return p.functypes()[fn] }

// functypeMembers: the functions used as values of the function type
func (p *Prog) functypeMembers(key string) []string {
	m := map[string]bool{}
	for f, sp := range p.functypes() {
		if sp == p.sp.funcs[key] {
			m[shortName(f)] = true
		}
	}
	return sortedStrs(m)
}
