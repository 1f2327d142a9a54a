package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	kind string // requires ensures inv decreases step at
	tags []string
	text string
	expr ast.Expr
	loop int    // 0: any loop
	call string // at call
	set  string // ghost assigned
	mods []ast.Expr
	line string
	more []ast.Expr
	// {label: a b}: the fact has a name; it is proved from the unnamed facts and those named after the colon
	label string
	using []string
	only  bool
}

// parseLabel reads {label} or {label: a b c} at the start of a clause
func (c *Clause) parseLabel(s string) string {
	if !strings.HasPrefix(s, "{") {
		return s
	}
	j := strings.IndexByte(s, '}')
	if j < 0 {
		return s
	}
	in := s[1:j]
	if k := strings.IndexByte(in, ':'); k >= 0 {
		c.only = true
		c.using = strings.Fields(in[k+1:])
		in = in[:k]
	}
	c.label = strings.TrimSpace(in)
	return strings.TrimSpace(s[j+1:])
}

var factLabel = map[*Term]string{}

// labelFacts names the facts a labelled clause contributes
func (c *Clause) labelFacts(t *Term) *Term {
	if c.label != "" {
		labelTerm(t, c.label)
	}
	return t
}

func labelTerm(t *Term, label string) {
	switch t.op {
	case "and":
		for _, a := range t.args {
			labelTerm(a, label)
		}
	case "=>":
		factLabel[t] = label
		labelTerm(t.args[1], label)
	case "forall":
		factLabel[t] = label
	}
}

// relevant drops the named facts a clause does not use
func (c *Clause) relevant(pcs []*Term) []*Term {
	if c == nil || !c.only {
		return pcs
	}
	use := map[string]bool{}
	for _, u := range c.using {
		use[u] = true
	}
	var out []*Term
	for _, t := range pcs {
		if l := factLabel[t]; l != "" && !use[l] {
			continue
		}
		out = append(out, t)
	}
	return out
}

type FuncSpec struct {
	name     string
	pkg      string // package path
	requires []*Clause
	captures []*Clause // about captured variables: checked where the closure is made
	givens   []*Clause // assumed on entry, not demanded of callers (definitions of ghost witnesses, type invariants)
	splits   []*Clause
	ensures  []*Clause
	modifies []ast.Expr
	modAll   bool
	invs     []*Clause
	decs     []*Clause
	steps    []*Clause
	ats      []*Clause
	ghosts   map[string]ast.Expr // ghost counters with initial values
	inline   bool
	noPrune  bool
	retMerge int
	merge    int
	nilRecv  bool
	pureCall bool
	realF    bool
	hasCon   bool
	nosafe   bool
	timeMul  int
}

func (s *FuncSpec) contract() bool { return s.hasCon }

type define struct {
	pkg    string
	params []string
	body   ast.Expr
}

type ghostFn struct {
	args []string
	ret  string
}

type SpecSet struct {
	funcs   map[string]*FuncSpec
	defines map[string]*define
	ghosts  map[string]*ghostFn
	nonnil  map[string]bool
	axioms  []string
	prop    string // active property
	raw     []func(pr *Prog) error
}

func (c *Clause) active(prop string) bool {
	if len(c.tags) == 0 || prop == "" {
		return true
	}
	for _, t := range c.tags {
		if t == prop {
			return true
		}
	}
	return false
}

func parseSpecs(dir, prop, root string) (*SpecSet, error) {
	ss := &SpecSet{funcs: map[string]*FuncSpec{}, defines: map[string]*define{}, ghosts: map[string]*ghostFn{}, nonnil: map[string]bool{}, prop: prop}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := ss.parseFile(f, root); err != nil {
			return nil, err
		}
	}
	return ss, nil
}

func (ss *SpecSet) parseFile(file, root string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var lines []string
	var nums []int
	for i, l := range strings.Split(string(data), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "\\") || strings.HasPrefix(l, "      ") || strings.HasPrefix(l, "\t\t") { // continuation
			if len(lines) > 0 {
				lines[len(lines)-1] += " " + strings.TrimPrefix(t, "\\")
				continue
			}
		}
		lines = append(lines, t)
		nums = append(nums, i+1)
	}
	pkg, pkgPath := "", ""
	var cur *FuncSpec
	for i, l := range lines {
		where := fmt.Sprintf("%s:%d", filepath.Base(file), nums[i])
		word, rest := cut(l)
		fail := func(e interface{}) error { return fmt.Errorf("%s: %v", where, e) }
		var tags []string
		if strings.HasPrefix(rest, "[") {
			j := strings.IndexByte(rest, ']')
			if strings.HasPrefix(rest, "[C") && j > 0 {
				tags = strings.FieldsFunc(rest[1:j], func(r rune) bool { return r == ',' || r == ' ' })
				rest = strings.TrimSpace(rest[j+1:])
			}
		}
		pe := func(s string) (ast.Expr, error) {
			e, err := parser.ParseExpr(s)
			if err != nil {
				return nil, fmt.Errorf("%s: %v in %q", where, err, s)
			}
			return e, nil
		}
		switch word {
		case "package":
			pkgPath = root
			if rest != "." {
				pkgPath = root + "/" + rest
			}
			pkg = filepath.Base(pkgPath)
		case "nonnil":
			ss.nonnil[rest] = true
		case "define":
			// define name(a, b) = expr
			j := strings.Index(rest, " = ")
			if j < 0 {
				return fail("define needs =")
			}
			h, err := pe(strings.TrimSpace(rest[:j]))
			if err != nil {
				return err
			}
			b, err := pe(rest[j+3:])
			if err != nil {
				return err
			}
			call, ok := h.(*ast.CallExpr)
			if !ok {
				return fail("define head")
			}
			d := &define{body: b, pkg: pkgPath}
			for _, a := range call.Args {
				d.params = append(d.params, a.(*ast.Ident).Name)
			}
			if ss.defines[call.Fun.(*ast.Ident).Name] != nil {
				return fail("defined twice")
			}
			ss.defines[call.Fun.(*ast.Ident).Name] = d
		case "ghostfunc", "hintfunc":
			j := strings.IndexByte(rest, '(')
			k := strings.LastIndexByte(rest, ')')
			g := &ghostFn{ret: strings.TrimSpace(rest[k+1:])}
			for _, a := range strings.Split(rest[j+1:k], ",") {
				if a = strings.TrimSpace(a); a != "" {
					g.args = append(g.args, a)
				}
			}
			ss.ghosts[strings.TrimSpace(rest[:j])] = g
			if word == "hintfunc" {
				hintFns["gh."+strings.TrimSpace(rest[:j])] = true
			}
		case "axiom":
			ss.axioms = append(ss.axioms, where+"\x00"+rest)
		case "func", "functype":
			n := pkg + "." + rest
			if word == "functype" {
				n = "type " + n
			}
			cur = ss.funcs[n]
			if cur == nil {
				cur = &FuncSpec{name: n, pkg: pkgPath, ghosts: map[string]ast.Expr{}}
				ss.funcs[n] = cur
			}
		case "requires", "given", "captures", "split", "cases", "ensures", "inv", "decreases", "step", "loop", "at":
			if cur == nil {
				return fail("clause outside func")
			}
			c := &Clause{kind: word, tags: tags, text: rest, line: where}
			if word == "loop" {
				var n string
				n, rest = cut(rest)
				c.loop, err = strconv.Atoi(n)
				if err != nil {
					return fail(err)
				}
				c.kind, rest = cut(rest)
				if strings.HasPrefix(rest, "[C") {
					j := strings.IndexByte(rest, ']')
					c.tags = strings.FieldsFunc(rest[1:j], func(r rune) bool { return r == ',' || r == ' ' })
					rest = strings.TrimSpace(rest[j+1:])
				}
			}
			if word == "at" { // at call NAME assert EXPR | at call NAME set G = EXPR
				var w string
				w, rest = cut(rest)
				if w != "call" {
					return fail("at call")
				}
				c.call, rest = cut(rest)
				w, rest = cut(rest)
				if w == "set" {
					j := strings.Index(rest, "=")
					c.set = strings.TrimSpace(rest[:j])
					rest = strings.TrimSpace(rest[j+1:])
				} else if strings.HasPrefix(rest, "[C") {
					j := strings.IndexByte(rest, ']')
					c.tags = strings.FieldsFunc(rest[1:j], func(r rune) bool { return r == ',' || r == ' ' })
					rest = strings.TrimSpace(rest[j+1:])
				}
			}
			rest = c.parseLabel(rest)
			c.text = rest
			if c.kind == "decreases" || c.kind == "cases" {
				for _, part := range splitTop(rest) {
					e, err := pe(part)
					if err != nil {
						return err
					}
					c.more = append(c.more, e)
				}
			} else {
				c.expr, err = pe(rest)
				if err != nil {
					return err
				}
			}
			if !c.active(ss.prop) {
				if c.kind == "requires" || c.kind == "ensures" {
					cur.hasCon = true
				}
				continue
			}
			switch c.kind {
			case "requires":
				cur.requires = append(cur.requires, c)
				cur.hasCon = true
			case "captures":
				cur.captures = append(cur.captures, c)
			case "given":
				cur.givens = append(cur.givens, c)
			case "split", "cases":
				cur.splits = append(cur.splits, c)
			case "ensures":
				cur.ensures = append(cur.ensures, c)
				cur.hasCon = true
			case "inv":
				cur.invs = append(cur.invs, c)
			case "decreases":
				cur.decs = append(cur.decs, c)
			case "step":
				cur.steps = append(cur.steps, c)
			case "at":
				cur.ats = append(cur.ats, c)
			}
		case "modifies":
			cur.hasCon = true
			if rest == "everything" {
				cur.modAll = true
				continue
			}
			for _, part := range splitTop(rest) {
				part = strings.ReplaceAll(part, "[*]", "[_all]")
				part = strings.ReplaceAll(part, ".*", "._all")
				e, err := pe(part)
				if err != nil {
					return err
				}
				cur.modifies = append(cur.modifies, e)
			}
		case "ghost": // ghost NAME = EXPR
			j := strings.Index(rest, "=")
			e, err := pe(rest[j+1:])
			if err != nil {
				return err
			}
			cur.ghosts[strings.TrimSpace(rest[:j])] = e
		case "contract":
			cur.hasCon = true
		case "inline":
			cur.inline = true
		case "noprune":
			cur.noPrune = true
		case "realfloat":
			cur.realF = true
		case "nilrecv":
			cur.nilRecv = true
		case "purecall": // no side effects: callers use the value its body computes
			cur.pureCall, cur.hasCon = true, true
		case "retmerge":
			cur.retMerge, _ = strconv.Atoi(rest)
		case "merge":
			cur.merge, _ = strconv.Atoi(rest)
		default:
			return fail("unknown directive " + word)
		}
	}
	return nil
}

func cut(s string) (string, string) {
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i+1:])
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// ---- evaluation ----

type sval struct {
	v Val
	t types.Type // nil: mathematical
}

type specEnv struct {
	ex       *Exec
	fr       *Frame
	st       *State
	old      *State
	results  []Val
	noLocals bool
	names    map[string]sval
	at       *ssa.BasicBlock // program point for locals
	loop     *Loop
	head     *State
	lentry   *State
	pkg      *types.Package
	retT     *types.Tuple
	wits     []*Term // integer terms tried as witnesses of existential goals
}

func (e *specEnv) with(st *State) *specEnv {
	n := *e
	n.st = st
	return &n
}

func (e *specEnv) bind(name string, v sval) *specEnv {
	n := *e
	n.names = map[string]sval{}
	for k, x := range e.names {
		n.names[k] = x
	}
	n.names[name] = v
	return &n
}

func (e *specEnv) boolOf(x ast.Expr) *Term {
	t, ok := e.eval(x).v.(*Term)
	if !ok || t.sort != sBool {
		unsup("spec: not a boolean")
	}
	return t
}
func (e *specEnv) intOf(x ast.Expr) *Term {
	t, ok := e.eval(x).v.(*Term)
	if !ok || t.sort != sInt {
		unsup("spec: not an integer")
	}
	return t
}
func (e *specEnv) term(x ast.Expr) *Term {
	s := e.eval(x)
	if t, ok := s.v.(*Term); ok {
		return t
	}
	return toTerm(s.v, s.t)
}

func (e *specEnv) pkgOf() *types.Package {
	if e.pkg != nil {
		return e.pkg
	}
	f := e.fr.fn
	for f.Pkg == nil && f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return nil
	}
	return f.Pkg.Pkg
}

func (e *specEnv) typeOf(x ast.Expr) types.Type {
	switch y := x.(type) {
	case *ast.ParenExpr:
		return e.typeOf(y.X)
	case *ast.Ident:
		if o := types.Universe.Lookup(y.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if pk := e.pkgOf(); pk != nil {
			if tn, ok := pk.Scope().Lookup(y.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.StarExpr:
		if t := e.typeOf(y.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		if y.Len == nil {
			if t := e.typeOf(y.Elt); t != nil {
				return types.NewSlice(t)
			}
		}
	case *ast.MapType:
		k, v := e.typeOf(y.Key), e.typeOf(y.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok {
			if pk := e.imported(id.Name); pk != nil {
				if tn, ok := pk.Scope().Lookup(y.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	}
	return nil
}

func (e *specEnv) imported(name string) *types.Package {
	pk := e.pkgOf()
	if pk == nil {
		return nil
	}
	if pk.Name() == name {
		return pk
	}
	for _, i := range pk.Imports() {
		if i.Name() == name {
			return i
		}
	}
	for _, p := range e.ex.pr.ssaPkgs {
		if p.Pkg.Name() == name {
			return p.Pkg
		}
	}
	return nil
}

// local looks up the current value of a named local variable or parameter.
func (e *specEnv) local(fr *Frame, name string, at *ssa.BasicBlock) (sval, bool) {
	var best *ssa.Alloc
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			if at != nil && a.Block() != at && !a.Block().Dominates(at) {
				continue
			}
			if a.Heap {
				if _, ok := e.st.regs[regKey{fr, a}]; !ok {
					continue
				}
			} else {
				l := fr.locs[a]
				if l == nil {
					continue
				}
				if _, ok := e.st.locals[l]; !ok {
					continue
				}
			}
			if best == nil || a.Pos() > best.Pos() {
				best = a
			}
		}
	}
	if best != nil {
		t := best.Type().(*types.Pointer).Elem()
		if best.Heap {
			p := e.st.regs[regKey{fr, best}]
			return sval{e.ex.load(e.st, p, t), t}, true
		}
		return sval{e.st.locals[fr.locs[best]], t}, true
	}
	return sval{}, false
}

func (e *specEnv) ident(name string) sval {
	if v, ok := e.names[name]; ok {
		return v
	}
	switch name {
	case "true":
		return sval{tTrue, types.Typ[types.Bool]}
	case "false":
		return sval{tFals, types.Typ[types.Bool]}
	case "nil":
		return sval{nil, types.Typ[types.UntypedNil]}
	case "done": // completed iterations of the range loop
		if e.loop != nil {
			for _, in := range e.loop.header.Instrs {
				if x, ok := in.(*ssa.UnOp); ok && x.Op == token.MUL {
					if a, ok := x.X.(*ssa.Alloc); ok && (a.Comment == "rangeindex" || a.Comment == "rangeint.iter") {
						if l := e.fr.locs[a]; l != nil {
							if v, ok := e.st.locals[l].(*Term); ok {
								return sval{mkAdd(v, mkI(1)), types.Typ[types.Int]}
							}
						}
					}
				}
			}
			for _, in := range e.loop.header.Instrs { // over a string: the position
				if x, ok := in.(*ssa.Next); ok && e.st != nil {
					if it, ok := e.st.regs[regKey{e.fr, x.Iter}].(*IterV); ok {
						if v, ok := e.st.locals[it.loc].(*Term); ok {
							return sval{v, types.Typ[types.Int]}
						}
					}
				}
			}
			unsup("spec: done outside a range loop")
		}
	case "result":
		name = "r0"
	}
	sig := e.fr.fn.Signature
	if e.results != nil {
		if len(name) == 2 && name[0] == 'r' && name[1] >= '0' && name[1] <= '9' {
			i := int(name[1] - '0')
			if i < len(e.results) {
				return sval{e.results[i], sig.Results().At(i).Type()}
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if n := sig.Results().At(i).Name(); n == name && n != "_" {
				return sval{e.results[i], sig.Results().At(i).Type()}
			}
		}
	}
	if g, ok := e.st.ghosts[name]; ok {
		return sval{g, nil}
	}
	if !e.noLocals {
		at := e.at
		fr := e.fr
		for fr != nil {
			if v, ok := e.local(fr, name, at); ok {
				return v
			}
			if fv, ok := e.freevar(fr, name); ok {
				return fv
			}
			fr, at = fr.parent, nil
		}
	}
	for fr := e.fr; fr != nil; fr = fr.parent {
		if v, ok := fr.params[name]; ok {
			return sval{v, fr.ptypes[name]}
		}
		if fv, ok := e.freevar(fr, name); ok {
			return fv
		}
		if e.noLocals {
			break
		}
	}
	if pk := e.pkgOf(); pk != nil {
		if v, ok := e.object(pk.Scope().Lookup(name)); ok {
			return v
		}
	}
	unsup("spec: unknown name %s", name)
	return sval{}
}

func (e *specEnv) freevar(fr *Frame, name string) (sval, bool) {
	for _, f := range fr.fn.FreeVars {
		if f.Name() == name {
			t := f.Type().(*types.Pointer).Elem()
			return sval{e.ex.load(e.st, fr.binds[f], t), t}, true
		}
	}
	return sval{}, false
}

func (e *specEnv) object(o types.Object) (sval, bool) {
	switch x := o.(type) {
	case *types.Const:
		return sval{e.constOf(x.Val(), x.Type()), x.Type()}, true
	case *types.Var:
		if p := e.ex.pr.prog.Package(x.Pkg()); p != nil {
			if g, ok := p.Members[x.Name()].(*ssa.Global); ok {
				if c := e.ex.globalConst(g); c != nil {
					return sval{c, x.Type()}, true
				}
				return sval{e.ex.load(e.st, e.ex.globalPtr(g), x.Type()), x.Type()}, true
			}
		}
	}
	return sval{}, false
}

func (e *specEnv) constOf(c constant.Value, t types.Type) Val {
	switch c.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c))
	case constant.String:
		return mkLit(constant.StringVal(c))
	case constant.Int:
		if sortSafe(t) == sF64 {
			f, _ := constant.Float64Val(c)
			return mkFloat(f)
		}
		b, _ := new(big.Int).SetString(c.ExactString(), 10)
		return mkInt(b)
	case constant.Float:
		f, _ := constant.Float64Val(c)
		return mkFloat(f)
	}
	unsup("spec: constant")
	return nil
}

func (e *specEnv) eval(x ast.Expr) sval {
	ex := e.ex
	switch y := x.(type) {
	case *ast.ParenExpr:
		return e.eval(y.X)
	case *ast.Ident:
		return e.ident(y.Name)
	case *ast.BasicLit:
		switch y.Kind {
		case token.INT, token.CHAR:
			v := constant.MakeFromLiteral(y.Value, y.Kind, 0)
			return sval{e.constOf(v, types.Typ[types.Int]), nil}
		case token.FLOAT:
			v := constant.MakeFromLiteral(y.Value, y.Kind, 0)
			f, _ := constant.Float64Val(v)
			return sval{mkFloat(f), types.Typ[types.Float64]}
		case token.STRING:
			s, _ := strconv.Unquote(y.Value)
			return sval{mkLit(s), types.Typ[types.String]}
		}
	case *ast.UnaryExpr:
		switch y.Op {
		case token.NOT:
			return sval{mkNot(e.boolOf(y.X)), nil}
		case token.SUB:
			v := e.eval(y.X)
			t := v.v.(*Term)
			if t.sort == sF64 {
				return sval{fop1("fneg", t), v.t}
			}
			return sval{mkNeg(t), nil}
		case token.AND:
			return e.addr(y.X)
		}
	case *ast.BinaryExpr:
		return e.binary(y)
	case *ast.StarExpr:
		p := e.eval(y.X)
		t := under(p.t).(*types.Pointer).Elem()
		return sval{ex.load(e.st, p.v, t), t}
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok {
			if _, isName := e.names[id.Name]; !isName {
				if pk := e.imported(id.Name); pk != nil && !e.isLocalName(id.Name) {
					if v, ok := e.object(pk.Scope().Lookup(y.Sel.Name)); ok {
						return v
					}
				}
			}
		}
		return e.field(e.eval(y.X), y.Sel.Name)
	case *ast.IndexExpr:
		return e.index(e.eval(y.X), y.Index)
	case *ast.SliceExpr:
		s := e.eval(y.X)
		t := s.v.(*Term)
		lo := mkI(0)
		if y.Low != nil {
			lo = e.intOf(y.Low)
		}
		if t.sort == sSlice {
			hi := slLen(t)
			if y.High != nil {
				hi = e.intOf(y.High)
			}
			return sval{mkSlice(slRef(t), mkAdd(slOff(t), lo), mkSub(hi, lo), mkSub(slCap(t), lo)), s.t}
		}
		hi := qlen(t)
		if y.High != nil {
			hi = e.intOf(y.High)
		}
		return sval{qsub(t, lo, hi), s.t}
	case *ast.CallExpr:
		return e.call(y)
	}
	unsup("spec: expression %T", x)
	return sval{}
}

func (e *specEnv) isLocalName(n string) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	if _, isP := e.fr.params[n]; isP {
		return true
	}
	if e.noLocals {
		return false
	}
	for fr := e.fr; fr != nil; fr = fr.parent {
		if _, ok := e.local(fr, n, nil); ok {
			return true
		}
	}
	return false
}

func (e *specEnv) addr(x ast.Expr) sval {
	if s, ok := x.(*ast.SelectorExpr); ok {
		b := e.eval(s.X)
		pt, ok := under(b.t).(*types.Pointer)
		if !ok {
			unsup("spec: address")
		}
		i := fieldIdx(pt.Elem(), s.Sel.Name)
		ft := under(pt.Elem()).(*types.Struct).Field(i).Type()
		if isStruct(ft) || isArray(ft) {
			return sval{subRef(b.v.(*Term), pt.Elem(), i), types.NewPointer(ft)}
		}
	}
	unsup("spec: address")
	return sval{}
}

func (e *specEnv) field(s sval, name string) sval {
	if s.t == nil {
		unsup("spec: field %s of untyped value", name)
	}
	obj, path, _ := types.LookupFieldOrMethod(s.t, true, e.pkgOf(), name)
	if obj == nil {
		// unexported field of another package
		t := s.t
		if pt, ok := under(t).(*types.Pointer); ok {
			t = pt.Elem()
		}
		if st, ok := under(t).(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					path = []int{i}
					obj = st.Field(i)
				}
			}
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		unsup("spec: no field %s in %s", name, s.t)
	}
	v, t := s.v, s.t
	for _, i := range path {
		if pt, ok := under(t).(*types.Pointer); ok {
			st := pt.Elem()
			ft := under(st).(*types.Struct).Field(i).Type()
			switch p := v.(type) {
			case *Term:
				v = e.ex.loadField(e.st, p, st, i)
			case *PtrV:
				q := *p
				q.path = append(append([]pstep(nil), p.path...), pstep{field: i})
				q.typ = ft
				v = e.ex.load(e.st, &q, ft)
			default:
				unsup("spec: field of %T", v)
			}
			t = ft
		} else {
			ft := under(t).(*types.Struct).Field(i).Type()
			v = e.ex.getPath(v, t, []pstep{{field: i}})
			t = ft
		}
	}
	return sval{v, t}
}

func (e *specEnv) index(s sval, ix ast.Expr) sval {
	if s.t == nil {
		if t, ok := s.v.(*Term); ok {
			if t.sort == sSeq {
				return sval{qat(t, e.intOf(ix)), nil}
			}
			if strings.HasPrefix(t.sort, "(Array Int") {
				return sval{mkSelect(t, e.intOf(ix), arrElem(t.sort)), nil}
			}
			if strings.HasPrefix(t.sort, "(Array ") {
				return sval{mkSelect(t, e.term(ix), splitSort(t.sort)[1]), nil}
			}
		}
		unsup("spec: index of untyped value")
	}
	switch u := under(s.t).(type) {
	case *types.Slice:
		t := s.v.(*Term)
		return sval{e.ex.elemAt(e.st, slRef(t), mkAdd(slOff(t), e.intOf(ix)), u.Elem()), u.Elem()}
	case *types.Basic:
		return sval{byteAt(s.v.(*Term), e.intOf(ix)), types.Typ[types.Uint8]}
	case *types.Array:
		return sval{e.ex.getPath(s.v, s.t, []pstep{{idx: e.intOf(ix)}}), u.Elem()}
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return sval{e.ex.elemAt(e.st, s.v.(*Term), e.intOf(ix), a.Elem()), a.Elem()}
		}
	case *types.Map:
		v, _ := e.ex.mapLookup(e.st, u, s.v.(*Term), e.term(ix))
		return sval{v, u.Elem()}
	}
	unsup("spec: index of %s", s.t)
	return sval{}
}

func (e *specEnv) eq(a, b sval) *Term {
	if a.v == nil && a.t == types.Typ[types.UntypedNil] {
		a, b = b, a
	}
	if b.v == nil && b.t == types.Typ[types.UntypedNil] {
		switch y := a.v.(type) {
		case *PtrV, *FnV:
			return tFals
		case *Term:
			switch y.sort {
			case sRef:
				return mkEq(y, tNull)
			case sIface:
				return mkEq(y, tINil)
			case sSlice:
				return mkEq(slRef(y), tNull)
			case sFn:
				return mkEq(y, tNilFn)
			}
		}
		unsup("spec: nil comparison")
	}
	x, y := a.v, b.v
	if tx, ok := x.(*Term); ok {
		if ty, ok := y.(*Term); ok {
			if tx.sort == sIface && ty.sort != sIface && b.t != nil {
				return mkEq(tx, mkIface(ty, b.t, nil))
			}
			if ty.sort == sIface && tx.sort != sIface && a.t != nil {
				return mkEq(mkIface(tx, a.t, nil), ty)
			}
			if tx.sort != ty.sort {
				unsup("spec: comparing %s with %s", tx.sort, ty.sort)
			}
			return mkEq(tx, ty)
		}
	}
	t := a.t
	if t == nil {
		t = b.t
	}
	if sx, ok := x.(*StructV); ok {
		return mkEq(toTerm(sx, t), toTerm(y, t))
	}
	return e.ex.eqVals(e.st, x, y, t)
}

func (e *specEnv) binary(y *ast.BinaryExpr) sval {
	switch y.Op {
	case token.LAND:
		return sval{mkAnd(e.boolOf(y.X), e.boolOf(y.Y)), nil}
	case token.LOR:
		return sval{mkOr(e.boolOf(y.X), e.boolOf(y.Y)), nil}
	case token.EQL:
		return sval{e.eq(e.eval(y.X), e.eval(y.Y)), nil}
	case token.NEQ:
		return sval{mkNot(e.eq(e.eval(y.X), e.eval(y.Y))), nil}
	}
	as, bs := e.eval(y.X), e.eval(y.Y)
	a, ok1 := as.v.(*Term)
	b, ok2 := bs.v.(*Term)
	if !ok1 || !ok2 {
		unsup("spec: binary operands")
	}
	if a.sort == sF64 || b.sort == sF64 {
		if isInt(a) {
			f, _ := new(big.Float).SetInt(a.iv).Float64()
			a = mkFloat(f)
		}
		if isInt(b) {
			f, _ := new(big.Float).SetInt(b.iv).Float64()
			b = mkFloat(f)
		}
		switch y.Op {
		case token.ADD:
			return sval{fop2("fadd", a, b), types.Typ[types.Float64]}
		case token.SUB:
			return sval{fop2("fsub", a, b), types.Typ[types.Float64]}
		case token.MUL:
			return sval{fop2("fmul", a, b), types.Typ[types.Float64]}
		case token.QUO:
			return sval{fop2("fdiv", a, b), types.Typ[types.Float64]}
		}
		return sval{fcmp(y.Op, a, b), nil}
	}
	if a.sort == sSeq && b.sort == sSeq {
		switch y.Op {
		case token.ADD:
			return sval{qcat(a, b), as.t}
		case token.LSS:
			return sval{mkApp("qlt", sBool, a, b), nil}
		case token.GTR:
			return sval{mkApp("qlt", sBool, b, a), nil}
		}
	}
	if a.sort != sInt || b.sort != sInt {
		unsup("spec: %s on %s,%s", y.Op, a.sort, b.sort)
	}
	switch y.Op {
	case token.ADD:
		return sval{mkAdd(a, b), nil}
	case token.SUB:
		return sval{mkSub(a, b), nil}
	case token.MUL:
		return sval{mkMul(a, b), nil}
	case token.QUO:
		return sval{mkDiv(a, b), nil}
	case token.REM:
		return sval{mkMod(a, b), nil}
	case token.LSS:
		return sval{mkLt(a, b), nil}
	case token.LEQ:
		return sval{mkLe(a, b), nil}
	case token.GTR:
		return sval{mkLt(b, a), nil}
	case token.GEQ:
		return sval{mkLe(b, a), nil}
	case token.SHL:
		if isInt(b) {
			return sval{mkMul(a, pow2(int(b.iv.Int64()))), nil}
		}
	case token.SHR:
		if isInt(b) {
			return sval{mkDiv(a, pow2(int(b.iv.Int64()))), nil}
		}
	case token.AND, token.OR, token.XOR:
		t := types.Type(types.Typ[types.Int])
		if as.t != nil {
			t = as.t
		} else if bs.t != nil {
			t = bs.t
		}
		return sval{e.ex.bitop(e.st, y.Op, a, b, t), nil}
	}
	unsup("spec: operator %s", y.Op)
	return sval{}
}

func (e *specEnv) quantVarSort(name string) string {
	switch name {
	case "Int", "int":
		return sInt
	case "Seq", "string":
		return sSeq
	case "Ref":
		return sRef
	case "Bool", "bool":
		return sBool
	case "F64", "float64":
		return sF64
	case "Iface":
		return sIface
	case "IntArr":
		return "(Array Int Int)"
	case "ByteHeap":
		return heapSort("(Array Int Int)")
	case "SliceArr":
		return "(Array Int " + sSlice + ")"
	case "RefArr":
		return "(Array Int " + sRef + ")"
	case "SeqArr":
		return "(Array Int " + sSeq + ")"
	}
	unsup("spec: sort %s", name)
	return ""
}

func (e *specEnv) call(y *ast.CallExpr) sval {
	ex := e.ex
	bsv := func(t *Term) sval { return sval{t, nil} }
	if t := e.typeOf(y.Fun); t != nil && len(y.Args) == 1 {
		a := e.eval(y.Args[0])
		if x, ok := a.v.(*Term); ok && sortOf(t) == sInt && x.sort == sInt {
			lo, hi, _ := intRange(t)
			l, h := e.st.interval(x)
			if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
				return sval{x, t}
			}
			bits, signed := bitsOf(t)
			m := pow2(bits)
			if !signed {
				return sval{mkMod(x, m), t}
			}
			hf := pow2(bits - 1)
			return sval{mkSub(mkMod(mkAdd(x, hf), m), hf), t}
		}
		if x, ok := a.v.(*Term); ok && x.sort == sF64 && sortOf(t) == sInt {
			r := mkApp("f2i$"+sanitize(typeKey(t)), sInt, x)
			rangeBy(r, t)
			return sval{r, t}
		}
		if x, ok := a.v.(*Term); ok && sortOf(t) == sF64 {
			if x.sort == sInt {
				if isInt(x) {
					return sval{mkFloat(float64(x.iv.Int64())), t}
				}
				return sval{mkApp("i2f", sF64, x), t}
			}
			return sval{x, t}
		}
		if types.IsInterface(t) && a.t != nil && !types.IsInterface(a.t) {
			return sval{mkIface(a.v, a.t, func(t *Term) { e.st.assume(t) }), t}
		}
		if _, isT := a.v.(*Term); isT {
			return sval{a.v, t}
		}
		return sval{a.v, t}
	}
	id, ok := y.Fun.(*ast.Ident)
	if ok {
		arg := func(i int) ast.Expr {
			if i >= len(y.Args) {
				unsup("spec: %s needs more arguments", id.Name)
			}
			return y.Args[i]
		}
		switch id.Name {
		case "old":
			return e.with(e.old).eval(arg(0))
		case "pre":
			fr := e.fr
			for fr.parent != nil && fr.entry == nil {
				fr = fr.parent
			}
			n := e.with(ex.top.entry)
			n.noLocals = true
			n.fr = ex.top
			return n.eval(arg(0))
		case "head":
			if e.head == nil {
				unsup("spec: head outside a loop step")
			}
			return e.with(e.head).eval(arg(0))
		case "entry":
			if e.lentry == nil {
				unsup("spec: entry outside a loop")
			}
			return e.with(e.lentry).eval(arg(0))
		case "len", "cap":
			s := e.eval(arg(0))
			t, ok := s.v.(*Term)
			if !ok {
				unsup("spec: len")
			}
			switch t.sort {
			case sSlice:
				if id.Name == "cap" {
					return bsv(slCap(t))
				}
				return bsv(slLen(t))
			case sSeq:
				return bsv(qlen(t))
			}
			if mt, ok := under(s.t).(*types.Map); ok {
				_, _, ml := mapKeys(mt)
				return bsv(withRange(mkSelect(ex.heapGet(e.st, ml, heapSort(sInt)), t, sInt), big0, maxLen))
			}
			if at, ok := under(s.t).(*types.Array); ok {
				return bsv(mkI(at.Len()))
			}
		case "imp":
			return bsv(mkImp(e.boolOf(arg(0)), e.boolOf(arg(1))))
		case "iff":
			return bsv(mkEq(e.boolOf(arg(0)), e.boolOf(arg(1))))
		case "ite":
			c := e.boolOf(arg(0))
			switch e.st.decide(c) {
			case 1:
				return e.eval(arg(1))
			case -1:
				return e.eval(arg(2))
			}
			a, b := e.eval(arg(1)), e.eval(arg(2))
			m, ok := mergeVal(c, a.v, b.v)
			if !ok {
				unsup("spec: ite branches")
			}
			t := a.t
			if t == nil {
				t = b.t
			}
			return sval{m, t}
		case "min", "max":
			a, b := e.intOf(arg(0)), e.intOf(arg(1))
			if id.Name == "min" {
				return bsv(mkIte(mkLe(a, b), a, b))
			}
			return bsv(mkIte(mkLe(a, b), b, a))
		case "forall", "exists":
			// forall(k, lo, hi, P) | forall(k, Sort, P)
			vn := arg(0).(*ast.Ident).Name
			if len(y.Args) == 3 {
				sn := arg(1).(*ast.Ident).Name
				var v *Term
				var vt types.Type
				srt := ""
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); !ok {
								panic(r)
							}
						}
					}()
					srt = e.quantVarSort(sn)
				}()
				if srt == "" {
					vt = e.typeOf(arg(1))
					if vt == nil {
						unsup("spec: quantifier domain %s", sn)
					}
					srt = sortOf(vt)
				}
				v = freshBound(vn, srt)
				body := e.bind(vn, sval{v, vt}).boolOf(arg(2))
				if id.Name == "forall" {
					return bsv(mkForall([]*Term{v}, body))
				}
				return bsv(mkExists([]*Term{v}, body))
			}
			lo, hi := e.intOf(arg(1)), e.intOf(arg(2))
			if isInt(lo) && isInt(hi) && new(big.Int).Sub(hi.iv, lo.iv).Cmp(big.NewInt(16)) <= 0 {
				var cs []*Term
				for i := new(big.Int).Set(lo.iv); i.Cmp(hi.iv) < 0; i = new(big.Int).Add(i, big1) {
					cs = append(cs, e.bind(vn, sval{mkInt(i), nil}).boolOf(arg(3)))
				}
				if id.Name == "forall" {
					return bsv(mkAnd(cs...))
				}
				return bsv(mkOr(cs...))
			}
			v := freshBound(vn, sInt)
			body := e.bind(vn, sval{v, nil}).boolOf(arg(3))
			g := mkAnd(mkLe(lo, v), mkLt(v, hi))
			if id.Name == "forall" {
				return bsv(mkForall([]*Term{v}, mkImp(g, body)))
			}
			alts := []*Term{mkExists([]*Term{v}, mkAnd(g, body))}
			for _, w := range e.wits {
				// adds nothing to the meaning: each is an instance
				alts = append(alts, mkAnd(mkLe(lo, w), mkLt(w, hi), e.bind(vn, sval{w, nil}).boolOf(arg(3))))
			}
			return bsv(mkOr(alts...))
		case "seq":
			s := e.eval(arg(0))
			t := s.v.(*Term)
			if t.sort == sSeq {
				return sval{t, types.Typ[types.String]}
			}
			if t.sort == sSlice {
				return sval{ex.seqOf(e.st, t, under(s.t).(*types.Slice).Elem()), types.Typ[types.String]}
			}
			if at, ok := under(s.t).(*types.Array); ok {
				return sval{mkseq(t, mkI(0), mkI(at.Len())), types.Typ[types.String]}
			}
		case "le16", "le32", "le64", "byteat":
			w := map[string]int{"le16": 2, "le32": 4, "le64": 8, "byteat": 1}[id.Name]
			s := e.eval(arg(0))
			i := mkI(0)
			if len(y.Args) > 1 {
				i = e.intOf(arg(1))
			}
			at := func(k int64) *Term {
				t := s.v.(*Term)
				if t.sort == sSeq {
					return byteAt(t, mkAdd(i, mkI(k)))
				}
				if t.sort == sSlice {
					return ex.byteOf(e.st, t, mkAdd(i, mkI(k)))
				}
				return rangeBy(mkSelect(t, mkAdd(i, mkI(k)), sInt), tByte)
			}
			return bsv(leBytes(at, w))
		case "fresh":
			s := e.eval(arg(0))
			switch p := s.v.(type) {
			case *Term:
				r := p
				if p.sort == sSlice {
					r = slRef(p)
				}
				if p.sort == sIface {
					r = sel("vref", p)
				}
				return bsv(mkLe(e.old.ctr, ridTerm(r)))
			}
			return bsv(tTrue)
		case "sameslice":
			return bsv(mkEq(e.term(arg(0)), e.term(arg(1))))
		case "disjoint":
			a, b := e.term(arg(0)), e.term(arg(1))
			if a.sort == sSlice {
				a = slRef(a)
			}
			if b.sort == sSlice {
				b = slRef(b)
			}
			return bsv(mkNot(mkEq(a, b)))
		case "refof":
			a := e.term(arg(0))
			if a.sort == sSlice {
				return bsv(slRef(a))
			}
			return bsv(a)
		case "arr": // backing array of a slice
			a := e.eval(arg(0))
			t := a.v.(*Term)
			et := under(a.t).(*types.Slice).Elem()
			return bsv(ex.arrAt(e.st, slRef(t), et))
		case "bytes": // the contents of all byte arrays in this state
			return bsv(ex.heapGet(e.st, ekey(types.Typ[types.Uint8]), heapSort("(Array Int Int)")))
		case "off":
			return bsv(slOff(e.term(arg(0))))
		case "typeis":
			i := e.eval(arg(0))
			t := e.typeOf(arg(1))
			if t == nil {
				unsup("spec: type")
			}
			if i.t != nil && !types.IsInterface(i.t) {
				return bsv(mkBool(types.Identical(i.t, t)))
			}
			return bsv(ifaceIs(i.v.(*Term), t))
		case "as":
			i := e.eval(arg(0))
			t := e.typeOf(arg(1))
			if t == nil {
				unsup("spec: type")
			}
			return sval{ifaceGet(i.v.(*Term), t), t}
		case "has":
			m := e.eval(arg(0))
			_, d := ex.mapLookup(e.st, under(m.t).(*types.Map), m.v.(*Term), e.term(arg(1)))
			return bsv(d)
		case "heap": // heap("X|key", Sort, ref)
			k, _ := strconv.Unquote(arg(0).(*ast.BasicLit).Value)
			srt := e.quantVarSort(arg(1).(*ast.Ident).Name)
			r := e.term(arg(2))
			return bsv(mkSelect(ex.heapGet(e.st, k, heapSort(srt)), r, srt))
		case "app": // app("name", Sort, args...)
			k, _ := strconv.Unquote(arg(0).(*ast.BasicLit).Value)
			srt := e.quantVarSort(arg(1).(*ast.Ident).Name)
			var ts []*Term
			for _, a := range y.Args[2:] {
				s := e.eval(a)
				t := s.t
				if t == nil {
					ts = append(ts, s.v.(*Term))
				} else {
					ts = append(ts, ex.pureArg(e.st, s.v, t))
				}
			}
			return bsv(mkApp(k, srt, ts...))
		case "bxor":
			return bsv(bxor(e.intOf(arg(0)), e.intOf(arg(1))))
		case "instant": // nanoseconds of a timestamp
			v := e.eval(y.Args[0])
			return bsv(mkApp("tinstant", sInt, toTerm(v.v, v.t)))
		case "alloc": // already allocated before the call
			return bsv(mkLt(ridTerm(e.term(arg(0))), e.old.ctr))
		}
		if d, ok := ex.pr.sp.defines[id.Name]; ok {
			n := e
			if len(d.params) != len(y.Args) {
				unsup("spec: %s arity", id.Name)
			}
			var vs []sval
			for i := range d.params {
				vs = append(vs, e.eval(y.Args[i]))
			}
			for i, p := range d.params {
				n = n.bind(p, vs[i])
			}
			if pk := ex.pr.prog.ImportedPackage(d.pkg); pk != nil {
				m := *n
				m.pkg = pk.Pkg
				n = &m
			}
			return n.eval(d.body)
		}
		if g, ok := ex.pr.sp.ghosts[id.Name]; ok {
			var ts []*Term
			for i, a := range y.Args {
				s := e.eval(a)
				t, ok := s.v.(*Term)
				if !ok {
					t = toTerm(s.v, s.t)
				}
				if want := e.quantVarSort(g.args[i]); t.sort != want {
					if t.sort == sSlice && want == sSeq {
						t = ex.seqOf(e.st, t, under(s.t).(*types.Slice).Elem())
					} else {
						unsup("spec: ghost %s argument sort %s", id.Name, t.sort)
					}
				}
				ts = append(ts, t)
			}
			rs := e.quantVarSort(g.ret)
			var rt types.Type
			if rs == sSeq {
				rt = types.Typ[types.String]
			}
			return sval{mkApp("gh."+id.Name, rs, ts...), rt}
		}
	}
	// a real function: evaluate its body
	if fn, recv := e.lookupFunc(y.Fun); fn != nil {
		var args []Val
		if recv != nil {
			args = append(args, recv.v)
		}
		ps := fn.Signature.Params()
		for i, a := range y.Args {
			s := e.eval(a)
			if types.IsInterface(ps.At(i).Type()) && s.t != nil && !types.IsInterface(s.t) {
				s.v = mkIface(s.v, s.t, nil)
			}
			args = append(args, s.v)
		}
		return e.pureCall(fn, args)
	}
	// a function value: the result calls of it have
	if f := e.eval(y.Fun); f.t != nil {
		if sig, ok := under(f.t).(*types.Signature); ok && sig.Results().Len() == 1 {
			if ft, ok := f.v.(*Term); ok {
				ts := []*Term{ft}
				for i, a := range y.Args {
					s := e.eval(a)
					pt := sig.Params().At(i).Type()
					if types.IsInterface(pt) && s.t != nil && !types.IsInterface(s.t) {
						s.v = mkIface(s.v, s.t, nil)
					}
					ts = append(ts, ex.pureArg(e.st, s.v, pt))
				}
				return sval{ex.pureRes(e.st, dynName(sig), ts, sig.Results())[0].vals[0], sig.Results().At(0).Type()}
			}
		}
	}
	unsup("spec: call")
	return sval{}
}

func (e *specEnv) lookupFunc(x ast.Expr) (*ssa.Function, *sval) {
	switch y := x.(type) {
	case *ast.Ident:
		if pk := e.pkgOf(); pk != nil {
			if p := e.ex.pr.prog.Package(pk); p != nil {
				return p.Func(y.Name), nil
			}
		}
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok && !e.isLocalName(id.Name) {
			if _, isN := e.names[id.Name]; !isN {
				if pk := e.imported(id.Name); pk != nil {
					if p := e.ex.pr.prog.Package(pk); p != nil {
						if f := p.Func(y.Sel.Name); f != nil {
							return f, nil
						}
					}
				}
			}
		}
		r := e.eval(y.X)
		if r.t == nil {
			return nil, nil
		}
		if f := e.ex.pr.prog.LookupMethod(r.t, e.pkgOf(), y.Sel.Name); f != nil {
			return f, &r
		}
	}
	return nil, nil
}

// pureCall evaluates a real function symbolically in a scratch copy of the state.
func (e *specEnv) pureCall(fn *ssa.Function, args []Val) sval {
	return e.pureCallBinds(fn, args, nil)
}

func (e *specEnv) pureCallBinds(fn *ssa.Function, args, binds []Val) sval {
	ex := e.ex
	base := e.st.clone()
	ex.quiet++
	defer func() { ex.quiet-- }()
	n0 := base.pcLen()
	fr0 := tb.fresh
	ex.pure++
	defer func() { ex.pure-- }()
	pf := *e.fr
	pf.parent, pf.specRoot = nil, true
	rs := ex.callFn(&pf, base, fn, args, binds, nil)
	if len(rs) == 0 {
		unsup("spec: call of %s never returns", fn)
	}
	t := fn.Signature.Results().At(0).Type()
	var out Val
	for i := len(rs) - 1; i >= 0; i-- {
		r := rs[i]
		var cs []*Term
		for p := r.st.pc; p != nil && p.n > n0; p = p.parent {
			if !wfFacts[p.t] {
				cs = append(cs, p.t)
			}
		}
		if out == nil {
			out = r.vals[0]
			continue
		}
		m, ok := mergeVal(mkAnd(cs...), r.vals[0], out)
		if !ok {
			unsup("spec: cannot merge results of %s", fn)
		}
		out = m
	}
	if t, ok := out.(*Term); ok && t.bound {
		for _, x := range collect([]*Term{t}) {
			if i := strings.LastIndexByte(x.name, '!'); x.op == "var" && i >= 0 {
				if n, err := strconv.Atoi(x.name[i+1:]); err == nil && n > fr0 {
					unsup("spec: the value of %s depends on an unknown (%s) inside a quantifier", fn, x.name)
				}
			}
		}
	}
	return sval{out, t}
}

// ---- frames ----

func (ex *Exec) allowed(sp *FuncSpec, env *specEnv) map[string]*allowSet {
	out := map[string]*allowSet{}
	add := func(k string, r *Term) {
		a := out[k]
		if a == nil {
			a = &allowSet{}
			out[k] = a
		}
		if r == nil {
			a.all = true
		} else {
			a.refs = append(a.refs, r)
		}
	}
	var addType func(t types.Type, ref *Term)
	addType = func(t types.Type, ref *Term) {
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if isStruct(ft) || isArray(ft) {
					var r *Term
					if ref != nil {
						r = subRef(ref, t, i)
					}
					addType(ft, r)
					continue
				}
				add(fkey(t, i), ref)
			}
		case *types.Array:
			add(ekey(u.Elem()), ref)
		default:
			add(ckey(t), ref)
		}
	}
	for _, m := range sp.modifies {
		switch y := m.(type) {
		case *ast.Ident: // global variable
			if pk := env.pkgOf(); pk != nil {
				if v, ok := pk.Scope().Lookup(y.Name).(*types.Var); ok {
					g := ex.pr.prog.Package(pk).Members[v.Name()].(*ssa.Global)
					add("G|"+g.String(), nil)
					continue
				}
			}
			unsup("modifies %s", y.Name)
		case *ast.StarExpr:
			p := env.eval(y.X)
			switch pv := p.v.(type) {
			case *Term:
				addType(under(p.t).(*types.Pointer).Elem(), pv)
			default:
				unsup("modifies through interior pointer")
			}
		case *ast.SelectorExpr:
			b := env.eval(y.X)
			pt, ok := under(b.t).(*types.Pointer)
			if !ok {
				unsup("modifies field of a non pointer")
			}
			bt, ok := b.v.(*Term)
			if !ok {
				unsup("modifies through interior pointer")
			}
			if y.Sel.Name == "_all" {
				addType(pt.Elem(), bt)
				continue
			}
			i := fieldIdx(pt.Elem(), y.Sel.Name)
			ft := under(pt.Elem()).(*types.Struct).Field(i).Type()
			if isStruct(ft) || isArray(ft) {
				addType(ft, subRef(bt, pt.Elem(), i))
			} else {
				add(fkey(pt.Elem(), i), bt)
			}
		case *ast.IndexExpr:
			b := env.eval(y.X)
			switch u := under(b.t).(type) {
			case *types.Slice:
				add(ekey(u.Elem()), slRef(b.v.(*Term)))
			case *types.Map:
				x1, x2, x3 := mapKeys(u)
				r := b.v.(*Term)
				add(x1, r)
				add(x2, r)
				add(x3, r)
			default:
				unsup("modifies elements of %s", b.t)
			}
		case *ast.CallExpr:
			fn := y.Fun.(*ast.Ident).Name
			switch fn {
			case "elems":
				t := env.typeOf(y.Args[0])
				if t == nil {
					unsup("modifies elems")
				}
				add(ekey(t), nil)
			case "maps":
				t := env.typeOf(y.Args[0])
				x1, x2, x3 := mapKeys(under(t).(*types.Map))
				add(x1, nil)
				add(x2, nil)
				add(x3, nil)
			case "allfields":
				addType(env.typeOf(y.Args[0]), nil)
			case "fields":
				se := y.Args[0].(*ast.SelectorExpr)
				t := env.typeOf(se.X)
				i := fieldIdx(t, se.Sel.Name)
				ft := under(t).(*types.Struct).Field(i).Type()
				if isStruct(ft) || isArray(ft) {
					addType(ft, nil)
				} else {
					add(fkey(t, i), nil)
				}
			case "heap":
				k, _ := strconv.Unquote(y.Args[0].(*ast.BasicLit).Value)
				if len(y.Args) > 1 {
					add(k, env.term(y.Args[1]))
				} else {
					add(k, nil)
				}
			default:
				unsup("modifies %s", fn)
			}
		default:
			unsup("modifies %T", m)
		}
	}
	if sp.modAll {
		return nil
	}
	return out
}

// ---- loops ----

func (ex *Exec) loopSpecs(fr *Frame) []*FuncSpec {
	var out []*FuncSpec
	if ex.pr.sp == nil {
		return nil
	}
	seen := map[*FuncSpec]bool{}
	for f := fr; f != nil; f = f.parent {
		if s := ex.pr.sp.funcs[shortName(f.fn)]; s != nil && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func (ex *Exec) loopEnv(fr *Frame, l *Loop, st, entry *State) *specEnv {
	return &specEnv{ex: ex, fr: fr, st: st, old: fr.entry, at: l.header, loop: l, lentry: entry}
}

func (ex *Exec) userCands(fr *Frame, l *Loop, entry *State) []*Cand {
	var out []*Cand
	for _, s := range ex.loopSpecs(fr) {
		own := s.name == shortName(fr.fn)
		for i, c := range s.invs {
			if c.loop != 0 && (!own || c.loop != l.ord) {
				continue
			}
			c := c
			out = append(out, &Cand{name: fmt.Sprintf("user %s/%d %s", s.name, i, c.text), user: true, tags: c.tags, cl: c, eval: func(st *State) *Term {
				return c.labelFacts(ex.loopEnv(fr, l, st, entry).boolOf(c.expr))
			}})
		}
	}
	return out
}

type userMeas struct {
	name string
	f    func(st *State) []*Term
}

func (ex *Exec) userMeasures(fr *Frame, l *Loop, entry *State) []userMeas {
	var out []userMeas
	for _, s := range ex.loopSpecs(fr) {
		own := s.name == shortName(fr.fn)
		for _, c := range s.decs {
			if c.loop != 0 && (!own || c.loop != l.ord) {
				continue
			}
			c := c
			out = append(out, userMeas{"user " + c.text, func(st *State) []*Term {
				var ts []*Term
				for _, x := range c.more {
					ts = append(ts, ex.loopEnv(fr, l, st, entry).intOf(x))
				}
				return ts
			}})
		}
	}
	return out
}

func (ex *Exec) specLoopStart(fr *Frame, l *Loop, hs *State) {}

func (ex *Exec) specLoopEnd(fr *Frame, l *Loop, head *State, backs []*State, entry *State) {
	for _, s := range ex.loopSpecs(fr) {
		own := s.name == shortName(fr.fn)
		for _, c := range s.steps {
			if c.loop != 0 && (!own || c.loop != l.ord) {
				continue
			}
			for _, b := range backs {
				if b.dead {
					continue
				}
				env := ex.loopEnv(fr, l, b, entry)
				env.head = head
				var g *Term
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); !ok {
								panic(r)
							}
						}
					}()
					g = env.boolOf(c.expr)
				}()
				if g == nil {
					ex.note("loop step clause not applicable: " + c.text)
					continue
				}
				ex.check(b, g, "step", loopPos(l), "loop step: "+c.text, c.tags...)
			}
		}
	}
}

// atCall: ghost updates and assertions attached to calls
func (ex *Exec) atCall(fr *Frame, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) {
	if ex.cur == nil || len(ex.cur.ats) == 0 || fr == nil {
		return
	}
	nm := shortName(fn)
	for _, c := range ex.cur.ats {
		if c.call != nm && c.call != fn.Name() {
			continue
		}
		env := &specEnv{ex: ex, fr: fr, st: st, old: ex.top.entry, names: map[string]sval{}}
		if in != nil {
			env.at = in.Block()
		}
		for i, a := range args {
			var pt types.Type
			if i < len(fn.Params) {
				pt = fn.Params[i].Type()
			} else if r := fn.Signature.Recv(); r != nil && i == 0 {
				pt = r.Type()
			} else {
				k := i
				if r != nil {
					k--
				}
				pt = fn.Signature.Params().At(k).Type()
			}
			env.names[fmt.Sprintf("a%d", i)] = sval{a, pt}
		}
		if c.set != "" {
			st.ghosts[c.set] = env.term(c.expr)
			continue
		}
		ex.check(st, env.boolOf(c.expr), "atcall", posOf(in), "at call of "+nm+": "+c.text, c.tags...)
	}
}

// ---- axioms from spec files ----

func (ss *SpecSet) installAxioms(ex *Exec) error {
	for _, a := range ss.axioms {
		p := strings.SplitN(a, "\x00", 2)
		if err := ss.installAxiom(ex, p[0], p[1]); err != nil {
			return err
		}
	}
	return nil
}

// axiom NAME (s Seq, i Int) {pat} EXPR
func (ss *SpecSet) installAxiom(ex *Exec, where, text string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s: axiom: %v", where, r)
		}
	}()
	name, rest := cut(text)
	env := &specEnv{ex: ex, fr: &Frame{fn: ex.pr.all[0], params: map[string]Val{}}, st: newState(), noLocals: true, names: map[string]sval{}}
	env.old = env.st
	var vars []*Term
	if strings.HasPrefix(rest, "(") {
		j := strings.IndexByte(rest, ')')
		for _, d := range strings.Split(rest[1:j], ",") {
			f := strings.Fields(d)
			if len(f) != 2 {
				continue
			}
			srt := env.quantVarSort(f[1])
			v := freshBound(f[0], srt)
			vars = append(vars, v)
			var t types.Type
			if srt == sSeq {
				t = types.Typ[types.String]
			}
			env.names[f[0]] = sval{v, t}
		}
		rest = strings.TrimSpace(rest[j+1:])
	}
	var pats [][]*Term
	trig := map[string]bool{}
	for strings.HasPrefix(rest, "{") {
		j := strings.IndexByte(rest, '}')
		var ps []*Term
		for _, x := range splitTop(rest[1:j]) {
			e, err := parser.ParseExpr(x)
			if err != nil {
				return err
			}
			t := env.term(e)
			ps = append(ps, t)
			for _, u := range collect([]*Term{t}) {
				if u.op == "app" && strings.HasPrefix(u.name, "gh.") {
					trig[u.name] = true
				}
			}
		}
		pats = append(pats, ps)
		rest = strings.TrimSpace(rest[j+1:])
	}
	e, err := parser.ParseExpr(rest)
	if err != nil {
		return err
	}
	body := env.boolOf(e)
	addAxiom("spec:"+name, mkForall(vars, body, pats...), sortedStrs(trig)...)
	return nil
}
