package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// propConf is one property's entry in contracts/props.txt.
type propConf struct {
	id      string
	units   []string
	replays [][2]string // package directory, test
	bounded [][3]string // package directory, test, stated bound
	assume  []string
	trusted []string
}

func readProps(file string) (map[string]*propConf, []string, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, nil, err
	}
	out := map[string]*propConf{}
	var order []string
	var cur *propConf
	for n, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		f := strings.Fields(l)
		rest := strings.TrimSpace(strings.TrimPrefix(l, f[0]))
		if f[0] == "prop" {
			cur = &propConf{id: f[1]}
			out[f[1]] = cur
			order = append(order, f[1])
			continue
		}
		if cur == nil {
			return nil, nil, fmt.Errorf("%s:%d: outside a prop", file, n+1)
		}
		switch f[0] {
		case "unit":
			cur.units = append(cur.units, f[1:]...)
		case "replay":
			cur.replays = append(cur.replays, [2]string{f[1], f[2]})
		case "bounded":
			cur.bounded = append(cur.bounded, [3]string{f[1], f[2], strings.Join(f[3:], " ")})
		case "assume":
			cur.assume = append(cur.assume, rest)
		case "trusted":
			cur.trusted = append(cur.trusted, rest)
		default:
			return nil, nil, fmt.Errorf("%s:%d: unknown keyword %s", file, n+1, f[0])
		}
	}
	return out, order, nil
}

// ---- one unit, in a process of its own ----

type obOut struct {
	Fn, Kind, Pos, Text, Status, By, Cex string
	Tags                                 []string
	Secs                                 float64
}

type unitOut struct {
	Name     string
	Missing  bool
	Obs      int
	Proved   int
	Trivial  int
	TrivBy   map[string]int
	Failed   []obOut
	Unsup    string
	Vacuous  bool
	Returns  int
	Callees  []string
	Inlined  []string
	Notes    []string
	Trusted  []string
	Assumed  []string // assumption clauses of the contract
	BySolver map[string]int
	SolverS  float64
	GenS     float64
	WallS    float64
	Contract bool
	Exported bool
	Post     int // postcondition obligations
	Retried  bool
}

func cmdUnit(args []string) { // dir specs prop name out
	dir, specs, prop, name, out := args[0], args[1], args[2], args[3], args[4]
	t0 := time.Now()
	u := runUnit(dir, specs, prop, name)
	u.WallS = time.Since(t0).Seconds()
	b, _ := json.Marshal(u)
	os.WriteFile(out, b, 0644)
}

func loadAll(dir, specs, prop string) (*Prog, error) {
	pr, err := loadProg(dir, nil)
	if err != nil {
		return nil, err
	}
	ss, err := parseSpecs(specs, prop, pr.root)
	if err != nil {
		return nil, err
	}
	pr.sp = ss
	if err := ss.installAxioms(newExec(pr)); err != nil {
		return nil, err
	}
	return pr, nil
}

func runUnit(dir, specs, prop, name string) (u *unitOut) {
	u = &unitOut{Name: name, TrivBy: map[string]int{}, BySolver: map[string]int{}}
	pr, err := loadAll(dir, specs, prop)
	if err != nil {
		u.Unsup = "load: " + err.Error()
		return
	}
	for _, b := range strings.Fields(os.Getenv("GOVER_BROKEN")) {
		pr.broken[b] = true
	}
	if strings.HasPrefix(name, "type ") {
		u.Callees, u.Returns = pr.functypeMembers(name), 1
		return
	}
	fn := pr.funcs[name]
	if fn == nil {
		u.Missing = true
		return
	}
	r := generate(pr, fn)
	discharge([]*FnResult{r})
	u.Exported = fn.Name()[0] >= 'A' && fn.Name()[0] <= 'Z'
	u.Obs, u.Proved, u.Trivial, u.TrivBy = len(r.Obs), r.Proved, r.Trivial, r.TrivBy
	u.Unsup, u.Vacuous, u.Returns = r.Unsup, r.Vacuous, r.Returns
	u.Callees, u.Inlined, u.Notes, u.Trusted, u.BySolver = r.Callees, r.Inlined, r.Notes, r.Trusted, r.BySolver
	u.GenS = r.Wall.Seconds()
	u.Contract = pr.spec(fn) != nil
	if sp := pr.spec(fn); sp != nil {
		for _, c := range sp.givens {
			u.Assumed = append(u.Assumed, name+": given "+c.text)
		}
	}
	for _, o := range r.Obs {
		u.SolverS += o.dur.Seconds()
		if o.kind == "post" {
			u.Post++
		}
	}
	for i, o := range r.Failed {
		x := obOut{Fn: o.fn, Kind: o.kind, Pos: o.pos, Text: o.text, Status: o.status, By: o.by, Tags: o.tags, Secs: o.dur.Seconds()}
		if i < 3 {
			x.Cex = o.counterexample()
		}
		u.Failed = append(u.Failed, x)
	}
	return
}

func (u *unitOut) bad() bool {
	return len(u.Failed) > 0 || u.Unsup != "" || u.Vacuous || u.Returns == 0
}

// allKnown: every failed obligation of these units is a recorded finding
func (c *checker) allKnown(us []*unitOut) bool {
	for _, u := range us {
		if u.Missing {
			continue
		}
		if u.Unsup != "" || u.Vacuous || u.Returns == 0 {
			return false
		}
		for _, o := range u.Failed {
			hit := false
			for _, k := range c.known {
				hit = hit || strings.Contains(normPos(fmt.Sprintf("%s: %s %s: %s", u.Name, o.Pos, o.Kind, o.Text)), k[0])
			}
			if !hit {
				return false
			}
		}
	}
	return true
}

// ---- the whole property ----

type checker struct {
	dir, specs, prop, verif string
	tmp                     string
	self                    string
	broken                  []string
	known                   [][2]string
	start                   time.Time

	mu      sync.Mutex
	running map[int]bool // process groups of the units being verified
	stopped bool         // running the code shows a failure: no proof can succeed any more
}

// shown: running the code has shown a failure; the proofs get a little longer, to name what fails
func (c *checker) shown() {
	time.AfterFunc(90*time.Second, func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		c.stopped = true
		for p := range c.running {
			syscall.Kill(-p, syscall.SIGKILL)
		}
	})
}

func (c *checker) unit(name string, mul int) *unitOut {
	out := filepath.Join(c.tmp, fmt.Sprintf("u%d_%s.json", mul, sanitize(name)))
	cmd := exec.Command(c.self, "unit", c.dir, c.specs, c.prop, name, out)
	cmd.Env = append(os.Environ(), "GOVER_SLOTS="+c.tmp, "GOVER_TMUL="+strconv.Itoa(mul), "GOVER_BROKEN="+strings.Join(c.broken, " "))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	u := &unitOut{Name: name}
	c.mu.Lock()
	if c.stopped {
		c.mu.Unlock()
		u.Unsup = "not verified: running the code already shows the failure"
		return u
	}
	if err := cmd.Start(); err != nil {
		c.mu.Unlock()
		u.Unsup = "cannot start: " + err.Error()
		return u
	}
	c.running[cmd.Process.Pid] = true
	c.mu.Unlock()
	left := 420*time.Second - time.Since(c.start)
	if mul > 1 {
		left = 720*time.Second - time.Since(c.start)
	}
	if left < 5*time.Second {
		left = 5 * time.Second
	}
	tm := time.AfterFunc(left, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	tm.Stop()
	c.mu.Lock()
	delete(c.running, cmd.Process.Pid)
	stopped := c.stopped
	c.mu.Unlock()
	b, rerr := os.ReadFile(out)
	if rerr != nil && stopped {
		u.Unsup = "not verified: running the code already shows the failure"
		return u
	}
	if rerr != nil {
		u.Unsup = fmt.Sprintf("verifier process failed: %v %s", err, truncate(eb.String(), 2000))
		return u
	}
	json.Unmarshal(b, u)
	return u
}

// expandUnits replaces "pkg.*" by every function of the package
func expandUnits(units []string, dir string) []string {
	var out []string
	var pr *Prog
	for _, u := range units {
		if !strings.HasSuffix(u, ".*") {
			out = append(out, u)
			continue
		}
		if pr == nil {
			var err error
			if pr, err = loadProg(dir, nil); err != nil {
				return append(out, units...) // reported by the units themselves
			}
		}
		for _, f := range pr.all {
			if n := shortName(f); strings.HasPrefix(n, strings.TrimSuffix(u, "*")) && !strings.HasSuffix(n, ".init") {
				out = append(out, n)
			}
		}
	}
	return out
}

func cmdCheck(args []string) {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gover check PROP")
		os.Exit(2)
	}
	start := time.Now()
	prop := args[0]
	verif := "/verif"
	dir := "/repo"
	if d := os.Getenv("GOVER_VERIF"); d != "" {
		verif = d
	}
	if d := os.Getenv("GOVER_REPO"); d != "" {
		dir = d
	}
	specs := filepath.Join(verif, "contracts")
	props, _, err := readProps(filepath.Join(specs, "props.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	pc := props[prop]
	if pc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "gover")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	c := &checker{dir: dir, specs: specs, prop: prop, verif: verif, tmp: tmp, self: self, start: start, running: map[int]bool{}}
	c.known, err = readKnown(filepath.Join(verif, "known_findings.txt"), prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}

	// bounded stand-ins run beside the proofs
	type bres struct {
		b   [3]string
		out *replayOut
	}
	var bounded []*bres
	var wg sync.WaitGroup
	for _, b := range pc.bounded {
		x := &bres{b: b}
		bounded = append(bounded, x)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.out = c.runReplay(b[0], b[1], tier, seed)
			if x.out.Fail {
				c.shown()
			}
		}()
	}
	// so do the replays, whose outcome counts only where an obligation fails
	early := make([]*replayOut, len(pc.replays))
	for i, r := range pc.replays {
		dup := false
		for _, b := range pc.bounded {
			dup = dup || b[0] == r[0] && b[1] == r[1]
		}
		if dup {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			early[i] = c.runReplay(r[0], r[1], tier, seed)
			if early[i].Fail {
				c.shown()
			}
		}()
	}
	us := c.runAll(expandUnits(pc.units, dir), tier)
	wg.Wait()
	// failures are tried again alone with larger limits, so that load alone raises no alarm,
	// unless running the code already shows the failure
	var concrete *replayOut
	for _, b := range bounded {
		if b.out.Fail {
			concrete = b.out
		}
	}
	anyBad := false
	for _, u := range us {
		anyBad = anyBad || u.bad() && !u.Missing
	}
	replayed := false
	if anyBad && concrete == nil && !c.allKnown(us) {
		replayed = true
		for _, o := range early {
			if o != nil && o.Fail {
				concrete = o
				break
			}
		}
	}
	if concrete == nil {
		var rw sync.WaitGroup
		sem := make(chan bool, 2)
		for i, u := range us {
			if u.bad() && !u.Missing && !c.allKnown([]*unitOut{u}) {
				rw.Add(1)
				go func() {
					defer rw.Done()
					sem <- true
					defer func() { <-sem }()
					if time.Since(start) > 450*time.Second {
						return
					}
					u2 := c.unit(u.Name, 4)
					u2.Retried = true
					us[i] = u2
				}()
			}
		}
		rw.Wait()
	}
	var failed []string
	var failTxt strings.Builder
	nOb, nDis, nTriv, nPost := 0, 0, 0, 0
	by := map[string]int{}
	solverS := 0.0
	trusted := map[string]bool{}
	notes := map[string]bool{}
	assumed := map[string]bool{}
	inl := map[string]bool{}
	var fns []map[string]any
	for _, u := range us {
		if u.Missing {
			// a renamed or removed function: its callers are verified with whatever took its place
			notes[u.Name+" is not in this tree; its callers are verified against the code itself"] = true
			continue
		}
		nOb += u.Obs + u.Trivial
		nDis += u.Proved + u.Trivial
		nTriv += u.Trivial
		nPost += u.Post
		for k, v := range u.BySolver {
			by[k] += v
		}
		solverS += u.SolverS
		for _, t := range u.Trusted {
			trusted[t] = true
		}
		for _, t := range u.Notes {
			notes[t] = true
		}
		for _, t := range u.Assumed {
			assumed[t] = true
		}
		for _, t := range u.Inlined {
			inl[t] = true
		}
		fns = append(fns, map[string]any{"function": u.Name, "obligations": u.Obs + u.Trivial, "discharged": u.Proved + u.Trivial, "by_simplifier": u.Trivial, "contract": u.Contract, "solver_s": round2(u.SolverS), "generate_s": round2(u.GenS), "retried": u.Retried})
		if u.Unsup != "" {
			failed = append(failed, u.Name+": not accepted: "+u.Unsup)
			fmt.Fprintf(&failTxt, "function %s: the verifier does not accept it: %s\n", u.Name, u.Unsup)
		}
		if u.Vacuous {
			failed = append(failed, u.Name+": contract precondition is unsatisfiable")
		} else if u.Returns == 0 && u.Unsup == "" {
			failed = append(failed, u.Name+": no return is reachable")
		}
		for _, o := range u.Failed {
			failed = append(failed, fmt.Sprintf("%s: %s %s: %s", u.Name, o.Pos, o.Kind, o.Text))
			fmt.Fprintf(&failTxt, "obligation of %s at %s\n  kind: %s\n  text: %s\n  verifier: %s (%s, %.1fs)\n", u.Name, o.Pos, o.Kind, o.Text, o.Status, o.By, o.Secs)
			if o.Cex != "" {
				fmt.Fprintf(&failTxt, "  candidate model:\n%s\n", indent(o.Cex, "    "))
			}
		}
	}
	known := c.known
	var open []string
	for _, f := range failed {
		hit := false
		for _, k := range known {
			if strings.Contains(normPos(f), k[0]) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k[1])
				hit = true
				break
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	viol := len(open) > 0
	bTxt := []map[string]any{}
	for _, b := range bounded {
		m := map[string]any{"test": b.b[0] + " " + b.b[1], "bound": b.b[2], "label": "bounded, not proved", "evaluations": b.out.Evals, "result": b.out.status()}
		bTxt = append(bTxt, m)
		if b.out.Fail {
			viol = true
		}
	}
	if viol && concrete == nil && !replayed {
		for _, o := range early {
			if o != nil && o.Fail {
				concrete = o
				break
			}
		}
	}
	status := 0
	if viol {
		status = 1
		rdir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(rdir, 0755)
		rp := filepath.Join(rdir, prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s is not upheld by %s\n\n", prop, dir)
		if len(open) > 0 {
			fmt.Fprintf(&sb, "obligations the verifier did not accept:\n")
			for _, f := range open {
				fmt.Fprintf(&sb, "  %s\n", f)
			}
			fmt.Fprintf(&sb, "\n%s\n", failTxt.String())
		}
		if concrete != nil {
			fmt.Fprintf(&sb, "failing input on the real code (%s):\n%s\n", concrete.Cmd, concrete.Out)
		} else {
			fmt.Fprintf(&sb, "no failing input was found by the replay harness\n")
		}
		fmt.Fprintf(&sb, "to repeat: cd /verif && %s\n", "./check.sh "+prop)
		os.WriteFile(rp, []byte(sb.String()), 0644)
		for _, f := range open {
			fmt.Println("FAILED", f)
		}
		if concrete != nil {
			fmt.Println(truncate(concrete.Out, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
	}
	cov := map[string]any{
		"obligations":                 nOb,
		"discharged":                  nDis,
		"discharged_by":               by,
		"discharged_by_simplifier":    nTriv,
		"postcondition_obligations":   nPost,
		"solver_seconds":              round2(solverS),
		"functions_verified":          fns,
		"functions_verified_inline":   sortedStrs(inl),
		"checker_cmd":                 "cd /verif && ./check.sh " + prop,
		"trusted_base":                append([]string{"gover (the symbolic executor and contract checker in /verif/gover)", "golang.org/x/tools/go/ssa translation of the Go source", "the SMT solvers z3 5.3.2, z3 4.8.12 and cvc5 1.1.2"}, append(pc.trusted, sortedStrs(trusted)...)...),
		"bounded_stand_ins_not_proof": bTxt,
		"notes":                       sortedStrs(notes),
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": append(append(append([]string{}, baseAssumptions...), pc.assume...), sortedStrs(assumed)...), "wall_s": round2(time.Since(start).Seconds()), "violations": len(open)}
	if concrete != nil && len(open) == 0 {
		ev["violations"] = 1
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		status = 2
	}
	if status == 0 {
		fmt.Printf("%s: %d obligations over %d functions discharged (%d by the simplifier), %.0fs\n", prop, nDis, len(fns), nTriv, time.Since(start).Seconds())
	}
	os.RemoveAll(tmp)
	os.Exit(status)
}

var baseAssumptions = []string{
	"slices and strings have at most 2^30 elements (length arithmetic up to that size is checked exactly; machine integers wrap as in Go)",
	"unlimited memory and stack: allocation failure and stack overflow are not modelled",
	"no data races: each function is verified as sequential code",
	"library errors and package-level error values are non-nil and distinct from each other",
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func indent(s, p string) string { return p + strings.ReplaceAll(s, "\n", "\n"+p) }

// normPos drops line numbers, so that a finding is identified by function, kind and text
func normPos(s string) string {
	f := strings.Fields(s)
	for i, w := range f {
		if j := strings.Index(w, ".go:"); j >= 0 {
			f[i] = w[:j+3]
		}
	}
	return strings.Join(f, " ")
}

func readKnown(file, prop string) (out [][2]string, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" ")
		p := strings.SplitN(l, " :: ", 2)
		if len(p) == 2 {
			out = append(out, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		}
	}
	return
}

// runAll verifies the units and, transitively, every contract they rely on.
func (c *checker) runAll(names []string, tier string) []*unitOut {
	var mu sync.Mutex
	res := map[string]*unitOut{}
	for {
		seen := map[string]bool{}
		sem := make(chan bool, 8)
		var wg sync.WaitGroup
		var add func(n string)
		add = func(n string) {
			mu.Lock()
			if seen[n] {
				mu.Unlock()
				return
			}
			seen[n] = true
			have := res[n]
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				u := have
				if u == nil {
					sem <- true
					mul := 1
					if tier == "thorough" {
						mul = 4
					}
					u = c.unit(n, mul)
					<-sem
					mu.Lock()
					res[n] = u
					mu.Unlock()
				}
				for _, k := range u.Callees {
					add(k)
				}
			}()
		}
		for _, n := range names {
			add(n)
		}
		wg.Wait()
		// a contract that no longer evaluates on this tree: verify the callers with the helper inlined
		redo := false
		for n, u := range res {
			if u.Unsup != "" && strings.HasPrefix(u.Unsup, "spec:") && !u.Exported && !contains(c.broken, n) {
				c.broken = append(c.broken, n)
				delete(res, n)
				redo = true
				for m, v := range res {
					if contains(v.Callees, n) {
						delete(res, m)
					}
				}
			}
		}
		if !redo {
			var out []*unitOut
			var ks []string
			for k := range res {
				if seen[k] {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				out = append(out, res[k])
			}
			return out
		}
	}
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// ---- replay of failures, and bounded stand-ins, against the real code ----

type replayOut struct {
	Fail  bool
	Built bool
	Out   string
	Cmd   string
	Evals int
}

func (r *replayOut) status() string {
	switch {
	case r.Fail:
		return "failed"
	case !r.Built:
		return "the harness does not build on this tree, not run"
	}
	return "held"
}

// runReplay runs one harness test, put beside the package's sources by an overlay.
// Files: /verif/replay/<dir>/zz_*_test.go; common ones are zz_common*_test.go.
func (c *checker) runReplay(pkg, test, tier string, seed int) *replayOut {
	src := filepath.Join(c.verif, "replay", pkg)
	ents, _ := os.ReadDir(src)
	rep := map[string]string{}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, "_test.go") {
			continue
		}
		if strings.HasPrefix(n, "zz_common") || strings.HasPrefix(n, "zz_"+strings.ToLower(strings.TrimPrefix(strings.TrimPrefix(test, "TestVerif"), "Bounded"))) {
			rep[filepath.Join(c.dir, pkg, n)] = filepath.Join(src, n)
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(c.tmp, "ov_"+sanitize(pkg+test)+".json")
	os.WriteFile(of, ov, 0644)
	r := &replayOut{}
	r.Cmd = fmt.Sprintf("cd %s && go test -overlay OVERLAY.json -vet=off -count=1 -run '^%s$' ./%s   (OVERLAY.json: %s)", c.dir, test, pkg, string(ov))
	cmd := exec.Command("go", "test", "-overlay", of, "-vet=off", "-count=1", "-timeout", "150s", "-run", "^"+test+"$", "-v", "./"+pkg)
	cmd.Dir = c.dir
	cmd.Env = append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed), "GOMEMLIMIT=6GiB")
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	err := cmd.Run()
	out := ob.String()
	r.Built = !strings.Contains(out, "[build failed]") && !strings.Contains(out, "[setup failed]") && strings.Contains(out, "=== RUN")
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "VERIF-EVALS "); i >= 0 {
			n, _ := strconv.Atoi(strings.TrimSpace(l[i+12:]))
			r.Evals += n
		}
	}
	r.Fail = r.Built && err != nil
	if len(out) > 12000 {
		out = out[:8000] + "\n...\n" + out[len(out)-3500:]
	}
	r.Out = out
	return r
}
