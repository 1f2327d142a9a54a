package main

import (
	"flag"
	"fmt"
	"math/big"
	"os"
	"strings"
)

func newBig(s string) (*big.Int, bool) { return new(big.Int).SetString(s, 10) }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "unit":
		cmdUnit(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	dir := fs.String("dir", "/repo", "tree")
	specs := fs.String("specs", "/verif/contracts", "contract files")
	prop := fs.String("prop", "", "property")
	fs.Parse(args)
	pr, err := loadProg(*dir, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	ss, err := parseSpecs(*specs, *prop, pr.root)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	pr.sp = ss
	ex := newExec(pr)
	if err := ss.installAxioms(ex); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if fs.NArg() == 1 && fs.Arg(0) == "list" {
		for _, f := range pr.all {
			fmt.Println(shortName(f))
		}
		return
	}
	names := fs.Args()
	if len(names) == 1 && strings.HasSuffix(names[0], ".*") {
		p := strings.TrimSuffix(names[0], "*")
		names = nil
		for _, f := range pr.all {
			n := shortName(f)
			if strings.HasPrefix(n, p) && !strings.HasSuffix(n, ".init") {
				names = append(names, n)
			}
		}
	}
	rs, miss := verifyUnits(pr, names, true)
	for _, m := range miss {
		fmt.Println("MISSING", m)
	}
	bad := 0
	for _, r := range rs {
		st := "ok"
		if r.Vacuous {
			st = "VACUOUS"
		}
		if r.Unsup != "" {
			st = "UNSUPPORTED " + r.Unsup
		}
		if len(r.Failed) > 0 {
			st += fmt.Sprintf(" FAILED %d", len(r.Failed))
		}
		fmt.Printf("%-40s proved %d trivial %d rets %d  %s %v\n", r.Name, r.Proved, r.Trivial, r.Returns, st, r.BySolver)
		for _, o := range r.Failed {
			bad++
			fmt.Printf("   %-9s %-9s %s %s  %s\n", o.status, o.kind, o.pos, o.text, strings.Join(o.tags, ","))
			if os.Getenv("GOVER_CEX") != "" {
				fmt.Println(o.counterexample())
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
