package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gowp verify|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	fn := fs.String("fn", "", "regexp-free substring list, comma separated")
	prop := fs.String("prop", "", "property")
	v := fs.Bool("v", false, "")
	slow := fs.Float64("slow", 10, "")
	nopanic := fs.Bool("nopanic", false, "")
	fs.Parse(args)
	eng, err := newEngine(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	P = newPool()
	sp, err := loadSpecs(*specs, eng)
	if err != nil {
		fmt.Println("specs:", err)
		os.Exit(2)
	}
	eng.specs = sp
	eng.prop = *prop
	eng.verbose = *v
	eng.panicTags = (*prop == "" || *prop == "A06") && !*nopanic
	var names []string
	for n, c := range sp.cons {
		if c.Trusted || c.Inline {
			continue
		}
		if *fn == "" {
			names = append(names, n)
			continue
		}
		for _, s := range strings.Split(*fn, ",") {
			if n == s || strings.HasSuffix(n, s) {
				names = append(names, n)
				break
			}
		}
	}
	sort.Strings(names)
	sol := newSolver("/tmp/gowp")
	sol.slow = *slow
	bad := 0
	for _, n := range names {
		r := eng.verifyFn(n, sol)
		ok := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				ok++
			}
		}
		flag := "ok  "
		if r.Err != "" || ok < len(r.Obls) || r.Vacuous != "" {
			flag = "FAIL"
			bad++
		}
		fmt.Printf("%s %-50s %d/%d obligations, %d inferred, %d rounds, %.1fs (solver %.1fs) %s %s\n", flag, n, ok, len(r.Obls), r.Candidates, r.Rounds, r.Time, r.SolverTime, r.Err, r.Vacuous)
		for _, o := range r.Obls {
			if o.Status != "proved" {
				p := dumpQuery("/tmp/gowp", n+"_"+o.Name, o.Query)
				fmt.Printf("     FAILED %s %s [%s] %s\n", o.Name, o.Pos, o.Status, p)
				for _, g := range o.SubGoals {
					fmt.Printf("        goal: %s\n", g)
				}
			} else if *v {
				fmt.Printf("     ok %s %s (%s %.2fs)\n", o.Name, o.Pos, o.Solver, o.Time)
			}
		}
		if *v {
			fmt.Println("     inlined:", r.Inlined, "contracts:", r.Contracts, "externs:", r.Externs)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
