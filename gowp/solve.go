package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type Solver struct {
	workers int
	dir     string
	quick   float64 // seconds for candidate obligations
	slow    float64
	mu      sync.Mutex
	count   int
	total   float64
	byName  map[string]int
}

func newSolver(dir string) *Solver {
	return &Solver{workers: 8, dir: dir, quick: 2, slow: 10, byName: map[string]int{}}
}

// splitGoal breaks a goal into (hypotheses, atomic goal) pairs; skolemises.
type sub struct {
	hyps []*Term
	goal *Term
}

func splitGoal(hyps []*Term, g *Term, sk *int) []sub {
	switch g.op {
	case "true":
		return nil
	case "and":
		var out []sub
		for _, a := range g.args {
			out = append(out, splitGoal(hyps, a, sk)...)
		}
		return out
	case "=>":
		return splitGoal(append(append([]*Term{}, hyps...), g.args[0]), g.args[1], sk)
	case "or":
		// one disjunct that is an implication conclusion: treat the others as hypotheses
		best := -1
		for i, a := range g.args {
			if a.op == "and" || a.op == "forall" {
				if best < 0 {
					best = i
				}
			}
		}
		if best >= 0 {
			h := append([]*Term{}, hyps...)
			for i, a := range g.args {
				if i != best {
					h = append(h, Not(a))
				}
			}
			return splitGoal(h, g.args[best], sk)
		}
	case "forall":
		m := map[int]*Term{}
		for _, b := range g.bvs {
			*sk++
			m[b.id] = Sym(fmt.Sprintf("sk!%s!%d", strings.SplitN(b.name, ".", 2)[0], *sk), b.sort)
		}
		return splitGoal(hyps, Subst(g.args[0], m), sk)
	case "=":
		if g.args[0].sort == SBool && (hasQ(g.args[0]) || hasQ(g.args[1])) {
			a, b := g.args[0], g.args[1]
			x := splitGoal(append(append([]*Term{}, hyps...), a), b, sk)
			return append(x, splitGoal(append(append([]*Term{}, hyps...), b), a, sk)...)
		}
	}
	return []sub{{hyps, g}}
}

// simpFact simplifies a fact under literals known to be true; nil if irrelevant.
func simpFact(t *Term, known map[int]bool, knownNot map[int]bool) *Term {
	for t.op == "=>" {
		var rest []*Term
		for _, c := range conj(t.args[0]) {
			if known[c.id] {
				continue
			}
			if knownNot[c.id] {
				return nil
			}
			rest = append(rest, c)
		}
		if len(rest) == 0 {
			t = t.args[1]
			continue
		}
		return Imp(And(rest...), t.args[1])
	}
	if t.op == "true" {
		return nil
	}
	return t
}

func litsOf(ts ...*Term) (map[int]bool, map[int]bool) {
	k, n := map[int]bool{}, map[int]bool{}
	for _, t := range ts {
		for _, c := range conj(t) {
			k[c.id] = true
			n[Not(c).id] = true
		}
	}
	return k, n
}

type query struct {
	text string
}

// buildQuery renders an SMT-LIB query: facts, guard, hyps and the negated goal.
func buildQuery(e *Exec, facts []Fact, guard *Term, hyps []*Term, goal *Term) string {
	known, knownNot := litsOf(append([]*Term{guard}, hyps...)...)
	var as []*Term
	as = append(as, guard)
	as = append(as, hyps...)
	for _, f := range facts {
		if x := simpFact(f.t, known, knownNot); x != nil {
			as = append(as, x)
		}
	}
	var list []*Term
	for _, a := range as {
		list = append(list, expandPos(a))
	}
	ng := expandPos(Not(goal))
	return render(e, list, ng)
}

func render(e *Exec, list []*Term, ng *Term) string {
	seen := map[int]bool{}
	syms := map[string]Sort{}
	funs := map[string]bool{}
	uses := map[int]int{}
	order := []*Term{}
	var defs []*Term
	defSeen := map[int]bool{}
	h0 := map[string]*Term{}
	visit := func(t *Term) {}
	visit = func(t *Term) {
		collect(t, seen, func(x *Term) {
			order = append(order, x)
			for _, a := range x.args {
				uses[a.id]++
			}
			if x.p != nil {
				for _, m := range x.p.ms {
					for _, f := range m.f {
						uses[f.id]++
					}
				}
			}
			switch x.op {
			case "sym":
				syms[x.name] = x.sort
				if d, ok := P.defs[x.id]; ok && !defSeen[x.id] {
					defSeen[x.id] = true
					defs = append(defs, x)
					_ = d
				}
				if strings.HasPrefix(x.name, "H0!") {
					h0[x.name] = x
				}
			case "app":
				switch x.name {
				case "mkslc", "sref", "soff", "slen", "scap":
				default:
					funs[x.name] = true
				}
			}
		})
	}
	for _, a := range list {
		visit(a)
	}
	visit(ng)
	// definitions and axioms, to a fixpoint
	var extra []*Term
	di := 0
	h0done := map[string]bool{}
	axDone := map[string]bool{}
	for {
		changed := false
		for di < len(defs) {
			d := P.defs[defs[di].id]
			di++
			visit(d)
			changed = true
		}
		var hk []string
		for k := range h0 {
			hk = append(hk, k)
		}
		sort.Strings(hk)
		for _, k := range hk {
			if h0done[k] {
				continue
			}
			h0done[k] = true
			for _, t := range closedHeapFacts(k[3:], h0[k], e.entry.alloc) {
				extra = append(extra, t)
				visit(t)
				changed = true
			}
		}
		var zs []string
		for n := range syms {
			if strings.HasPrefix(n, "zrow$") || strings.HasPrefix(n, "zdom$") {
				zs = append(zs, n)
			}
		}
		sort.Strings(zs)
		for _, n := range zs {
			if h0done[n] {
				continue
			}
			h0done[n] = true
			ss := splitSort(syms[n])
			x := BV("zx", ss[0])
			sel := P.mk(&Term{op: "select", sort: ss[1], args: []*Term{Sym(n, syms[n]), x}})
			t := Forall([]*Term{x}, Eq(sel, zeroTerm(ss[1])), []*Term{sel})
			extra = append(extra, t)
			visit(t)
			changed = true
		}
		for _, t := range e.eng.axioms(e, funs, syms, axDone) {
			t = expandPos(t)
			extra = append(extra, t)
			visit(t)
			changed = true
		}
		if !changed {
			break
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models false)\n(declare-sort F64 0)(declare-sort F32 0)(declare-sort Str 0)(declare-sort Ifc 0)\n")
	sb.WriteString("(declare-datatypes ((Slc 0)) (((mkslc (sref Int) (soff Int) (slen Int) (scap Int)))))\n")
	var ns []string
	for n := range syms {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var strs []string
	for _, n := range ns {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", q(n), syms[n])
		if strings.HasPrefix(n, "str$") {
			strs = append(strs, q(n))
		}
	}
	var fl64, fl32 []string
	for _, n := range ns {
		if strings.HasPrefix(n, "f64$") {
			fl64 = append(fl64, q(n))
		}
		if strings.HasPrefix(n, "f32$") {
			fl32 = append(fl32, q(n))
		}
	}
	var fs []string
	for n := range funs {
		fs = append(fs, n)
	}
	sort.Strings(fs)
	for _, n := range fs {
		d := P.funs[n]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", q(n), strings.Join(d.args, " "), d.ret)
	}
	for _, l := range [][]string{strs, fl64, fl32} {
		if len(l) > 1 {
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(l, " "))
		}
	}
	// shared ground subterms get names
	named := map[int]string{}
	pr := &printer{named: named}
	for _, x := range order {
		if len(x.fv) > 0 || x.op == "sym" || x.op == "true" || x.op == "false" || x.op == "bv" {
			continue
		}
		if x.op == "poly" && len(x.p.ms) == 0 {
			continue
		}
		if uses[x.id] > 2 && len(x.args)+polyLen(x) > 1 && x.op != "forall" && !hasQ(x) {
			n := fmt.Sprintf("d!%d", x.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, x.sort, pr.def(x))
			named[x.id] = n
		}
	}
	for _, d := range defs {
		fmt.Fprintf(&sb, "(assert (= %s %s))\n", q(d.name), pr.str(P.defs[d.id]))
	}
	for _, t := range extra {
		fmt.Fprintf(&sb, "(assert %s)\n", pr.str(t))
	}
	done := map[int]bool{}
	for _, t := range list {
		if done[t.id] {
			continue
		}
		done[t.id] = true
		if t.op == "and" {
			for _, c := range t.args {
				fmt.Fprintf(&sb, "(assert %s)\n", pr.str(c))
			}
			continue
		}
		fmt.Fprintf(&sb, "(assert %s)\n", pr.str(t))
	}
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", pr.str(ng))
	return sb.String()
}

func polyLen(x *Term) int {
	if x.p == nil {
		return 0
	}
	n := 0
	for _, m := range x.p.ms {
		n += len(m.f)
	}
	return n
}

type cfg struct {
	name string
	args []string
}

var solvers = []cfg{
	{"z3-new", []string{"z3-new", "smt.auto_config=false", "smt.mbqi=false", "-in"}},
	{"z3", []string{"z3", "smt.auto_config=false", "smt.mbqi=false", "-in"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant", "-"}},
	{"z3-new-mbqi", []string{"z3-new", "-in"}},
	{"cvc5-plain", []string{"cvc5", "--lang=smt2", "-"}},
}

func runSolver(c cfg, text string, secs float64) (string, float64) {
	return runSolverCtx(context.Background(), c, text, secs)
}

func runSolverCtx(parent context.Context, c cfg, text string, secs float64) (string, float64) {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(parent, time.Duration((secs+1)*float64(time.Second)))
	defer cancel()
	args := append([]string{}, c.args[1:]...)
	if strings.HasPrefix(c.name, "z3") {
		args = append([]string{fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000"}, args...)
	} else {
		args = append([]string{fmt.Sprintf("--tlimit=%d", int(secs*1000))}, args...)
		text = "(set-logic ALL)\n" + text
	}
	cmd := exec.CommandContext(ctx, c.args[0], args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0).Seconds()
	s := strings.TrimSpace(out.String())
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l, el
		}
	}
	if strings.Contains(s, "error") && os.Getenv("GOWP_DEBUG") != "" {
		fmt.Println("SOLVER ERROR", c.name, s)
		os.WriteFile("/tmp/gowp_err.smt2", []byte(text), 0644)
	}
	if strings.Contains(s, "error") {
		return "error: " + s, el
	}
	return "timeout", el
}

// decide one query
func (s *Solver) decide(text string, quick bool) (status, solver string, el float64) {
	lim := s.slow
	if quick {
		lim = s.quick
	}
	st, t := runSolver(solvers[0], text, min(lim, 3))
	el += t
	if st == "unsat" {
		return "proved", solvers[0].name, el
	}
	if quick {
		if st == "timeout" || st == "unknown" {
			st2, t2 := runSolver(solvers[2], text, lim)
			el += t2
			if st2 == "unsat" {
				return "proved", solvers[2].name, el
			}
		}
		return "unknown", "", el
	}
	fails := []string{solvers[0].name + "=" + st}
	type r struct {
		st, n string
		t     float64
	}
	ch := make(chan r, len(solvers))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, c := range solvers[1:4] {
		c := c
		go func() {
			st, t := runSolverCtx(ctx, c, text, lim)
			ch <- r{st, c.name, t}
		}()
	}
	var win *r
	for i := 0; i < 3; i++ {
		x := <-ch
		el += x.t
		fails = append(fails, x.n+"="+x.st)
		if x.st == "unsat" && win == nil {
			x := x
			win = &x
			break
		}
	}
	if win != nil {
		return "proved", win.n, el
	}
	if st == "timeout" {
		st, t = runSolver(solvers[0], text, lim*2)
		el += t
		if st == "unsat" {
			return "proved", solvers[0].name, el
		}
	}
	return "failed (" + strings.Join(fails, ", ") + ")", "", el
}

func (s *Solver) solveAll(e *Exec, obls []*Obl, quick bool) []*OblResult {
	out := make([]*OblResult, len(obls))
	type job struct {
		i    int
		text string
		goal string
	}
	var jobs []job
	sk := 0
	for i, o := range obls {
		out[i] = &OblResult{Obl: o, Status: "proved", Solver: "simplifier"}
		for _, sg := range splitGoal(nil, o.goal, &sk) {
			gs := ""
			if !quick {
				gs = Show(sg.goal)
				if len(gs) > 600 {
					gs = gs[:600] + "..."
				}
			}
			jobs = append(jobs, job{i, buildQuery(e, e.facts[:o.nfacts], o.guard, sg.hyps, sg.goal), gs})
		}
	}
	var wg sync.WaitGroup
	ch := make(chan job)
	var mu sync.Mutex
	for w := 0; w < s.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				mu.Lock()
				skip := quick && out[j.i].Status != "proved"
				mu.Unlock()
				if skip {
					continue
				}
				st, sol, el := s.decide(j.text, quick)
				mu.Lock()
				s.count++
				s.total += el
				s.byName[sol]++
				r := out[j.i]
				r.Time += el
				if st != "proved" {
					r.Status = st
					r.Query = j.text
					r.SubGoals = append(r.SubGoals, j.goal)
				} else if r.Status == "proved" {
					r.Solver = sol
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	// other witnesses
	for i, o := range obls {
		if out[i].Status == "proved" || len(o.alts) == 0 {
			continue
		}
		var os []*Obl
		for _, a := range o.alts {
			c := *o
			c.goal, c.alts = a, nil
			os = append(os, &c)
		}
		for _, r := range s.solveAll(e, os, quick) {
			if r.Status == "proved" {
				r.Obl = o
				out[i] = r
				break
			}
		}
	}
	return out
}

// vacuity: the assumptions on entry, and those on the way to the normal exit, must
// not be contradictory.
func (s *Solver) vacuity(e *Exec) string {
	var nEntry []Fact
	for _, f := range e.facts {
		nEntry = append(nEntry, f)
	}
	if e.con != nil && e.con.NoReturn {
		return ""
	}
	if e.retReach == nil || e.retReach.op == "false" {
		return "no normal exit is reachable"
	}
	text := buildQuery(e, nEntry, e.retReach, nil, False())
	st, _ := runSolver(solvers[0], text, 2)
	if st == "unsat" {
		return "assumptions are contradictory: the normal exit is unreachable"
	}
	return ""
}

func dumpQuery(dir, name, text string) string {
	os.MkdirAll(dir, 0755)
	clean := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' {
			return r
		}
		return '_'
	}, name)
	if len(clean) > 120 {
		clean = clean[:120]
	}
	p := filepath.Join(dir, clean+".smt2")
	os.WriteFile(p, []byte(text), 0644)
	return p
}
