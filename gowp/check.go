package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- worker
type wireObl struct {
	Name, Text, Pos, Status, Solver string
	Time                            float64
	Goals                           []string
	Query                           string
}
type wireRes struct {
	Fn         string
	Obls       []wireObl
	Err        string
	Vacuous    string
	Candidates int
	Inlined    []string
	Contracts  []string
	Externs    []string
	Notes      []string
	Time       float64
	SolverTime float64
}
type wireReq struct {
	Fn          string
	Quick, Slow float64
	Workers     int
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	fs.Parse(args)
	out := json.NewEncoder(os.Stdout)
	eng, err := newEngine(*repo)
	if err == nil {
		P = newPool()
		eng.specs, err = loadSpecs(*specs, eng)
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	for in.Scan() {
		var rq wireReq
		if json.Unmarshal(in.Bytes(), &rq) != nil {
			continue
		}
		w := wireRes{Fn: rq.Fn}
		if err != nil {
			w.Err = "load: " + err.Error()
			out.Encode(w)
			continue
		}
		eng.prop = *prop
		eng.panicTags = *prop == "A06"
		sol := newSolver("")
		sol.quick, sol.slow, sol.workers = rq.Quick, rq.Slow, rq.Workers
		r := eng.verifyFn(rq.Fn, sol)
		w.Err, w.Vacuous, w.Candidates, w.Inlined, w.Contracts, w.Externs, w.Time, w.SolverTime = r.Err, r.Vacuous, r.Candidates, r.Inlined, r.Contracts, r.Externs, r.Time, r.SolverTime
		w.Notes = r.Notes
		for _, o := range r.Obls {
			x := wireObl{Name: o.Name, Text: o.text, Pos: o.Pos, Status: o.Status, Solver: o.Solver, Time: o.Time}
			if o.Status != "proved" {
				x.Goals, x.Query = o.SubGoals, o.Query
			}
			w.Obls = append(w.Obls, x)
		}
		out.Encode(w)
	}
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker(self, repo, specs, prop string) (*worker, error) {
	c := exec.Command(self, "worker", "-repo", repo, "-specs", specs, "-prop", prop)
	c.Stderr = os.Stderr
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	return &worker{c, in, bufio.NewReaderSize(o, 1<<20)}, c.Start()
}

func (w *worker) do(rq wireReq) (*wireRes, error) {
	b, _ := json.Marshal(rq)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	l, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r wireRes
	return &r, json.Unmarshal(l, &r)
}
func (w *worker) stop() { w.in.Close(); w.cmd.Process.Kill(); w.cmd.Wait() }

// proveAll verifies the functions of a property and, transitively, every function
// whose contract they use.
func proveAll(self, repo, specs string, sp *Specs, prop string, nw int, deadline time.Time) (map[string]*wireRes, []string) {
	var roots []string
	for n, c := range sp.cons {
		if c.Trusted || c.Inline {
			continue
		}
		for _, p := range c.Props {
			if p == prop {
				roots = append(roots, n)
			}
		}
	}
	sort.Strings(roots)
	res := map[string]*wireRes{}
	var skipped []string
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queued := map[string]bool{}
	var queue []string
	push := func(n string) {
		if c := sp.cons[n]; c == nil || c.Trusted || c.Inline || queued[n] {
			return
		}
		queued[n] = true
		queue = append(queue, n)
	}
	for _, n := range roots {
		push(n)
	}
	if len(queue) == 0 {
		return res, nil
	}
	busy := 0
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					cond.Broadcast()
					mu.Unlock()
					if w != nil {
						w.stop()
					}
					return
				}
				n := queue[0]
				queue = queue[1:]
				if time.Now().After(deadline) {
					skipped = append(skipped, n)
					mu.Unlock()
					continue
				}
				busy++
				mu.Unlock()
				if w == nil {
					w, _ = startWorker(self, repo, specs, prop)
				}
				var r *wireRes
				err := fmt.Errorf("worker did not start")
				if w != nil {
					tm := time.AfterFunc(time.Until(deadline)+60*time.Second, func() { w.cmd.Process.Kill() })
					r, err = w.do(wireReq{Fn: n, Quick: 3, Slow: 10, Workers: 3})
					tm.Stop()
				}
				if err != nil {
					if w != nil {
						w.stop()
					}
					w = nil
					r = &wireRes{Fn: n, Err: "verifier stopped: " + err.Error()}
				}
				mu.Lock()
				res[n] = r
				for _, c := range r.Contracts {
					push(c)
				}
				busy--
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	// second attempt, alone and with more time
	var again []string
	for n, r := range res {
		if !r.ok() {
			again = append(again, n)
		}
	}
	sort.Strings(again)
	if len(again) > 0 {
		nr := 2
		if len(again) == 1 {
			nr = 1
		}
		ch := make(chan string)
		var wg sync.WaitGroup
		for i := 0; i < nr; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w, err := startWorker(self, repo, specs, prop)
				if err != nil {
					for range ch {
					}
					return
				}
				defer w.stop()
				for n := range ch {
					if time.Now().After(deadline) || len(again) > 6 && len(again) > len(res)/2 {
						continue
					}
					tm := time.AfterFunc(time.Until(deadline)+60*time.Second, func() { w.cmd.Process.Kill() })
					r, err := w.do(wireReq{Fn: n, Quick: 6, Slow: 25, Workers: 8 / nr})
					tm.Stop()
					if err != nil {
						for range ch {
						}
						return
					}
					mu.Lock()
					res[n] = r
					mu.Unlock()
				}
			}()
		}
		for _, n := range again {
			ch <- n
		}
		close(ch)
		wg.Wait()
	}
	return res, skipped
}

func (r *wireRes) ok() bool {
	if r.Err != "" || r.Vacuous != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- replay driver
type drvReport struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Case     int64    `json:"case"`
	Failed   bool     `json:"failed"`
	What     string   `json:"what,omitempty"`
	History  []string `json:"history,omitempty"`
	Stack    string   `json:"stack,omitempty"`
	Cases    int64    `json:"cases"`
	Checks   int64    `json:"checks"`
	Distinct int64    `json:"distinct"`
	Samples  []string `json:"samples,omitempty"`
	WallS    float64  `json:"wall_s"`
}

func runDriver(bin, prop string, seed int64, secs float64, dir string, race bool) *drvReport {
	tag := fmt.Sprintf("%s-%d-%v", prop, seed, race)
	tmp := filepath.Join(dir, "d-"+tag)
	os.MkdirAll(tmp, 0755)
	out := filepath.Join(dir, tag+".json")
	c := exec.Command("timeout", "-k", "5", fmt.Sprint(int(secs)+90), bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-out", out, "-tmp", tmp)
	c.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1")
	var buf bytes.Buffer
	c.Stdout, c.Stderr = io.Discard, &buf
	err := c.Run()
	defer os.RemoveAll(tmp)
	r := &drvReport{}
	if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, r) == nil {
		if err == nil || r.Failed {
			return r
		}
	}
	// the process died: the code under test crashed it outside the calling goroutine
	r = &drvReport{Property: prop, Seed: seed, Case: -1, Failed: true}
	if b, e := os.ReadFile(out + ".case"); e == nil {
		if n, e := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64); e == nil {
			r.Case = n
			r.Cases = n + 1
		}
	}
	s := buf.String()
	if len(s) > 4000 {
		s = s[:4000]
	}
	r.What = "the process crashed (" + fmt.Sprint(err) + "): " + firstLine(s)
	r.Stack = s
	return r
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic") || strings.Contains(l, "fatal") || strings.Contains(l, "DATA RACE") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

// ---------------------------------------------------------------- check
func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	drv := fs.String("driver", "", "replay driver binary")
	drvRace := fs.String("driver-race", "", "replay driver built with -race")
	drvErr := fs.String("driver-err", "", "build error of the driver")
	work := fs.String("work", "", "scratch directory")
	levels := fs.String("levels", "", "json file with the level of each property")
	fs.Parse(args)
	t0 := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	secs, budget := 10.0, 420*time.Second
	if *tier == "thorough" {
		secs, budget = 90, 600*time.Second
	}
	self, _ := os.Executable()
	level := "proof"
	if b, err := os.ReadFile(*levels); err == nil {
		m := map[string]string{}
		json.Unmarshal(b, &m)
		if m[*prop] != "" {
			level = m[*prop]
		}
	}

	var proofs map[string]*wireRes
	var skipped []string
	var sp *Specs
	loadErr := ""
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		eng, err := newEngine(*repo)
		if err == nil {
			P = newPool()
			sp, err = loadSpecs(*specs, eng)
		}
		if err != nil {
			loadErr = err.Error()
			return
		}
		nw := runtime.NumCPU() / 2
		if nw < 2 {
			nw = 2
		}
		if nw > 5 {
			nw = 5
		}
		proofs, skipped = proveAll(self, *repo, *specs, sp, *prop, nw, t0.Add(budget))
	}()
	var drvs []*drvReport
	var dmu sync.Mutex
	addDrv := func(bin string, seeds []int64, secs float64, race bool) {
		var dw sync.WaitGroup
		for _, s := range seeds {
			s := s
			dw.Add(1)
			go func() {
				defer dw.Done()
				r := runDriver(bin, *prop, s, secs, *work, race)
				dmu.Lock()
				drvs = append(drvs, r)
				dmu.Unlock()
			}()
		}
		dw.Wait()
	}
	failedDrv := func() *drvReport {
		for _, d := range drvs {
			if d.Failed {
				return d
			}
		}
		return nil
	}
	if *drv != "" {
		seeds := []int64{seed, seed + 1000}
		if *tier == "thorough" {
			seeds = append(seeds, seed+2000, seed+3000)
		}
		addDrv(*drv, seeds, secs, false)
		if *drvRace != "" && failedDrv() == nil {
			addDrv(*drvRace, []int64{seed + 5000}, secs, true)
		}
	}
	wg.Wait()

	// failed obligations
	type failed struct {
		Function, Obligation, Clause, Position, Reason string
		Goals                                           []string
		Query                                           string
	}
	var bad []failed
	nObl, nOk := 0, 0
	backends := map[string]int{}
	solverT := 0.0
	var fnames []string
	for n := range proofs {
		fnames = append(fnames, n)
	}
	sort.Strings(fnames)
	trusted := map[string]bool{}
	inl := map[string]bool{}
	notes := map[string]bool{}
	type fnEv struct {
		Function    string   `json:"function"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Inferred    int      `json:"inferred_invariants"`
		SolverS     float64  `json:"solver_s"`
		Inlined     []string `json:"inlined,omitempty"`
	}
	var fev []fnEv
	for _, n := range fnames {
		r := proofs[n]
		fe := fnEv{Function: n, Inferred: r.Candidates, SolverS: float64(int(r.SolverTime*100)) / 100, Inlined: r.Inlined}
		if r.Err != "" {
			nObl++
			fe.Obligations++
			bad = append(bad, failed{Function: n, Obligation: "verification conditions", Reason: r.Err})
		}
		if r.Vacuous != "" {
			nObl++
			fe.Obligations++
			bad = append(bad, failed{Function: n, Obligation: "vacuity", Reason: r.Vacuous})
		}
		for _, o := range r.Obls {
			nObl++
			fe.Obligations++
			if o.Status == "proved" {
				nOk++
				fe.Discharged++
				backends[o.Solver]++
			} else {
				bad = append(bad, failed{n, o.Name, o.Text, o.Pos, o.Status, o.Goals, o.Query})
			}
		}
		solverT += r.SolverTime
		for _, x := range r.Externs {
			trusted["external: "+x] = true
		}
		for _, x := range r.Contracts {
			if c := sp.cons[x]; c != nil && c.Trusted {
				trusted["assumed contract: "+x] = true
			}
		}
		for _, x := range r.Inlined {
			inl[x] = true
		}
		for _, x := range r.Notes {
			notes[x] = true
		}
		fev = append(fev, fe)
	}
	if loadErr != "" {
		bad = append(bad, failed{Function: "(all)", Obligation: "loading /repo and the contracts", Reason: loadErr})
		nObl++
	}
	// a failed obligation without a failing run: search longer
	if len(bad) > 0 && *drv != "" && failedDrv() == nil {
		left := 780 - time.Since(t0).Seconds()
		s := 45.0
		if s > left-100 {
			s = left - 100
		}
		if s > 5 {
			addDrv(*drv, []int64{seed + 7000, seed + 7001, seed + 7002, seed + 7003, seed + 7004, seed + 7005}, s, false)
		}
	}
	fd := failedDrv()
	viol := len(bad) + 0
	if fd != nil {
		viol++
	}
	var evals, dist, cases int64
	var samples []string
	for _, d := range drvs {
		evals += d.Checks
		dist += d.Distinct
		cases += d.Cases
		if len(samples) < 3 {
			samples = append(samples, d.Samples...)
		}
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nOk,
		"checker_cmd":            "gowp check -prop " + *prop + " (verification conditions generated from go/ssa of /repo; z3-new 4.x, z3 4.8.12, cvc5 1.1.2)",
		"backends":               backends,
		"solver_s":               float64(int(solverT*100)) / 100,
		"functions":              fev,
		"functions_inlined":      keys(inl),
		"not_reached_in_time":    skipped,
		"bounded_cross_check":    "the replay driver asserts the property on the real code over generated inputs (label: bounded, never counted as proved)",
		"cases":                  cases,
		"evaluations":            evals,
		"distinct_nontrivial":    dist,
		"rule":                   "a case is a function of (property, seed, number): a generated frame or input with a random history of operations; distinct = distinct history text with at least one assertion evaluated",
		"samples":                samples,
		"trusted_base":           append(baseTrust(), keys(trusted)...),
		"extraction_notes": keys(notes),
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": assumptions(),
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0644)

	fmt.Printf("property %s (%s): %d functions under contract, %d/%d obligations discharged, %.1fs solver time; bounded cross-check: %d cases, %d assertions; %.1fs\n",
		*prop, *tier, len(fnames), nOk, nObl, solverT, cases, evals, time.Since(t0).Seconds())
	for _, n := range skipped {
		fmt.Println("not reached within the time budget:", n)
	}
	if viol == 0 && *drvErr == "" {
		os.Exit(0)
	}
	for _, f := range bad {
		fmt.Printf("FAILED OBLIGATION %s %s %s %s: %s\n", f.Function, f.Obligation, f.Position, f.Clause, f.Reason)
	}
	rp := filepath.Join(*verif, "evidence", *prop+".replay.json")
	rep := map[string]interface{}{"property": *prop, "failed_obligations": bad}
	line := "VIOLATION property=" + *prop + " replay=" + rp
	if fd != nil {
		rep["failing_case"] = fd
		rep["rerun"] = fmt.Sprintf("/verif/tools/replay.sh %s %d %d", *prop, fd.Seed, fd.Case)
		fmt.Println("FAILING CASE:", fd.What)
		for _, h := range fd.History {
			if len(h) > 300 {
				h = h[:300] + "..."
			}
			fmt.Println("   ", h)
		}
	} else {
		if *drvErr != "" {
			rep["driver_build"] = *drvErr
			fmt.Println("the replay driver does not build:", *drvErr)
		}
		line += " no-failing-input-found"
	}
	b, _ = json.MarshalIndent(rep, "", " ")
	os.WriteFile(rp, b, 0644)
	fmt.Println(line)
	os.Exit(1)
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func baseTrust() []string {
	return []string{
		"gowp: the verification-condition generator of /verif/gowp",
		"golang.org/x/tools/go/ssa v0.52.0: SSA construction from /repo's source",
		"z3 (z3-new), z3 4.8.12, cvc5 1.1.2",
	}
}
func assumptions() []string {
	return []string{
		"machine integers are treated as mathematical integers",
		"floating-point values are uninterpreted except for equality and NaN",
		"the memory allocator always succeeds; stack depth and timing are not modelled",
		"slices in the heap are well formed (0 <= len <= cap) and refer to allocated arrays",
	}
}
