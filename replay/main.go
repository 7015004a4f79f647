// Command replay runs the postconditions of one property as run-time assertions
// on the real code of /repo, over generated inputs. It is the counterexample
// search behind the deductive check: every case is a function of (property,
// seed, case number), so a reported case can be re-run alone.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type violation struct{ msg string }

type T struct {
	*rand.Rand
	prop string
	id   int64
	hist []string
	tmp  string
	Evals int
}

func (t *T) fail(f string, a ...interface{}) { panic(violation{fmt.Sprintf(f, a...)}) }
func (t *T) check(ok bool, f string, a ...interface{}) {
	t.Evals++
	if !ok {
		t.fail(f, a...)
	}
}
func (t *T) log(f string, a ...interface{}) { t.hist = append(t.hist, fmt.Sprintf(f, a...)) }
func (t *T) p(x float64) bool                { return t.Float64() < x }

var props = map[string]func(*T){}

type report struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Case     int64    `json:"case"`
	Failed   bool     `json:"failed"`
	What     string   `json:"what,omitempty"`
	History  []string `json:"history,omitempty"`
	Stack    string   `json:"stack,omitempty"`
	Cases    int64    `json:"cases"`
	Checks   int64    `json:"checks"`
	Distinct int64    `json:"distinct"`
	Samples  []string `json:"samples,omitempty"`
	WallS    float64  `json:"wall_s"`
}

var caseStart int64

func runCase(prop string, seed, id int64, tmp string) (t *T, bad string, stack string) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, id)
	t = &T{Rand: rand.New(rand.NewSource(int64(h.Sum64()))), prop: prop, id: id, tmp: tmp}
	rand.Seed(int64(h.Sum64() >> 1))
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				bad = v.msg
			} else {
				bad = fmt.Sprintf("panic on valid arguments: %v", r)
				stack = string(debug.Stack())
			}
		}
	}()
	props[prop](t)
	return
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	one := flag.Int64("case", -1, "run a single case")
	secs := flag.Float64("secs", 8, "time budget")
	max := flag.Int64("max", 1<<40, "maximum number of cases")
	out := flag.String("out", "", "report file")
	tmp := flag.String("tmp", "", "scratch directory")
	flag.Parse()
	if *tmp == "" {
		d, err := os.MkdirTemp("", "replay")
		if err != nil {
			panic(err)
		}
		*tmp = d
		defer os.RemoveAll(d)
	}
	debug.SetGCPercent(400)
	rep := report{Property: *prop, Seed: *seed}
	finish := func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		}
		fmt.Println(string(b))
	}
	cur := *out
	var curF *os.File
	if cur != "" {
		curF, _ = os.Create(cur + ".case")
	}
	start := time.Now()
	var curID int64
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := atomic.LoadInt64(&caseStart)
			if s != 0 && time.Now().UnixNano()-s > int64(30*time.Second) {
				rep.Failed, rep.Case, rep.What = true, atomic.LoadInt64(&curID), "the operation did not return within 30 s"
				finish()
				os.Exit(3)
			}
		}
	}()
	seen := map[uint64]bool{}
	for id := int64(0); id < *max; id++ {
		if *one >= 0 {
			id = *one
		}
		if time.Since(start).Seconds() > *secs && *one < 0 {
			break
		}
		if curF != nil {
			curF.WriteAt([]byte(fmt.Sprintf("%-20d", id)), 0)
		}
		atomic.StoreInt64(&curID, id)
		atomic.StoreInt64(&caseStart, time.Now().UnixNano())
		t, bad, stack := runCase(*prop, *seed, id, *tmp)
		atomic.StoreInt64(&caseStart, 0)
		rep.Cases++
		rep.Checks += int64(t.Evals)
		h := fnv.New64a()
		h.Write([]byte(strings.Join(t.hist, ";")))
		if t.Evals > 0 && !seen[h.Sum64()] {
			seen[h.Sum64()] = true
			rep.Distinct++
			if len(rep.Samples) < 3 {
				rep.Samples = append(rep.Samples, strings.Join(t.hist, "; "))
			}
		}
		if bad != "" {
			rep.Failed, rep.Case, rep.What, rep.History, rep.Stack = true, id, bad, t.hist, stack
			break
		}
		if *one >= 0 {
			rep.History = t.hist
			break
		}
	}
	rep.WallS = time.Since(start).Seconds()
	finish()
	if rep.Failed {
		os.RemoveAll(*tmp)
		os.Exit(3)
	}
}

func sorted(xs []string) []string {
	ys := append([]string{}, xs...)
	sort.Strings(ys)
	return ys
}
