package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- state
type State struct {
	heap  map[string]*Term
	alloc *Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{h, s.alloc}
}

func (s *State) get(k string) *Term {
	if t, ok := s.heap[k]; ok {
		return t
	}
	so, ok := heapSorts[k]
	if !ok {
		panic("unregistered heap " + k)
	}
	return Sym("H0!"+k, so)
}

type Fact struct {
	t *Term
}

type Obl struct {
	Name   string // stable name
	Kind   string // ensures, requires, bounds, nil, ...
	Pos    string
	Tags   []string
	guard  *Term
	goal   *Term
	nfacts int
	cand   string // candidate invariant id, "" for real obligations
	Fn     string
	text   string
	alts   []*Term // alternative goals, one of which has to hold (witnesses)
}

type loopInfo struct {
	key     string
	mark    int // term id watermark on first visit
	writes  map[string]map[int]*Term
	variant map[string]bool
	dropped map[string]bool
	seen    bool
	fills   []fill
	fillKey map[[5]int]bool
}

// fill is a store into an array row observed in the body of a loop.
type fill struct {
	k                string
	ref, idx, val, g *Term
	kid              int
}

// Exec verifies one function.
type Exec struct {
	eng           *Engine
	fn            *ssa.Function
	con           *Contract
	facts         []Fact
	obls          []*Obl
	loops         map[string]*loopInfo
	nfresh        map[string]int
	active        []*loopInfo // loops around the instruction being executed
	entry         *State
	dry           bool
	closed        map[[2]int]bool
	top           *Frame
	modset        LocSet
	inlineDepth   int
	usedContracts map[string]bool
	usedExterns   map[string]bool
	inlined       map[string]bool
	notes         map[string]bool
	tags          func([]string) bool
	cut           map[string]bool
	oblCount      map[string]int
	retReach      *Term
	curG          *Term
	intVals       []*Val  // values of type []int seen so far (witness candidates)
	skolRows      []*Term // rows introduced by existential postconditions of callees
}

type Frame struct {
	fn         *ssa.Function
	env        map[ssa.Value]*Val
	id         string
	parent     *Frame
	con        *Contract
	params     []*Val
	loopsOf    map[*ssa.BasicBlock][]*loopT // loops containing block, outermost first
	hdr        map[*ssa.BasicBlock]*loopT
	defers     []deferred
	rets       []retEdge
	names      map[string][]ssa.Value
	entry      *State
	loopStates map[*loopT]*loopRun
	active     []*loopInfo
}

type deferred struct {
	guard  *Term
	call   *ssa.CallCommon
	args   []*Val
	fnv    *Val
	pos    token.Pos
	inLoop bool
}
type retEdge struct {
	guard *Term
	st    *State
	vals  []*Val
}
type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	parent *loopT
	kids   []*loopT
}
type loopRun struct {
	info     *loopInfo
	pre      *State // state at loop entry (before havoc)
	head     *State // havocked state
	entryG   *Term
	cands    []cand
	iterID   string
	entryPhi map[ssa.Value]*Val
	idx      func(phi map[ssa.Value]*Val, st *State) *Term
}
type cand struct {
	id     string
	eval   func(phi map[ssa.Value]*Val, st *State) *Term
	user   bool
	clause *Clause
}

func (e *Exec) fresh(prefix string, s Sort) *Term {
	e.nfresh[prefix]++
	return Sym(fmt.Sprintf("%s!%d", prefix, e.nfresh[prefix]), s)
}

func (e *Exec) assume(guard, t *Term) {
	f := Imp(guard, t)
	if f.op == "true" {
		return
	}
	e.facts = append(e.facts, Fact{f})
}

func (e *Exec) oblige(kind, name, pos string, guard, goal *Term, tags []string) {
	if goal.op == "true" || guard.op == "false" {
		return
	}
	base := kind + " " + name
	e.oblCount[base]++
	if e.oblCount[base] > 1 {
		base = fmt.Sprintf("%s #%d", base, e.oblCount[base])
	}
	e.obls = append(e.obls, &Obl{Name: base, Kind: kind, Pos: pos, Tags: tags, guard: guard, goal: goal, nfacts: len(e.facts), Fn: e.eng.fnName(e.fn)})
}

// check emits an obligation and then assumes it.
func (e *Exec) check(kind, name string, pos token.Pos, guard, goal *Term) {
	if e.eng.panicTags {
		e.oblige(kind, name, e.eng.pos(pos), guard, goal, nil)
	}
	e.assume(guard, goal)
}

// ---------------------------------------------------------------- loops
func (e *Exec) findLoops(f *Frame) {
	f.loopsOf = map[*ssa.BasicBlock][]*loopT{}
	f.hdr = map[*ssa.BasicBlock]*loopT{}
	var all []*loopT
	for _, b := range f.fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.hdr[s]
				if l == nil {
					l = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.hdr[s] = l
					all = append(all, l)
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return loopPos(all[i]) < loopPos(all[j]) })
	for i, l := range all {
		l.ord = i + 1
	}
	bySize := append([]*loopT{}, all...)
	sort.SliceStable(bySize, func(i, j int) bool { return len(bySize[i].blocks) > len(bySize[j].blocks) })
	for _, l := range bySize {
		for b := range l.blocks {
			f.loopsOf[b] = append(f.loopsOf[b], l)
		}
	}
	for _, l := range all {
		ls := f.loopsOf[l.header]
		for i, x := range ls {
			if x == l && i > 0 {
				l.parent = ls[i-1]
			}
		}
	}
	for _, l := range all {
		if l.parent != nil {
			l.parent.kids = append(l.parent.kids, l)
		}
	}
}

func loopPos(l *loopT) int {
	best := 1 << 30
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && int(p) < best {
				best = int(p)
			}
		}
	}
	return best
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit exits of loops first so that loop bodies come earlier in RPO
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type inEdge struct {
	pred  *ssa.BasicBlock
	guard *Term
	st    *State
}

// execBody runs a function body symbolically; returns merged result.
func (e *Exec) execBody(f *Frame, guard *Term, st *State) (*Term, *State, []*Val) {
	e.findLoops(f)
	f.loopStates = map[*loopT]*loopRun{}
	f.names = map[string][]ssa.Value{}
	pend := map[*ssa.BasicBlock][]inEdge{}
	pend[f.fn.Blocks[0]] = []inEdge{{nil, guard, st}}
	outerActive := e.active
	for _, b := range rpo(f.fn) {
		edges := pend[b]
		// loop activity
		e.active = append([]*loopInfo{}, outerActive...)
		for _, l := range f.loopsOf[b] {
			if l.header != b {
				if r := f.loopStates[l]; r != nil {
					e.active = append(e.active, r.info)
				}
			}
		}
		var live []inEdge
		for _, ed := range edges {
			if ed.guard.op != "false" {
				live = append(live, ed)
			}
		}
		if len(live) == 0 {
			continue
		}
		g, s := e.merge(f, b, live)
		if l := f.hdr[b]; l != nil {
			e.enterLoop(f, l, g, s, live)
			g, s = f.loopStates[l].entryG, f.loopStates[l].head.clone()
			e.active = append(e.active, f.loopStates[l].info)
		} else {
			e.phis(f, b, live)
		}
		e.execBlock(f, b, g, s, pend)
	}
	e.active = outerActive
	// merge returns
	if len(f.rets) == 0 {
		return False(), st, nil
	}
	var ins []inEdge
	for _, r := range f.rets {
		ins = append(ins, inEdge{nil, r.guard, r.st})
	}
	g, s := e.merge(f, nil, ins)
	var vals []*Val
	for i := range f.rets[0].vals {
		var vs []*Val
		for _, r := range f.rets {
			vs = append(vs, r.vals[i])
		}
		vals = append(vals, e.mergeVals(ins, vs, f.id+"ret"))
	}
	return g, s, vals
}

func (e *Exec) merge(f *Frame, b *ssa.BasicBlock, in []inEdge) (*Term, *State) {
	if len(in) == 1 {
		return in[0].guard, in[0].st.clone()
	}
	gs := make([]*Term, len(in))
	for i, x := range in {
		gs[i] = x.guard
	}
	g := Or(gs...)
	keys := map[string]bool{}
	for _, x := range in {
		for k := range x.st.heap {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	res := &State{heap: map[string]*Term{}}
	for _, k := range ks {
		first := in[0].st.get(k)
		same := true
		for _, x := range in[1:] {
			if x.st.get(k) != first {
				same = false
			}
		}
		if same {
			res.heap[k] = first
			continue
		}
		n := e.fresh("M!"+k, first.sort)
		for _, x := range in {
			e.assume(x.guard, Eq(n, x.st.get(k)))
		}
		res.heap[k] = n
	}
	al := in[0].st.alloc
	same := true
	for _, x := range in[1:] {
		if x.st.alloc != al {
			same = false
		}
	}
	if !same {
		n := e.fresh("alloc", SInt)
		for _, x := range in {
			e.assume(x.guard, Eq(n, x.st.alloc))
		}
		al = n
	}
	res.alloc = al
	return g, res
}

func (e *Exec) mergeVals(in []inEdge, vs []*Val, name string) *Val {
	first := vs[0]
	same := true
	for _, v := range vs[1:] {
		if v != first {
			same = false
		}
	}
	if same {
		return first
	}
	if first.t == nil && first.fields == nil && first.ref == nil {
		// function or interior pointer values: must be identical
		for _, v := range vs[1:] {
			if !samePtr(v, first) {
				panic(unsupported("merge of distinct interior pointers or functions"))
			}
		}
		return first
	}
	ls := make([][]*Term, len(vs))
	for i, v := range vs {
		ls[i] = v.leaves()
	}
	var out []*Term
	for j := range ls[0] {
		acc := ls[len(vs)-1][j]
		for i := len(vs) - 2; i >= 0; i-- {
			acc = Ite(in[i].guard, ls[i][j], acc)
		}
		out = append(out, acc)
	}
	r, _ := fromLeaves(first.T, out)
	return r
}

func samePtr(a, b *Val) bool {
	if a.ptr == nil || b.ptr == nil {
		return false
	}
	return a.ptr.kind == b.ptr.kind && a.ptr.base == b.ptr.base && strings.Join(a.ptr.path, ".") == strings.Join(b.ptr.path, ".") && a.ptr.idx == b.ptr.idx
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (e *Exec) phis(f *Frame, b *ssa.BasicBlock, in []inEdge) {
	var news []*Val
	var ph []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []*Val
		for _, ed := range in {
			vs = append(vs, e.val(f, p.Edges[predIndex(b, ed.pred)]))
		}
		news = append(news, e.mergeVals(in, vs, p.Name()))
		ph = append(ph, p)
	}
	for i, p := range ph {
		f.env[p] = news[i]
		e.noteInts(p.Type(), news[i])
	}
}

// ---------------------------------------------------------------- loop handling
func (e *Exec) enterLoop(f *Frame, l *loopT, g *Term, st *State, in []inEdge) {
	key := fmt.Sprintf("%sL%d", f.id, l.ord)
	info := e.loops[key]
	if info == nil {
		info = &loopInfo{key: key, writes: map[string]map[int]*Term{}, variant: map[string]bool{}, dropped: map[string]bool{}}
		e.loops[key] = info
	}
	if info.mark == 0 {
		info.mark = P.n
	}
	run := &loopRun{info: info, pre: st.clone(), entryG: g}
	f.loopStates[l] = run
	// entry phi values
	entryPhi := map[ssa.Value]*Val{}
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		var vs []*Val
		for _, ed := range in {
			vs = append(vs, e.val(f, p.Edges[predIndex(l.header, ed.pred)]))
		}
		entryPhi[p] = e.mergeVals(in, vs, p.Name())
	}
	// havoc
	head := st.clone()
	touched := e.eng.touchedBlocks(f.fn, l.blocks)
	var ks []string
	for k := range touched {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if _, ok := heapSorts[k]; !ok {
			continue
		}
		head.heap[k] = Sym(key+"!"+k, heapSorts[k])
	}
	// iterators advanced in this loop
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				if r, ok := f.env[nx.Iter]; ok && r.it != nil {
					head.heap["I:"+r.it.id] = Sym(key+"!I:"+r.it.id, SInt)
					if b == l.header {
						run.iterID = r.it.id
					}
				}
			}
		}
	}
	// local iterator created inside the loop are re-created each time
	al := Sym(key+"!alloc", SInt)
	head.alloc = al
	e.assume(g, Le(st.alloc, al))
	for _, k := range ks {
		if _, ok := heapSorts[k]; ok {
			e.heapClosed(g, k, head.heap[k], al)
		}
	}
	headPhi := map[ssa.Value]*Val{}
	for _, p := range phis {
		if entryPhi[p].t == nil && entryPhi[p].fields == nil {
			headPhi[p] = entryPhi[p]
			continue
		}
		v := e.freshVal(key+"!"+p.Name(), p.Type())
		headPhi[p] = v
		f.env[p] = v
		e.closedVal(g, v, al)
	}
	for _, p := range phis {
		f.env[p] = headPhi[p]
	}
	run.head = head
	run.entryPhi = entryPhi
	e.buildInvs(f, l, run, phis, entryPhi, headPhi, ks)
	// initial obligations
	for _, c := range run.cands {
		if info.dropped[c.id] {
			continue
		}
		t := c.eval(entryPhi, run.pre)
		e.invObl(c, "init", l, g, t)
	}
	for _, c := range run.cands {
		if info.dropped[c.id] {
			continue
		}
		e.assume(g, c.eval(headPhi, head))
	}
}

func (e *Exec) invObl(c cand, when string, l *loopT, g, t *Term) {
	if t.op == "true" || g.op == "false" {
		return
	}
	name := c.id + " " + when
	n := len(e.obls)
	e.oblige("invariant", name, "", g, t, nil)
	if len(e.obls) > n && !c.user {
		e.obls[n].cand = c.id
	} else if len(e.obls) > n && c.user {
		e.obls[n].text = c.clause.text
	}
}

func (e *Exec) backEdge(f *Frame, l *loopT, from *ssa.BasicBlock, g *Term, st *State) {
	run := f.loopStates[l]
	phi := map[ssa.Value]*Val{}
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phi[p] = e.val(f, p.Edges[predIndex(l.header, from)])
	}
	for _, c := range run.cands {
		if run.info.dropped[c.id] {
			continue
		}
		e.invObl(c, "kept", l, g, c.eval(phi, st))
	}
	if run.iterID != "" {
		// the set of keys of the ranged map must not change
		it := e.iters(f, run.iterID)
		if it != nil {
			d := Select(st.get(it.dk()), it.m.t)
			e.oblige("range", "keys of the ranged map unchanged", "", g, Eq(d, it.dom), nil)
		}
	}
}

func (it *IterVal) dk() string {
	d, _, _ := regMap(it.m.T.Underlying().(*types.Map))
	return d
}

func (e *Exec) iters(f *Frame, id string) *IterVal {
	for _, v := range f.env {
		if v != nil && v.it != nil && v.it.id == id {
			return v.it
		}
	}
	return nil
}

// buildInvs collects candidate and user invariants.
func (e *Exec) buildInvs(f *Frame, l *loopT, run *loopRun, phis []*ssa.Phi, entryPhi, headPhi map[ssa.Value]*Val, touched []string) {
	info := run.info
	key := info.key
	pre := run.pre
	// --- counters
	type counter struct {
		p    *ssa.Phi
		init *Term
		step int64
	}
	var counters []counter
	for _, p := range phis {
		p := p
		if headPhi[p].t == nil || headPhi[p].t.sort != SInt {
			continue
		}
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		lo, hi, good := int64(0), int64(0), true
		first := true
		for i, ed := range p.Edges {
			if !l.blocks[l.header.Preds[i]] {
				continue
			}
			a, b, ok := incrRange(ed, p, map[ssa.Value]bool{})
			if !ok {
				good = false
				break
			}
			if first || a < lo {
				lo = a
			}
			if first || b > hi {
				hi = b
			}
			first = false
		}
		init := entryPhi[p].t
		if !good {
			// a step that is a loop-invariant value: p == init + n * step
			continue
		}
		if lo == hi && lo != 0 {
			counters = append(counters, counter{p, init, lo})
		}
		if lo >= 0 {
			run.cands = append(run.cands, cand{id: key + "." + p.Name() + ">=init", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
				return Le(init, ph[p].t)
			}})
		}
		if hi <= 0 {
			run.cands = append(run.cands, cand{id: key + "." + p.Name() + "<=init", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
				return Le(ph[p].t, init)
			}})
		}
		// bound from the loop condition
		if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok && lo == hi {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				off := int64(0)
				x := bo.X
				isphi := x == ssa.Value(p)
				if b2, ok := x.(*ssa.BinOp); ok && b2.Op == token.ADD && b2.X == ssa.Value(p) {
					if c, ok := b2.Y.(*ssa.Const); ok {
						off, _ = constant.Int64Val(c.Value)
						isphi = true
					}
				}
				if isphi {
					if bv := e.tryVal(f, bo.Y, l); bv != nil && bv.t != nil && bv.t.sort == SInt {
						bound := bv.t
						switch bo.Op {
						case token.LSS, token.LEQ, token.NEQ:
							if bo.Op == token.LEQ {
								bound = Add(bound, Int(1))
							}
							slack := int64(0)
							if lo > 1 {
								slack = lo - 1
							}
							run.cands = append(run.cands, cand{id: key + "." + p.Name() + "<=bound", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
								return Le(Add(ph[p].t, Int(off)), Add(bound, Int(slack)))
							}})
							run.cands = append(run.cands, cand{id: key + "." + p.Name() + "<=max", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
								return Or(Le(Add(ph[p].t, Int(off)), bound), Eq(ph[p].t, init))
							}})
						}
						switch bo.Op {
						case token.GTR, token.GEQ, token.NEQ:
							if bo.Op == token.GEQ {
								bound = Sub(bound, Int(1))
							}
							run.cands = append(run.cands, cand{id: key + "." + p.Name() + ">=bound", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
								return Le(bound, Add(ph[p].t, Int(off)))
							}})
							run.cands = append(run.cands, cand{id: key + "." + p.Name() + ">=min", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
								return Or(Le(bound, Add(ph[p].t, Int(off))), Eq(ph[p].t, init))
							}})
						}
					}
				}
			}
		}
	}
	// --- lockstep: other counters as functions of the first one
	var main *counter
	for i := range counters {
		if counters[i].step == 1 || counters[i].step == -1 {
			main = &counters[i]
			break
		}
	}
	// iterations completed, as a function of the phis
	iterOf := func(ph map[ssa.Value]*Val, st *State) *Term {
		if run.iterID != "" {
			return st.heap["I:"+run.iterID]
		}
		if main == nil {
			return nil
		}
		return scale(Sub(ph[main.p].t, main.init), main.step)
	}
	lock := map[*ssa.Phi]*Term{} // phi -> step term
	if main != nil || run.iterID != "" {
		for _, p := range phis {
			p := p
			if main != nil && p == main.p || headPhi[p].t == nil || headPhi[p].t.sort != SInt {
				continue
			}
			if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			init := entryPhi[p].t
			var step *Term
			good := true
			vary := false
			var glo, ghi int64
			nr, nb := 0, 0
			for i, ed := range p.Edges {
				if !l.blocks[l.header.Preds[i]] {
					continue
				}
				nb++
				if a, b, ok := incrRange(ed, p, map[ssa.Value]bool{}); ok {
					if nr == 0 || a < glo {
						glo = a
					}
					if nr == 0 || b > ghi {
						ghi = b
					}
					nr++
				}
			}
			if nr == nb && glo != ghi {
				vary = true
				run.cands = append(run.cands, cand{id: key + "." + p.Name() + ".slow", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
					n := iterOf(ph, st)
					return And(Le(Add(init, scale(n, glo)), ph[p].t), Le(ph[p].t, Add(init, scale(n, ghi))))
				}})
			} else if nr == nb {
				step = Int(glo)
			} else {
				for i, ed := range p.Edges {
					if !l.blocks[l.header.Preds[i]] {
						continue
					}
					var s *Term
					if bo, ok := ed.(*ssa.BinOp); ok && bo.Op == token.ADD {
						x, y := bo.X, bo.Y
						if y == ssa.Value(p) {
							x, y = y, x
						}
						if x == ssa.Value(p) {
							if v := e.tryVal(f, y, l); v != nil && v.t != nil {
								s = v.t
							}
						}
					}
					if s == nil || step != nil && step != s {
						good = false
						break
					}
					step = s
				}
			}
			if vary || !good || step == nil {
				continue
			}
			lock[p] = step
			run.cands = append(run.cands, cand{id: key + "." + p.Name() + ".lock", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
				return Eq(ph[p].t, Add(init, Mul(iterOf(ph, st), step)))
			}})
		}
	}
	// --- array fills observed in the body
	if main != nil && info.seen {
		e.fillCands(f, l, run, main.p, main.init, main.step, lock, entryPhi, headPhi, touched)
	}
	// --- map iteration counter
	if run.iterID != "" {
		id := run.iterID
		it := e.iters(f, id)
		if it != nil {
			run.cands = append(run.cands, cand{id: key + ".iter", eval: func(ph map[ssa.Value]*Val, st *State) *Term {
				c := st.heap["I:"+id]
				return And(Le(Int(0), c), Le(c, it.n))
			}})
		}
	}
	// --- frames
	for _, k := range touched {
		k := k
		so, ok := heapSorts[k]
		if !ok || !strings.HasPrefix(so, "(Array Int") {
			continue
		}
		if info.seen {
			var inv []*Term
			usable := true
			for _, w := range sortedTerms(info.writes[k]) {
				if e.olderThan(w, info.mark) {
					inv = append(inv, w)
				}
			}
			_ = usable
			run.cands = append(run.cands, cand{id: key + ".frame1." + k, eval: func(ph map[ssa.Value]*Val, st *State) *Term {
				if st.get(k) == pre.get(k) {
					return True()
				}
				r := BV("r", SInt)
				c := []*Term{Le(Int(0), r), Lt(r, pre.alloc)}
				for _, w := range inv {
					c = append(c, Neq(r, w))
				}
				return Forall([]*Term{r}, Imp(And(c...), Eq(Select(st.get(k), r), Select(pre.get(k), r))), []*Term{Select(st.get(k), r)})
			}})
		}
		run.cands = append(run.cands, cand{id: key + ".frame2." + k, eval: func(ph map[ssa.Value]*Val, st *State) *Term {
			return e.frameFormula(k, st)
		}})
	}
	// --- user invariants
	if f.con != nil {
		sel := e.loopKinds(f, l)
		for _, lc := range f.con.Loops {
			if !lc.matches(l, sel) {
				continue
			}
			for _, cl := range lc.Invs {
				cl := cl
				if !e.eng.useClause(cl) {
					continue
				}
				run.cands = append(run.cands, cand{id: key + "." + cl.id(), user: true, clause: cl, eval: func(ph map[ssa.Value]*Val, st *State) *Term {
					ev := e.loopEval(f, l, run, ph, st)
					return ev.boolTerm(cl.expr)
				}})
			}
			for _, cl := range lc.Cands {
				cl := cl
				run.cands = append(run.cands, cand{id: key + "." + cl.id(), clause: cl, eval: func(ph map[ssa.Value]*Val, st *State) *Term {
					ev := e.loopEval(f, l, run, ph, st)
					t, err := ev.tryBool(cl.expr)
					if err != nil {
						return True()
					}
					return t
				}})
			}
		}
	}
}

func sortedTerms(m map[int]*Term) []*Term {
	var out []*Term
	for _, t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (e *Exec) olderThan(t *Term, mark int) bool {
	ok := true
	collect(t, map[int]bool{}, func(x *Term) {
		if x.op == "sym" && x.id > mark {
			ok = false
		}
	})
	return ok
}

// incrRange recognises v == phi + c with lo <= c <= hi, also through phis
// merging different increments
func incrRange(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) (int64, int64, bool) {
	if v == ssa.Value(p) {
		return 0, 0, true
	}
	if seen[v] {
		return 0, 0, false
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				if a, b, ok := incrRange(x.X, p, seen); ok {
					n, _ := constant.Int64Val(c.Value)
					if x.Op == token.SUB {
						n = -n
					}
					return a + n, b + n, true
				}
			}
		}
	case *ssa.Phi:
		lo, hi, first := int64(0), int64(0), true
		for _, ed := range x.Edges {
			a, b, ok := incrRange(ed, p, seen)
			if !ok {
				return 0, 0, false
			}
			if first || a < lo {
				lo = a
			}
			if first || b > hi {
				hi = b
			}
			first = false
		}
		return lo, hi, !first
	}
	return 0, 0, false
}

func incr(v ssa.Value, p *ssa.Phi, depth int) (int64, bool) {
	a, b, ok := incrRange(v, p, map[ssa.Value]bool{})
	return a, ok && a == b
}

// fillCands proposes "every element stored so far still has the value the body
// gave it" for stores whose index is the loop counter plus a constant.
func (e *Exec) fillCands(f *Frame, l *loopT, run *loopRun, mp *ssa.Phi, init *Term, step int64, lock map[*ssa.Phi]*Term, entryPhi, headPhi map[ssa.Value]*Val, touched []string) {
	info := run.info
	ctr := headPhi[mp].t
	// other counters in terms of the main one
	sub := map[int]*Term{}
	for p, s := range lock {
		sub[headPhi[p].t.id] = Add(entryPhi[p].t, Mul(scale(Sub(ctr, init), step), s))
	}
	headSym := map[int]string{}
	for _, k := range touched {
		if _, ok := heapSorts[k]; ok {
			headSym[run.head.get(k).id] = k
		}
	}
	clean := func(t *Term) bool {
		ok := true
		collect(t, map[int]bool{}, func(x *Term) {
			if x.op == "sym" && x.id > info.mark && x != ctr && headSym[x.id] == "" {
				ok = false
			}
		})
		return ok
	}
	inv := func(t *Term) bool {
		ok := true
		collect(t, map[int]bool{}, func(x *Term) {
			if x.op == "sym" && x.id > info.mark {
				ok = false
			}
		})
		return ok
	}
	base := conjSet(run.entryG)
	for n, fl := range info.fills {
		ref, idx, val, g := Subst(fl.ref, sub), Subst(fl.idx, sub), Subst(fl.val, sub), Subst(fl.g, sub)
		if !clean(ref) || !clean(val) || !clean(idx) {
			continue
		}
		coef := int64(1)
		if !inv(Sub(idx, ctr)) {
			coef = -1
			if !inv(Add(idx, ctr)) {
				continue
			}
		}
		var rest []*Term
		condOK := true
		for _, c := range conj(g) {
			if base[c.id] {
				continue
			}
			if !clean(c) {
				condOK = false
				continue
			}
			rest = append(rest, c)
		}
		k := fl.k
		mk := func(id string, cond []*Term) {
			run.cands = append(run.cands, cand{id: fmt.Sprintf("%s.fill%d%s", info.key, n, id), eval: func(ph map[ssa.Value]*Val, st *State) *Term {
				x := BV("fi", SInt)
				// the counter value at which element x was stored
				var t *Term
				rest0 := Sub(idx, scale(ctr, coef))
				t = scale(Sub(x, rest0), coef)
				m := map[int]*Term{ctr.id: t}
				for id, hk := range headSym {
					m[id] = st.get(hk)
				}
				var hs []*Term
				if step > 0 {
					hs = append(hs, Le(init, t), Lt(t, ph[mp].t))
				} else {
					hs = append(hs, Le(t, init), Lt(ph[mp].t, t))
				}
				for _, c := range cond {
					hs = append(hs, Subst(c, m))
				}
				r := Subst(ref, m)
				lhs := Select(Select(st.get(k), r), x)
				return Forall([]*Term{x}, Imp(And(hs...), Eq(lhs, Subst(val, m))))
			}})
		}
		mk("", nil)
		if condOK && len(rest) > 1 {
			mk("c", rest)
		}
	}
}

func conjSet(t *Term) map[int]bool {
	m := map[int]bool{}
	for _, c := range conj(t) {
		m[c.id] = true
	}
	return m
}

func (e *Exec) tryVal(f *Frame, v ssa.Value, l *loopT) (res *Val) {
	defer func() {
		if r := recover(); r != nil {
			res = nil
		}
	}()
	if in, ok := v.(ssa.Instruction); ok {
		if l.blocks[in.Block()] {
			// len(x) with loop-invariant x
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					a := e.tryVal(f, c.Call.Args[0], l)
					if a != nil && a.t != nil && a.t.sort == SSlc {
						return scalar(types.Typ[types.Int], SLen(a.t))
					}
				}
			}
			return nil
		}
	}
	return e.val(f, v)
}

// frameFormula: everything allocated before the function started, outside the
// modifies clause, is as it was.
func (e *Exec) frameFormula(k string, st *State) *Term {
	if st.get(k) == e.entry.get(k) {
		return True()
	}
	r := BV("r", SInt)
	ex := e.modset.except(k, r)
	c := []*Term{Le(Int(0), r), Lt(r, e.entry.alloc)}
	c = append(c, ex...)
	return Forall([]*Term{r}, Imp(And(c...), Eq(Select(st.get(k), r), Select(e.entry.get(k), r))), []*Term{Select(st.get(k), r)})
}

// ---------------------------------------------------------------- values
func (e *Exec) freshVal(name string, t types.Type) *Val {
	if isStruct(t) {
		v := &Val{T: t}
		for _, fl := range structFields(t) {
			v.fields = append(v.fields, e.freshVal(name+"."+fl.name, fl.typ))
		}
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		v := &Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.fields = append(v.fields, e.freshVal(fmt.Sprintf("%s.%d", name, i), tp.At(i).Type()))
		}
		return v
	}
	if isArray(t) {
		return &Val{T: t, ref: Sym(name, SInt)}
	}
	return scalar(t, Sym(name, sortOf(t)))
}

// facts true of every Go value of this type in a state with this allocation mark
func closedTerm(x *Term, t types.Type, alloc *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return And(Le(Int(0), SRef(x)), Lt(SRef(x), alloc), Le(Int(0), SOff(x)), Le(Int(0), SLen(x)), Le(SLen(x), SCap(x)),
			Imp(Eq(SRef(x), Int(0)), Eq(x, NilSlc())))
	case *types.Pointer, *types.Map, *types.Chan:
		return And(Le(Int(0), x), Lt(x, alloc))
	case *types.Array:
		return And(Le(Int(1), x), Lt(x, alloc))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return Le(Int(0), x)
		}
	}
	return True()
}

func (e *Exec) closedVal(g *Term, v *Val, alloc *Term) {
	if v.fields != nil {
		for _, f := range v.fields {
			e.closedVal(g, f, alloc)
		}
		return
	}
	if v.ref != nil {
		e.assume(g, closedTerm(v.ref, v.T, alloc))
		return
	}
	if v.t == nil {
		return
	}
	k := [2]int{v.t.id, g.id}
	if e.closed[k] {
		return
	}
	e.closed[k] = true
	e.assume(g, closedTerm(v.t, v.T, alloc))
}

// quantified closedness of a whole heap
func (e *Exec) heapClosed(g *Term, k string, h *Term, alloc *Term) {
	for _, t := range closedHeapFacts(k, h, alloc) {
		e.assume(g, t)
	}
}

func closedHeapFacts(k string, h *Term, alloc *Term) []*Term {
	lt := heapLeafType[k]
	if strings.HasPrefix(k, "MC:") {
		m := BV("m", SInt)
		return []*Term{Forall([]*Term{m}, Le(Int(0), Select(h, m)), []*Term{Select(h, m)}), Eq(Select(h, Int(0)), Int(0))}
	}
	if strings.HasPrefix(k, "MD:") {
		ks := splitSort(splitSort(h.sort)[1])[0]
		c := BV("c", ks)
		x := Select(Select(h, Int(0)), c)
		return []*Term{Forall([]*Term{c}, Not(x), []*Term{x})}
	}
	if lt == nil || isArray(lt) {
		return nil
	}
	switch lt.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Chan:
	default:
		return nil
	}
	r := BV("r", SInt)
	x := Select(h, r)
	bvs := []*Term{r}
	rg := []*Term{Le(Int(0), r), Lt(r, alloc)}
	if strings.HasPrefix(x.sort, "(Array") {
		i := BV("i", splitSort(x.sort)[0])
		x = Select(x, i)
		bvs = append(bvs, i)
	}
	if strings.HasPrefix(x.sort, "(Array") {
		return nil
	}
	return []*Term{Forall(bvs, Imp(And(rg...), closedTerm(x, lt, alloc)), []*Term{x})}
}

func f64const(f string) *Term { return Sym("f64$"+f, SF64) }

func (e *Exec) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		if isStruct(t) {
			return zeroVal(t)
		}
		return scalar(t, zeroTerm(sortOf(t)))
	}
	return scalar(t, constTerm(c.Value, t))
}

func constTerm(v constant.Value, t types.Type) *Term {
	switch sortOf(t) {
	case SInt:
		v = constant.ToInt(v)
		if i, ok := constant.Int64Val(v); ok {
			return Int(i)
		}
		return Sym("int$"+v.ExactString(), SInt)
	case SBool:
		return Bool(constant.BoolVal(v))
	case SStr:
		s := constant.StringVal(v)
		return strConst(s)
	case SF64:
		f, _ := constant.Float64Val(v)
		return f64const(fmt.Sprint(f))
	case SF32:
		f, _ := constant.Float64Val(v)
		return Sym("f32$"+fmt.Sprint(f), SF32)
	}
	panic(unsupported("constant of type " + t.String()))
}

var strConsts = map[string]int{} // symbol name -> length

func strConst(s string) *Term {
	x := Sym("str$"+s, SStr)
	strConsts[x.name] = len(s)
	return x
}

func (e *Exec) val(f *Frame, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &Val{T: x.Type(), fn: &FnVal{fn: x}}
	case *ssa.Builtin:
		return &Val{T: x.Type(), fn: &FnVal{fn: x}}
	case *ssa.Global:
		return &Val{T: x.Type(), t: Sym("glob!"+x.String(), SInt)}
	}
	r, ok := f.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s of %s not available", v.Name(), f.fn.Name())))
	}
	return r
}

// ---------------------------------------------------------------- memory
func (e *Exec) recWrite(k string, ref *Term) {
	for _, l := range e.active {
		m := l.writes[k]
		if m == nil {
			m = map[int]*Term{}
			l.writes[k] = m
		}
		m[ref.id] = ref
	}
}

func (e *Exec) recFill(k string, ref, idx, val *Term) {
	if len(e.active) == 0 || e.curG == nil {
		return
	}
	l := e.active[len(e.active)-1]
	if l.fillKey == nil {
		l.fillKey = map[[5]int]bool{}
	}
	key := [5]int{ref.id, idx.id, val.id, e.curG.id, Sym(k, SBool).id}
	if l.fillKey[key] {
		return
	}
	l.fillKey[key] = true
	l.fills = append(l.fills, fill{k: k, ref: ref, idx: idx, val: val, g: e.curG})
}

func (e *Exec) ptrOf(v *Val, pt types.Type) *Ptr {
	if v.ptr != nil {
		return v.ptr
	}
	el := pt.Underlying().(*types.Pointer).Elem()
	if v.t == nil {
		panic(unsupported("pointer without term"))
	}
	if isStruct(el) {
		return &Ptr{kind: "field", base: v.t, owner: el, typ: el}
	}
	if isArray(el) {
		return &Ptr{kind: "array", base: v.t, owner: el, typ: el}
	}
	return &Ptr{kind: "cell", base: v.t, owner: el, typ: el}
}

// load reads a Go value through a pointer in state st.
func (e *Exec) loadPtr(p *Ptr, st *State) *Val {
	var ls []*Term
	switch p.kind {
	case "field":
		for _, l := range leavesOf(p.typ) {
			path := append(append([]string{}, p.path...), l.path...)
			k := regField(p.owner, path, l)
			ls = append(ls, Select(st.get(k), p.base))
		}
	case "elem":
		for _, l := range leavesOf(p.typ) {
			path := append(append([]string{}, p.path...), l.path...)
			k := regElem(p.owner, Leaf{path, l.sort, l.typ})
			ls = append(ls, Select(Select(st.get(k), p.base), p.idx))
		}
	case "cell":
		k := regCell(p.owner)
		ls = append(ls, Select(st.get(k), p.base))
	case "array":
		return &Val{T: p.typ, ref: p.base}
	}
	v, _ := fromLeaves(p.typ, ls)
	return v
}

func (e *Exec) storePtr(p *Ptr, st *State, v *Val) {
	if p.kind == "array" {
		panic(unsupported("array assignment"))
	}
	ls := v.leaves()
	lv := leavesOf(p.typ)
	if len(ls) != len(lv) {
		panic(unsupported(fmt.Sprintf("store of %v into %v", v.T, p.typ)))
	}
	for i, l := range lv {
		if isArray(l.typ) {
			panic(unsupported("array copy"))
		}
		path := append(append([]string{}, p.path...), l.path...)
		switch p.kind {
		case "field":
			k := regField(p.owner, path, l)
			st.heap[k] = Store(st.get(k), p.base, ls[i])
			e.recWrite(k, p.base)
		case "elem":
			k := regElem(p.owner, Leaf{path, l.sort, l.typ})
			h := st.get(k)
			st.heap[k] = Store(h, p.base, Store(Select(h, p.base), p.idx, ls[i]))
			e.recWrite(k, p.base)
			e.recFill(k, p.base, p.idx, ls[i])
		case "cell":
			k := regCell(p.owner)
			st.heap[k] = Store(st.get(k), p.base, ls[i])
			e.recWrite(k, p.base)
		}
	}
}

func (e *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

func zrow(s Sort) *Term {
	return Sym("zrow$"+s, arr(SInt, s))
}
func zdom(ks Sort) *Term { return Sym("zdom$"+ks, arr(ks, SBool)) }

// allocObj allocates a zeroed object of type t and returns its reference.
func (e *Exec) allocObj(t types.Type, st *State) *Term {
	if isArray(t) {
		return e.allocRow(t.Underlying().(*types.Array).Elem(), st)
	}
	r := e.newRef(st)
	if isStruct(t) {
		for _, l := range leavesOf(t) {
			k := regField(t, l.path, l)
			if isArray(l.typ) {
				rr := e.allocRow(l.typ.Underlying().(*types.Array).Elem(), st)
				st.heap[k] = Store(st.get(k), r, rr)
			} else {
				st.heap[k] = Store(st.get(k), r, zeroTerm(l.sort))
			}
		}
		return r
	}
	k := regCell(t)
	st.heap[k] = Store(st.get(k), r, zeroTerm(sortOf(t)))
	return r
}

func (e *Exec) allocRow(el types.Type, st *State) *Term {
	r := e.newRef(st)
	for _, l := range leavesOf(el) {
		k := regElem(el, l)
		st.heap[k] = Store(st.get(k), r, zrow(l.sort))
	}
	return r
}

func (e *Exec) nilCheck(p *Ptr, pos token.Pos, g *Term) {
	if p.kind == "elem" {
		return
	}
	e.check("nil", "pointer is not nil", pos, g, Le(Int(1), p.base))
}

func (e *Exec) load(f *Frame, addr ssa.Value, pos token.Pos, g *Term, st *State) *Val {
	p := e.ptrOf(e.val(f, addr), addr.Type())
	e.nilCheck(p, pos, g)
	v := e.loadPtr(p, st)
	e.closedVal(g, v, st.alloc)
	return v
}

// ---------------------------------------------------------------- blocks
func (e *Exec) execBlock(f *Frame, b *ssa.BasicBlock, g *Term, st *State, pend map[*ssa.BasicBlock][]inEdge) {
	gp := &g
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := e.val(f, x.Cond).t
			e.edge(f, b, b.Succs[0], And(*gp, c), st, pend)
			e.edge(f, b, b.Succs[1], And(*gp, Not(c)), st, pend)
			return
		case *ssa.Jump:
			e.edge(f, b, b.Succs[0], *gp, st, pend)
			return
		case *ssa.Return:
			var vs []*Val
			for _, r := range x.Results {
				vs = append(vs, e.val(f, r))
			}
			f.rets = append(f.rets, retEdge{*gp, st, vs})
			return
		case *ssa.Panic:
			e.panicSite(f, x, *gp, st)
			return
		default:
			e.instr(f, ins, gp, st)
		}
	}
}

func (e *Exec) panicSite(f *Frame, x *ssa.Panic, g *Term, st *State) {
	if e.con != nil && len(e.con.Panics) > 0 {
		var cs []*Term
		ev := e.entryEval()
		for _, c := range e.con.Panics {
			cs = append(cs, ev.boolTerm(c.expr))
		}
		if e.eng.panicTags {
			e.oblige("panic", "explicit panic only in the documented cases", e.eng.pos(x.Pos()), g, Or(cs...), nil)
		}
		return
	}
	if e.eng.panicTags {
		e.oblige("panic", "explicit panic unreachable", e.eng.pos(x.Pos()), g, False(), nil)
	}
}

func (e *Exec) edge(f *Frame, from, to *ssa.BasicBlock, g *Term, st *State, pend map[*ssa.BasicBlock][]inEdge) {
	if g.op == "false" {
		return
	}
	if l := f.hdr[to]; l != nil && l.blocks[from] {
		e.backEdge(f, l, from, g, st)
		return
	}
	pend[to] = append(pend[to], inEdge{from, g, st.clone()})
}

func (e *Exec) noteInts(t types.Type, v *Val) {
	if s, ok := t.Underlying().(*types.Slice); ok && v != nil && v.t != nil {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			for _, x := range e.intVals {
				if x.t == v.t {
					return
				}
			}
			e.intVals = append(e.intVals, v)
		}
	}
}

// ---------------------------------------------------------------- instructions
func (e *Exec) instr(f *Frame, ins ssa.Instruction, gp **Term, st *State) {
	g := *gp
	e.curG = g
	set := func(v ssa.Value, x *Val) { f.env[v] = x; e.noteInts(v.Type(), x) }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		if id, ok := x.Expr.(interface{ String() string }); ok && !x.IsAddr {
			n := id.String()
			f.names[n] = append(f.names[n], x.X)
		} else if ok && x.IsAddr {
			f.names["&"+id.String()] = append(f.names["&"+id.String()], x.X)
		}
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		r := e.allocObj(t, st)
		set(x, scalar(x.Type(), r))
		if x.Comment != "" {
			f.names["&"+x.Comment] = append(f.names["&"+x.Comment], x)
		}
	case *ssa.BinOp:
		set(x, e.binop(x, e.val(f, x.X), e.val(f, x.Y), g))
	case *ssa.UnOp:
		set(x, e.unop(f, x, g, st))
	case *ssa.FieldAddr:
		base := e.val(f, x.X)
		p := e.ptrOf(base, x.X.Type())
		e.nilCheck(p, x.Pos(), g)
		stt := p.typ
		fl := structFields(stt)[x.Field]
		np := &Ptr{kind: p.kind, base: p.base, owner: p.owner, path: append(append([]string{}, p.path...), fl.name), idx: p.idx, typ: fl.typ}
		if p.kind == "field" && len(p.path) == 0 && x.Field == 0 && isStruct(fl.typ) {
			set(x, &Val{T: x.Type(), t: p.base})
			break
		}
		if isArray(fl.typ) && p.kind == "field" {
			k := regField(p.owner, np.path, Leaf{np.path, SInt, fl.typ})
			rr := Select(st.get(k), p.base)
			e.assume(g, closedTerm(rr, fl.typ, st.alloc))
			set(x, &Val{T: x.Type(), t: rr})
			break
		}
		set(x, &Val{T: x.Type(), ptr: np})
	case *ssa.Field:
		s := e.val(f, x.X)
		set(x, s.fields[x.Field])
	case *ssa.IndexAddr:
		base := e.val(f, x.X)
		i := e.val(f, x.Index).t
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			a := pt.Elem().Underlying().(*types.Array)
			p := e.ptrOf(base, x.X.Type())
			e.check("bounds", "array index in range", x.Pos(), g, And(Le(Int(0), i), Lt(i, Int(a.Len()))))
			set(x, &Val{T: x.Type(), ptr: &Ptr{kind: "elem", base: p.base, owner: a.Elem(), idx: i, typ: a.Elem()}})
			break
		}
		el := x.X.Type().Underlying().(*types.Slice).Elem()
		s := base.t
		e.check("bounds", "slice index in range", x.Pos(), g, And(Le(Int(0), i), Lt(i, SLen(s))))
		set(x, &Val{T: x.Type(), ptr: &Ptr{kind: "elem", base: SRef(s), owner: el, idx: Add(SOff(s), i), typ: el}})
	case *ssa.Slice:
		set(x, e.slice(f, x, g, st))
	case *ssa.MakeSlice:
		n := e.val(f, x.Len).t
		c := e.val(f, x.Cap).t
		e.check("makeslice", "length not negative", x.Pos(), g, And(Le(Int(0), n), Le(n, c)))
		el := x.Type().Underlying().(*types.Slice).Elem()
		r := e.allocRow(el, st)
		set(x, scalar(x.Type(), MkSlc(r, Int(0), n, c)))
	case *ssa.MakeMap:
		set(x, scalar(x.Type(), e.makeMap(x.Type().Underlying().(*types.Map), st)))
	case *ssa.MakeChan:
		n := e.val(f, x.Size).t
		e.check("makechan", "capacity not negative", x.Pos(), g, Le(Int(0), n))
		set(x, scalar(x.Type(), e.makeChan(x.Type().Underlying().(*types.Chan), n, st)))
	case *ssa.MakeInterface:
		set(x, scalar(x.Type(), e.box(e.val(f, x.X), x.X.Type())))
	case *ssa.ChangeInterface:
		set(x, scalar(x.Type(), e.val(f, x.X).t))
	case *ssa.ChangeType:
		v := *e.val(f, x.X)
		v.T = x.Type()
		set(x, &v)
	case *ssa.Convert:
		set(x, e.convert(f, x, g, st))
	case *ssa.TypeAssert:
		set(x, e.typeAssert(f, x, g, st))
	case *ssa.Extract:
		t := e.val(f, x.Tuple)
		set(x, t.fields[x.Index])
	case *ssa.Lookup:
		set(x, e.lookup(f, x, g, st))
	case *ssa.MapUpdate:
		m := e.val(f, x.Map)
		e.mapUpdate(x.Map.Type().Underlying().(*types.Map), m.t, e.val(f, x.Key).t, e.val(f, x.Value), x.Pos(), g, st)
	case *ssa.Range:
		m := e.val(f, x.X)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over string"))
		}
		d, c, _ := regMap(mt)
		id := f.id + x.Name()
		e.nfresh["iter"+id]++
		if n := e.nfresh["iter"+id]; n > 1 {
			id = fmt.Sprintf("%s~%d", id, n)
		}
		it := &IterVal{m: m, dom: Select(st.get(d), m.t), n: Select(st.get(c), m.t), id: id, ks: sortOf(mt.Key())}
		st.heap["I:"+id] = Int(0)
		heapSorts["I:"+id] = SInt
		e.iterAxioms(g, it)
		set(x, &Val{T: x.Type(), it: it})
	case *ssa.Next:
		it := e.val(f, x.Iter).it
		cnt := st.heap["I:"+it.id]
		ok := Lt(cnt, it.n)
		key := App("enum!"+it.id, it.ks, cnt)
		mt := it.m.T.Underlying().(*types.Map)
		_, _, vs := regMap(mt)
		var ls []*Term
		for _, k := range vs {
			ls = append(ls, Select(Select(st.get(k), it.m.t), key))
		}
		v, _ := fromLeaves(mt.Elem(), ls)
		e.closedVal(And(g, ok), v, st.alloc)
		st.heap["I:"+it.id] = Ite(ok, Add(cnt, Int(1)), cnt)
		tv := &Val{T: x.Type(), fields: []*Val{scalar(types.Typ[types.Bool], ok), scalar(mt.Key(), key), v}}
		set(x, tv)
		// instance of the enumeration axiom
		e.assume(And(g, ok), Select(it.dom, key))
	case *ssa.Call:
		vs := e.call(f, &x.Call, x, x.Pos(), gp, st)
		if vs != nil {
			set(x, vs)
		}
	case *ssa.Defer:
		d := deferred{guard: g, call: &x.Call, pos: x.Pos()}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(f, a))
		}
		if !x.Call.IsInvoke() {
			if _, ok := x.Call.Value.(*ssa.Function); !ok {
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					d.fnv = e.val(f, x.Call.Value)
				}
			}
		} else {
			d.fnv = e.val(f, x.Call.Value)
		}
		d.inLoop = len(f.loopsOf[x.Block()]) > 0
		if d.inLoop {
			e.deferInLoop(f, d, gp, st)
		} else {
			f.defers = append(f.defers, d)
		}
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			dg := And(g, d.guard)
			if d.guard == g || implied(g, d.guard) {
				e.callWith(f, d.call, d.fnv, d.args, nil, d.pos, gp, st)
			} else {
				st2 := st.clone()
				gg := dg
				e.callWith(f, d.call, d.fnv, d.args, nil, d.pos, &gg, st2)
				ng, ns := e.merge(f, nil, []inEdge{{nil, gg, st2}, {nil, And(g, Not(d.guard)), st.clone()}})
				*gp = ng
				st.heap, st.alloc = ns.heap, ns.alloc
			}
		}
		f.defers = nil
	case *ssa.Go:
		e.notes["goroutines are run one after the other at their go statement; the tasks they take from a queue are distinct"] = true
		var args []*Val
		for _, a := range x.Call.Args {
			args = append(args, e.val(f, a))
		}
		e.callWith(f, &x.Call, nil, args, nil, x.Pos(), gp, st)
	case *ssa.Send:
		e.chanSend(x.Chan.Type().Underlying().(*types.Chan), e.val(f, x.Chan).t, e.val(f, x.X), x.Pos(), g, st)
	case *ssa.Store:
		p := e.ptrOf(e.val(f, x.Addr), x.Addr.Type())
		e.nilCheck(p, x.Pos(), g)
		v := e.val(f, x.Val)
		if v.fn != nil {
			e.eng.cellFns[cellKey(p)] = v
			break
		}
		e.storePtr(p, st, v)
	case *ssa.MakeClosure:
		fv := &FnVal{fn: x.Fn}
		for _, b := range x.Bindings {
			fv.bindings = append(fv.bindings, e.val(f, b))
		}
		set(x, &Val{T: x.Type(), fn: fv})
	case *ssa.Index:
		panic(unsupported("index of array or string value"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
}

func cellKey(p *Ptr) string { return fmt.Sprintf("%d.%s", p.base.id, strings.Join(p.path, ".")) }

func implied(g, d *Term) bool {
	m := map[int]bool{}
	for _, x := range conj(g) {
		m[x.id] = true
	}
	for _, x := range conj(d) {
		if !m[x.id] {
			return false
		}
	}
	return true
}

func (e *Exec) iterAxioms(g *Term, it *IterVal) {
	i := BV("i", SInt)
	c := BV("c", it.ks)
	en := App("enum!"+it.id, it.ks, i)
	ps := App("epos!"+it.id, SInt, c)
	e.assume(True(), Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, it.n)), And(Select(it.dom, en), Eq(App("epos!"+it.id, SInt, en), i))), []*Term{en}))
	var pats [][]*Term
	pats = append(pats, []*Term{ps})
	pats = append(pats, []*Term{Select(it.dom, c)})
	e.assume(True(), Forall([]*Term{c}, Imp(Select(it.dom, c), And(Le(Int(0), ps), Lt(ps, it.n), Eq(App("enum!"+it.id, it.ks, ps), c))), pats...))
	e.assume(True(), Le(Int(0), it.n))
	_ = g
}

// ---------------------------------------------------------------- maps
func (e *Exec) makeMap(mt *types.Map, st *State) *Term {
	r := e.newRef(st)
	d, c, _ := regMap(mt)
	st.heap[d] = Store(st.get(d), r, zdom(sortOf(mt.Key())))
	st.heap[c] = Store(st.get(c), r, Int(0))
	return r
}

func (e *Exec) mapUpdate(mt *types.Map, m, k *Term, v *Val, pos token.Pos, g *Term, st *State) {
	e.check("nilmap", "assignment to a non-nil map", pos, g, Le(Int(1), m))
	d, c, vs := regMap(mt)
	row := Select(st.get(d), m)
	was := Select(row, k)
	st.heap[d] = Store(st.get(d), m, Store(row, k, True()))
	st.heap[c] = Store(st.get(c), m, Ite(was, Select(st.get(c), m), Add(Select(st.get(c), m), Int(1))))
	e.recWrite(d, m)
	e.recWrite(c, m)
	ls := v.leaves()
	for i, h := range vs {
		st.heap[h] = Store(st.get(h), m, Store(Select(st.get(h), m), k, ls[i]))
		e.recWrite(h, m)
	}
}

func (e *Exec) mapDelete(mt *types.Map, m, k *Term, g *Term, st *State) {
	d, c, _ := regMap(mt)
	row := Select(st.get(d), m)
	was := Select(row, k)
	nd := Store(st.get(d), m, Store(row, k, False()))
	nc := Store(st.get(c), m, Ite(was, Sub(Select(st.get(c), m), Int(1)), Select(st.get(c), m)))
	oldc := Select(st.get(c), m)
	// deleting from a nil map is a no-op
	st.heap[d] = nd
	st.heap[c] = nc
	e.assume(g, Imp(was, Le(Int(1), oldc)))
	e.recWrite(d, m)
	e.recWrite(c, m)
}

func (e *Exec) lookup(f *Frame, x *ssa.Lookup, g *Term, st *State) *Val {
	m := e.val(f, x.X)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(unsupported("string index"))
	}
	k := e.val(f, x.Index)
	if k.t == nil {
		panic(unsupported("map key"))
	}
	d, _, vs := regMap(mt)
	in := Select(Select(st.get(d), m.t), k.t)
	var ls []*Term
	lv := leavesOf(mt.Elem())
	for i, h := range vs {
		raw := Select(Select(st.get(h), m.t), k.t)
		rv, _ := fromLeaves(lv[i].typ, []*Term{raw})
		e.closedVal(And(g, in), rv, st.alloc)
		ls = append(ls, Ite(in, raw, zeroTerm(lv[i].sort)))
	}
	v, _ := fromLeaves(mt.Elem(), ls)
	if x.CommaOk {
		return &Val{T: x.Type(), fields: []*Val{v, scalar(types.Typ[types.Bool], in)}}
	}
	return v
}

// ---------------------------------------------------------------- channels
func (e *Exec) makeChan(ct *types.Chan, n *Term, st *State) *Term {
	r := e.newRef(st)
	_, _, h, t, c, x := regChan(ct)
	st.heap[h] = Store(st.get(h), r, Int(0))
	st.heap[t] = Store(st.get(t), r, Int(0))
	st.heap[c] = Store(st.get(c), r, n)
	st.heap[x] = Store(st.get(x), r, False())
	return r
}
func (e *Exec) chanSend(ct *types.Chan, ch *Term, v *Val, pos token.Pos, g *Term, st *State) {
	bufs, _, h, t, c, x := regChan(ct)
	head, tail := Select(st.get(h), ch), Select(st.get(t), ch)
	e.check("send", "channel is open", pos, g, And(Le(Int(1), ch), Not(Select(st.get(x), ch))))
	e.check("send", "send does not block (room in the buffer)", pos, g, Lt(Sub(tail, head), Select(st.get(c), ch)))
	ls := v.leaves()
	for i, b := range bufs {
		st.heap[b] = Store(st.get(b), ch, Store(Select(st.get(b), ch), tail, ls[i]))
		e.recWrite(b, ch)
	}
	st.heap[t] = Store(st.get(t), ch, Add(tail, Int(1)))
	e.recWrite(t, ch)
}
func (e *Exec) chanRecv(ct *types.Chan, ch *Term, commaOk bool, typ types.Type, pos token.Pos, g *Term, st *State) *Val {
	bufs, lv, h, t, _, x := regChan(ct)
	head, tail := Select(st.get(h), ch), Select(st.get(t), ch)
	has := Lt(head, tail)
	e.check("recv", "receive does not block (value available or channel closed)", pos, g, And(Le(Int(1), ch), Or(has, Select(st.get(x), ch))))
	var ls []*Term
	for i, b := range bufs {
		raw := Select(Select(st.get(b), ch), head)
		ls = append(ls, Ite(has, raw, zeroTerm(lv[i].sort)))
	}
	v, _ := fromLeaves(ct.Elem(), ls)
	e.closedVal(g, v, st.alloc)
	st.heap[h] = Store(st.get(h), ch, Ite(has, Add(head, Int(1)), head))
	e.recWrite(h, ch)
	if commaOk {
		return &Val{T: typ, fields: []*Val{v, scalar(types.Typ[types.Bool], has)}}
	}
	return v
}
func (e *Exec) chanClose(ct *types.Chan, ch *Term, pos token.Pos, g *Term, st *State) {
	_, _, _, _, _, x := regChan(ct)
	e.check("close", "channel is open", pos, g, And(Le(Int(1), ch), Not(Select(st.get(x), ch))))
	st.heap[x] = Store(st.get(x), ch, True())
	e.recWrite(x, ch)
}

// ---------------------------------------------------------------- interfaces
var typeCodes = map[string]int64{}

func typeCode(t types.Type) int64 {
	k := typeKey(t)
	if c, ok := typeCodes[k]; ok {
		return c
	}
	c := int64(len(typeCodes) + 1)
	typeCodes[k] = c
	return c
}

var boxTypes = map[string]types.Type{}

func (e *Exec) box(v *Val, t types.Type) *Term { return boxTerm(v, t) }
func boxTerm(v *Val, t types.Type) *Term {
	k := typeKey(t)
	boxTypes[k] = t
	typeCode(t)
	var ls []*Term
	if v.t == nil && v.fields == nil && v.ref == nil {
		return Sym("boxfn$"+k, SIfc)
	}
	ls = v.leaves()
	if len(ls) == 0 {
		return Sym("box0$"+k, SIfc)
	}
	return App("box_"+k, SIfc, ls...)
}
func dynTerm(x *Term) *Term {
	if x == IfcNil() {
		return Int(0)
	}
	if x.op == "app" && strings.HasPrefix(x.name, "box_") {
		return Int(typeCodes[x.name[4:]])
	}
	if x.op == "ite" {
		return Ite(x.args[0], dynTerm(x.args[1]), dynTerm(x.args[2]))
	}
	return App("dyn", SInt, x)
}
func unboxTerms(x *Term, t types.Type) []*Term {
	k := typeKey(t)
	boxTypes[k] = t
	typeCode(t)
	lv := leavesOf(t)
	if len(lv) == 1 {
		return []*Term{App("unbox_"+k, lv[0].sort, x)}
	}
	if x.op == "app" && x.name == "box_"+k {
		return x.args
	}
	var out []*Term
	for i, l := range lv {
		out = append(out, App(fmt.Sprintf("unbox%d_%s", i, k), l.sort, x))
	}
	return out
}

func (e *Exec) typeAssert(f *Frame, x *ssa.TypeAssert, g *Term, st *State) *Val {
	v := e.val(f, x.X).t
	t := x.AssertedType
	if _, isI := t.Underlying().(*types.Interface); isI {
		ok := Neq(v, IfcNil())
		r := App("implements$"+typeKey(t), SBool, v)
		ok = And(ok, r)
		if x.CommaOk {
			return &Val{T: x.Type(), fields: []*Val{scalar(t, Ite(ok, v, IfcNil())), scalar(types.Typ[types.Bool], ok)}}
		}
		e.check("typeassert", "interface conversion succeeds", x.Pos(), g, ok)
		return scalar(t, v)
	}
	ls := unboxTerms(v, t)
	ok := Eq(dynTerm(v), Int(typeCode(t)))
	uv, _ := fromLeaves(t, ls)
	e.closedVal(And(g, ok), uv, st.alloc)
	if x.CommaOk {
		var zs []*Term
		for i, l := range leavesOf(t) {
			zs = append(zs, Ite(ok, ls[i], zeroTerm(l.sort)))
		}
		r, _ := fromLeaves(t, zs)
		return &Val{T: x.Type(), fields: []*Val{r, scalar(types.Typ[types.Bool], ok)}}
	}
	e.check("typeassert", "dynamic type is "+typeKey(t), x.Pos(), g, ok)
	return uv
}
