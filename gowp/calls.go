package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LocSet: the memory a function may modify.
type LocSet struct {
	locs []Loc
}
type Loc struct {
	keys []string
	ref  *Term                         // single reference, or
	excl func(k string, r *Term) *Term // formula: r is not one of the references
}

// except: formulas saying that reference r is outside the set for heap k
func (l LocSet) except(k string, r *Term) []*Term {
	var out []*Term
	for _, x := range l.locs {
		hit := false
		for _, kk := range x.keys {
			if kk == k {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if x.excl != nil {
			out = append(out, x.excl(k, r))
		} else {
			out = append(out, Neq(r, x.ref))
		}
	}
	return out
}

func (e *Exec) call(f *Frame, c *ssa.CallCommon, site *ssa.Call, pos token.Pos, gp **Term, st *State) *Val {
	var args []*Val
	for _, a := range c.Args {
		args = append(args, e.val(f, a))
	}
	var fnv *Val
	if c.IsInvoke() {
		fnv = e.val(f, c.Value)
	} else {
		switch c.Value.(type) {
		case *ssa.Function, *ssa.Builtin:
		default:
			fnv = e.val(f, c.Value)
		}
	}
	return e.callWith(f, c, fnv, args, site, pos, gp, st)
}

func sigResult(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func packResults(sig *types.Signature, vs []*Val) *Val {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return &Val{T: sig.Results(), fields: vs}
}

func (e *Exec) callWith(f *Frame, c *ssa.CallCommon, fnv *Val, args []*Val, site *ssa.Call, pos token.Pos, gp **Term, st *State) *Val {
	sig := c.Signature()
	if c.IsInvoke() {
		// static dispatch when the dynamic type is known
		iv := fnv.t
		if iv.op == "app" && strings.HasPrefix(iv.name, "box_") {
			t := boxTypes[iv.name[4:]]
			if fn := e.eng.method(t, c.Method); fn != nil {
				r, _ := fromLeaves(t, iv.args)
				return e.callFn(f, fn, nil, append([]*Val{r}, args...), pos, gp, st)
			}
		}
		e.check("nil", "interface is not nil", pos, *gp, Neq(iv, IfcNil()))
		name := typeKey(c.Value.Type()) + "." + c.Method.Name()
		if con := e.eng.contract(name); con != nil {
			e.usedExterns[name] = true
			var ps []*types.Var
			for i := 0; i < sig.Params().Len(); i++ {
				ps = append(ps, sig.Params().At(i))
			}
			return e.applyContract(f, con, nil, sig, append([]*Val{fnv}, args...), paramNames("recv", ps), pos, gp, st)
		}
		panic(unsupported("interface call " + name))
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(f, v, c, args, pos, gp, st)
	case *ssa.Function:
		return e.callFn(f, v, nil, args, pos, gp, st)
	}
	if fnv != nil && fnv.fn != nil {
		switch v := fnv.fn.fn.(type) {
		case *ssa.Function:
			return e.callFn(f, v, fnv.fn.bindings, args, pos, gp, st)
		case *ssa.Builtin:
			return e.builtin(f, v, c, args, pos, gp, st)
		}
	}
	panic(unsupported("call of unknown function value"))
}

func paramNames(recv string, ps []*types.Var) []string {
	var out []string
	if recv != "" {
		out = append(out, recv)
	}
	for i, p := range ps {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		out = append(out, n)
	}
	return out
}

func fnParamNames(fn *ssa.Function) []string {
	var out []string
	sig := fn.Signature
	if sig.Recv() != nil {
		n := sig.Recv().Name()
		if n == "" || n == "_" {
			n = "recv"
		}
		out = append(out, n)
	}
	var ps []*types.Var
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	return append(out, paramNames("", ps)...)
}

func (e *Exec) callFn(f *Frame, fn *ssa.Function, bindings []*Val, args []*Val, pos token.Pos, gp **Term, st *State) *Val {
	name := e.eng.fnName(fn)
	if m, ok := builtinModels[name]; ok {
		e.usedExterns[name+" (modelled in the engine)"] = true
		return m(e, f, fn, args, pos, gp, st)
	}
	con := e.eng.contract(name)
	if con != nil && !con.Inline {
		if con.Trusted {
			e.usedExterns[name] = true
		} else {
			e.usedContracts[name] = true
		}
		return e.applyContract(f, con, fn, fn.Signature, args, fnParamNames(fn), pos, gp, st)
	}
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "wrapper") || fn.Blocks != nil && e.eng.inRepo(fn) {
		return e.inline(f, fn, con, bindings, args, pos, gp, st)
	}
	panic(unsupported("call of " + name + " (no contract)"))
}

func (e *Exec) inline(f *Frame, fn *ssa.Function, con *Contract, bindings []*Val, args []*Val, pos token.Pos, gp **Term, st *State) *Val {
	if e.inlineDepth > 8 {
		panic(unsupported("recursion through " + fn.Name()))
	}
	e.inlined[e.eng.fnName(fn)] = true
	e.inlineDepth++
	defer func() { e.inlineDepth-- }()
	ck := "inl" + f.id + fn.Name()
	e.nfresh[ck]++
	nf := &Frame{fn: fn, env: map[ssa.Value]*Val{}, id: fmt.Sprintf("%s%s%d.", f.id, fn.Name(), e.nfresh[ck]), parent: f, con: con, params: args, entry: st.clone()}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		nf.env[b] = bindings[i]
	}
	g, s, vs := e.execBody(nf, *gp, st.clone())
	*gp = g
	st.heap, st.alloc = s.heap, s.alloc
	return packResults(fn.Signature, vs)
}

func (e *Exec) conEval(con *Contract, names []string, args []*Val, st, old *State, g *Term) *Eval {
	ev := &Eval{e: e, st: st, old: old, vars: map[string]*Val{}, g: g}
	for i, n := range names {
		if i < len(args) {
			ev.vars[n] = args[i]
		}
	}
	return ev
}

func (e *Exec) applyContract(f *Frame, con *Contract, fn *ssa.Function, sig *types.Signature, args []*Val, names []string, pos token.Pos, gp **Term, st *State) *Val {
	g := *gp
	pre := st.clone()
	ev := e.conEval(con, names, args, pre, pre, g)
	for _, cl := range con.Requires {
		if !e.eng.useClause(cl) {
			continue
		}
		t := ev.boolTerm(cl.expr)
		if con.Trusted && cl.hasTag("assume") {
			continue
		}
		e.oblige("requires", fmt.Sprintf("%s: %s", con.Name, cl.text), e.eng.pos(pos), g, t, cl.tags)
		e.assume(g, t)
	}
	for _, cl := range con.Panics {
		t := ev.boolTerm(cl.expr)
		if e.eng.panicTags {
			// the caller must show the documented panic does not happen, or have it documented itself
			goal := Not(t)
			if e.con != nil && len(e.con.Panics) > 0 {
				var cs []*Term
				ee := e.entryEval()
				for _, c := range e.con.Panics {
					cs = append(cs, ee.boolTerm(c.expr))
				}
				goal = Or(append(cs, goal)...)
			}
			e.oblige("panic", fmt.Sprintf("%s does not panic: %s", con.Name, cl.text), e.eng.pos(pos), g, goal, cl.tags)
		}
		e.assume(g, Not(t))
	}
	mods := e.modLocs(con, ev)
	// havoc
	var touched map[string]bool
	if fn != nil && fn.Blocks != nil && e.eng.inRepo(fn) && !con.Trusted {
		touched = e.eng.touchedFn(fn)
	} else {
		touched = map[string]bool{}
		for _, l := range mods.locs {
			for _, k := range l.keys {
				touched[k] = true
			}
		}
		// fresh results of trusted functions may be allocated in these heaps
		for i := 0; i < sig.Results().Len(); i++ {
			for _, k := range reachHeaps(sig.Results().At(i).Type()) {
				touched[k] = true
			}
		}
	}
	var ks []string
	for k := range touched {
		if _, ok := heapSorts[k]; ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	cid := fmt.Sprintf("c%s%s", f.id, con.short())
	e.nfresh[cid]++
	cid = fmt.Sprintf("%s!%d", cid, e.nfresh[cid])
	al := Sym(cid+"!alloc", SInt)
	e.assume(g, Le(pre.alloc, al))
	for _, k := range ks {
		h0 := pre.get(k)
		so := heapSorts[k]
		h1 := Sym(cid+"!"+k, so)
		if strings.HasPrefix(so, "(Array Int") {
			r := BV("r", SInt)
			cs := append([]*Term{Le(Int(0), r), Lt(r, pre.alloc)}, mods.except(k, r)...)
			e.assume(g, Forall([]*Term{r}, Imp(And(cs...), Eq(Select(h1, r), Select(h0, r))), []*Term{Select(h1, r)}))
			// writes for loop frames
			for _, l := range mods.locs {
				for _, kk := range l.keys {
					if kk == k && l.ref != nil {
						e.recWrite(k, l.ref)
					} else if kk == k {
						e.recWrite(k, Sym("unknownref!", SInt))
					}
				}
			}
		}
		st.heap[k] = h1
		e.heapClosed(g, k, h1, al)
	}
	st.alloc = al
	// results
	var res []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := e.freshVal(fmt.Sprintf("%s!r%d", cid, i), t)
		e.closedVal(g, v, al)
		res = append(res, v)
	}
	ev2 := e.conEval(con, names, args, st, pre, g)
	ev2.setResults(sig, res)
	ev2.wit = func(n string, t types.Type) *Val {
		e.nfresh["skr"]++
		s := Sym(fmt.Sprintf("%s!skr%s%d", cid, n, e.nfresh["skr"]), arr(SInt, sortOf(t)))
		e.skolRows = append(e.skolRows, s)
		return &Val{T: types.NewSlice(t), t: s}
	}
	for _, cl := range con.Ensures {
		if !e.eng.useClause(cl) {
			continue
		}
		t := ev2.boolTerm(cl.expr)
		e.assume(g, t)
	}
	if con.NoReturn {
		*gp = False()
	}
	return packResults(sig, res)
}

// heaps reachable from a value of type t (one level: what a trusted function may allocate)
func reachHeaps(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return objectHeaps(u.Elem())
	case *types.Slice:
		return elemHeaps(u.Elem())
	case *types.Map:
		d, c, vs := regMap(u)
		return append([]string{d, c}, vs...)
	}
	return nil
}

func (e *Exec) modLocs(con *Contract, ev *Eval) LocSet {
	var out LocSet
	for _, cl := range con.Modifies {
		if !e.eng.useClause(cl) {
			continue
		}
		out.locs = append(out.locs, ev.loc(cl.expr)...)
	}
	for _, cl := range con.Sets {
		out.locs = append(out.locs, ev.loc(cl.lhs)...)
	}
	return out
}

func (e *Exec) deferInLoop(f *Frame, d deferred, gp **Term, st *State) {
	// Deferred calls inside a loop are executed where they are registered (only
	// sound for calls whose effect does not depend on when it happens; these are
	// reported as an assumption).
	e.notes["a defer inside a loop is executed where it is registered"] = true
	e.callWith(f, d.call, d.fnv, d.args, nil, d.pos, gp, st)
}

// ---------------------------------------------------------------- builtins
func (e *Exec) builtin(f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []*Val, pos token.Pos, gp **Term, st *State) *Val {
	g := *gp
	it := types.Typ[types.Int]
	switch b.Name() {
	case "len":
		a := args[0]
		switch u := a.T.Underlying().(type) {
		case *types.Slice:
			return scalar(it, SLen(a.t))
		case *types.Map:
			_, cc, _ := regMap(u)
			n := Select(st.get(cc), a.t)
			e.assume(g, Le(Int(0), n))
			return scalar(it, n)
		case *types.Basic:
			e.assume(g, Le(Int(0), strlen(a.t)))
			return scalar(it, strlen(a.t))
		case *types.Chan:
			_, _, h, t, _, _ := regChan(u)
			return scalar(it, Sub(Select(st.get(t), a.t), Select(st.get(h), a.t)))
		}
	case "cap":
		if a := args[0]; a.t.sort == SSlc {
			return scalar(it, SCap(a.t))
		}
	case "append":
		return e.appendB(f, c, args, pos, g, st)
	case "copy":
		return e.copyB(args, pos, g, st)
	case "delete":
		mt := args[0].T.Underlying().(*types.Map)
		e.mapDelete(mt, args[0].t, args[1].t, g, st)
		return nil
	case "close":
		e.chanClose(args[0].T.Underlying().(*types.Chan), args[0].t, pos, g, st)
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		if args[0].t.sort == SInt {
			acc := args[0].t
			for _, a := range args[1:] {
				if b.Name() == "min" {
					acc = Ite(Le(acc, a.t), acc, a.t)
				} else {
					acc = Ite(Le(acc, a.t), a.t, acc)
				}
			}
			return scalar(args[0].T, acc)
		}
	case "recover":
		return scalar(types.NewInterfaceType(nil, nil), IfcNil())
	}
	panic(unsupported("builtin " + b.Name()))
}

// append: the result holds the elements of s followed by those of t; it reuses
// the storage of s exactly when the capacity suffices (Go semantics).
func (e *Exec) appendB(f *Frame, c *ssa.CallCommon, args []*Val, pos token.Pos, g *Term, st *State) *Val {
	s := args[0]
	var t *Val
	if len(args) > 1 {
		t = args[1]
	} else {
		return s
	}
	el := s.T.Underlying().(*types.Slice).Elem()
	var tn *Term
	if t.t.sort == SStr {
		panic(unsupported("append of a string"))
	}
	tn = SLen(t.t)
	n := SLen(s.t)
	tot := Add(n, tn)
	e.nfresh["app"]++
	id := fmt.Sprintf("app%s!%d", f.id, e.nfresh["app"])
	fits := Le(tot, SCap(s.t))
	nr := e.newRef(st)
	ncap := Sym(id+"!cap", SInt)
	e.assume(g, Le(tot, ncap))
	grow := MkSlc(nr, Int(0), tot, ncap)
	same := MkSlc(SRef(s.t), SOff(s.t), tot, SCap(s.t))
	var res *Term
	if x, ok := constOf(SCap(s.t)); ok && x == 0 {
		// nil or empty literal
		res = Ite(Le(tn, Int(0)), same, grow)
	} else {
		res = Ite(fits, same, grow)
	}
	if y, ok := constOf(tn); ok && y > 0 && SRef(s.t) == Int(0) {
		res = grow
	}
	for _, l := range leavesOf(el) {
		k := regElem(el, l)
		h := st.get(k)
		src := Select(h, SRef(t.t))
		old := Select(h, SRef(s.t))
		// new row in case of growth
		var in, gr *Term
		if y, ok := constOf(tn); ok && y >= 0 && y <= 4 {
			// in place
			in = old
			for i := int64(0); i < y; i++ {
				in = Store(in, Add(SOff(s.t), n, Int(i)), Select(src, Add(SOff(t.t), Int(i))))
			}
			row := Sym(fmt.Sprintf("%s!row%s", id, k), arr(SInt, l.sort))
			j := BV("j", SInt)
			e.assume(g, Forall([]*Term{j}, Imp(And(Le(Int(0), j), Lt(j, n)), Eq(Select(row, j), Select(old, Add(SOff(s.t), j))))))
			for i := int64(0); i < y; i++ {
				e.assume(g, Eq(Select(row, Add(n, Int(i))), Select(src, Add(SOff(t.t), Int(i)))))
			}
			gr = row
		} else {
			ir := Sym(fmt.Sprintf("%s!inrow%s", id, k), arr(SInt, l.sort))
			j := BV("j", SInt)
			base := Add(SOff(s.t), n)
			e.assume(g, Forall([]*Term{j}, Eq(Select(ir, j), Ite(And(Le(base, j), Lt(j, Add(base, tn))), Select(src, Add(SOff(t.t), Sub(j, base))), Select(old, j))), []*Term{Select(ir, j)}))
			in = ir
			row := Sym(fmt.Sprintf("%s!row%s", id, k), arr(SInt, l.sort))
			e.assume(g, Forall([]*Term{j}, Imp(And(Le(Int(0), j), Lt(j, n)), Eq(Select(row, j), Select(old, Add(SOff(s.t), j))))))
			e.assume(g, Forall([]*Term{j}, Imp(And(Le(n, j), Lt(j, tot)), Eq(Select(row, j), Select(src, Add(SOff(t.t), Sub(j, n)))))))
			gr = row
		}
		if y, ok := constOf(SCap(s.t)); ok && y == 0 {
			st.heap[k] = Store(h, nr, gr)
			continue
		}
		// when the storage is reused only row sref(s) changes; otherwise only the new row
		h2 := Ite(fits, Store(h, SRef(s.t), in), Store(h, nr, gr))
		st.heap[k] = h2
		e.recWrite(k, SRef(s.t))
	}
	v := scalar(s.T, res)
	if res.op == "ite" {
		// name the result to keep terms small
		ns := Sym(id+"!res", SSlc)
		e.assume(True(), Eq(ns, res))
		e.assume(g, Eq(SLen(ns), tot))
		v = scalar(s.T, ns)
		e.closedVal(g, v, st.alloc)
	}
	return v
}

func (e *Exec) copyB(args []*Val, pos token.Pos, g *Term, st *State) *Val {
	d, s := args[0], args[1]
	el := d.T.Underlying().(*types.Slice).Elem()
	if s.t.sort == SStr {
		panic(unsupported("copy from string"))
	}
	n := Ite(Le(SLen(d.t), SLen(s.t)), SLen(d.t), SLen(s.t))
	e.nfresh["copy"]++
	id := fmt.Sprintf("copy!%d", e.nfresh["copy"])
	for _, l := range leavesOf(el) {
		k := regElem(el, l)
		h := st.get(k)
		src, old := Select(h, SRef(s.t)), Select(h, SRef(d.t))
		row := Sym(id+"!row"+k, arr(SInt, l.sort))
		j := BV("j", SInt)
		base := SOff(d.t)
		e.assume(g, Forall([]*Term{j}, Eq(Select(row, j), Ite(And(Le(base, j), Lt(j, Add(base, n))), Select(src, Add(SOff(s.t), Sub(j, base))), Select(old, j))), []*Term{Select(row, j)}))
		st.heap[k] = Store(h, SRef(d.t), row)
		e.recWrite(k, SRef(d.t))
	}
	return scalar(types.Typ[types.Int], n)
}

// ---------------------------------------------------------------- functions modelled in the engine
type model func(e *Exec, f *Frame, fn *ssa.Function, args []*Val, pos token.Pos, gp **Term, st *State) *Val

var builtinModels map[string]model

func init() {
	fresh := func(e *Exec, fn *ssa.Function, g *Term, st *State) *Val {
		var res []*Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			v := e.freshVal(e.fresh("ext!"+fn.Name(), SInt).name, fn.Signature.Results().At(i).Type())
			e.closedVal(g, v, st.alloc)
			res = append(res, v)
		}
		return packResults(fn.Signature, res)
	}
	noop := func(e *Exec, f *Frame, fn *ssa.Function, args []*Val, pos token.Pos, gp **Term, st *State) *Val {
		return fresh(e, fn, *gp, st)
	}
	nonnil := func(e *Exec, f *Frame, fn *ssa.Function, args []*Val, pos token.Pos, gp **Term, st *State) *Val {
		v := fresh(e, fn, *gp, st)
		e.assume(*gp, Neq(v.t, IfcNil()))
		return v
	}
	exit := func(e *Exec, f *Frame, fn *ssa.Function, args []*Val, pos token.Pos, gp **Term, st *State) *Val {
		*gp = False()
		return nil
	}
	builtinModels = map[string]model{
		"fmt.Print": noop, "fmt.Printf": noop, "fmt.Println": noop,
		"log.Printf": noop, "log.Println": noop, "log.Print": noop,
		"fmt.Errorf": nonnil, "errors.New": nonnil,
		"log.Fatal": exit, "log.Fatalf": exit, "os.Exit": exit,
		"time.Now": nil,
		"fmt.Sprint": func(e *Exec, f *Frame, fn *ssa.Function, args []*Val, pos token.Pos, gp **Term, st *State) *Val {
			return e.sprintModel("sprint", args, st)
		},
		"fmt.Sprintf": func(e *Exec, f *Frame, fn *ssa.Function, args []*Val, pos token.Pos, gp **Term, st *State) *Val {
			return e.sprintModel("sprintf", args, st)
		},
	}
	delete(builtinModels, "time.Now")
}

// Sprint/Sprintf are functions of the format and the argument values.
func (e *Exec) sprintModel(n string, args []*Val, st *State) *Val {
	var ts []*Term
	for _, a := range args {
		if a.t.sort == SSlc {
			k := regElem(types.NewInterfaceType(nil, nil), Leaf{nil, SIfc, types.NewInterfaceType(nil, nil)})
			if c, ok := constOf(SLen(a.t)); ok {
				for i := int64(0); i < c; i++ {
					ts = append(ts, Select(Select(st.get(k), SRef(a.t)), Add(SOff(a.t), Int(i))))
				}
				continue
			}
		}
		ts = append(ts, a.t)
	}
	return scalar(types.Typ[types.String], App(fmt.Sprintf("%s%d", n, len(ts)), SStr, ts...))
}
