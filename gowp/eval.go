package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eval evaluates specification expressions in a state.
type Eval struct {
	e      *Exec
	st     *State
	old    *State
	vars   map[string]*Val
	lookup func(name string, st *State) *Val
	g      *Term
	depth  int
	pdepth int
	visit  func(k *Term) *Term // visited(k) of the current map loop
	wit    func(name string, t types.Type) *Val // witness of existsrow
}

type specErr string

func (s specErr) Error() string { return string(s) }

func (ev *Eval) fail(format string, a ...any) { panic(specErr(fmt.Sprintf(format, a...))) }

func (ev *Eval) setResults(sig *types.Signature, vs []*Val) {
	for i, v := range vs {
		ev.vars[fmt.Sprintf("result%d", i)] = v
		if i == 0 {
			ev.vars["result"] = v
		}
		if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			if _, ok := ev.vars[n]; !ok {
				ev.vars[n] = v
			}
		}
	}
}

func (ev *Eval) boolTerm(x ast.Expr) *Term {
	v := ev.expr(x)
	if v.t == nil || v.t.sort != SBool {
		ev.fail("not a boolean: %s", exprStr(x))
	}
	return v.t
}
func (ev *Eval) tryBool(x ast.Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch y := r.(type) {
			case specErr:
				err = y
			case unsupported:
				err = y
			default:
				panic(r)
			}
		}
	}()
	return ev.boolTerm(x), nil
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (ev *Eval) with(name string, v *Val) *Eval {
	n := *ev
	n.vars = make(map[string]*Val, len(ev.vars)+1)
	for k, x := range ev.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	n.depth++
	return &n
}

// path to a field, following embedded structs
func findField(t types.Type, name string) ([]string, types.Type) {
	type node struct {
		path []string
		t    types.Type
	}
	level := []node{{nil, t}}
	for len(level) > 0 {
		var next []node
		for _, n := range level {
			if !isStruct(n.t) {
				continue
			}
			for _, f := range structFields(n.t) {
				if f.name == name {
					return append(append([]string{}, n.path...), name), f.typ
				}
			}
			st := n.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() {
					next = append(next, node{append(append([]string{}, n.path...), st.Field(i).Name()), st.Field(i).Type()})
				}
			}
		}
		level = next
	}
	return nil, nil
}

// ptr to x.f, nil if x is not addressable
func (ev *Eval) fieldPtr(base *Val, name string) *Ptr {
	pt, ok := base.T.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	p := ev.e.ptrOf(base, base.T)
	path, ft := findField(pt.Elem(), name)
	if path == nil {
		ev.fail("no field %s in %s", name, base.T)
	}
	return &Ptr{kind: p.kind, base: p.base, owner: p.owner, path: append(append([]string{}, p.path...), path...), idx: p.idx, typ: ft}
}

func (ev *Eval) load(p *Ptr) *Val {
	if isArray(p.typ) && p.kind == "field" {
		k := regField(p.owner, p.path, Leaf{p.path, SInt, p.typ})
		return &Val{T: p.typ, ref: Select(ev.st.get(k), p.base)}
	}
	return ev.e.loadPtr(p, ev.st)
}

func (ev *Eval) ident(n string) *Val {
	if v, ok := ev.vars[n]; ok {
		return v
	}
	if ev.lookup != nil {
		if v := ev.lookup(n, ev.st); v != nil {
			return v
		}
	}
	switch n {
	case "true", "false":
		return scalar(types.Typ[types.Bool], Bool(n == "true"))
	case "nil":
		return &Val{T: types.Typ[types.UntypedNil], t: IfcNil()}
	}
	// package-level constant of the repository
	if c := ev.e.eng.lookupConst(ev.e.fn, n); c != nil {
		return scalar(c.Type(), constTerm(c.Val(), c.Type()))
	}
	ev.fail("unknown name %s", n)
	return nil
}

func (ev *Eval) expr(x ast.Expr) *Val {
	bt := types.Typ[types.Bool]
	it := types.Typ[types.Int]
	switch n := x.(type) {
	case *ast.ParenExpr:
		return ev.expr(n.X)
	case *ast.Ident:
		return ev.ident(n.Name)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			i, _ := strconv.ParseInt(n.Value, 0, 64)
			return scalar(it, Int(i))
		case token.FLOAT:
			f, _ := strconv.ParseFloat(n.Value, 64)
			return scalar(types.Typ[types.Float64], f64const(fmt.Sprint(f)))
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return scalar(types.Typ[types.String], strConst(s))
		}
	case *ast.UnaryExpr:
		v := ev.expr(n.X)
		switch n.Op {
		case token.NOT:
			return scalar(bt, Not(v.t))
		case token.SUB:
			if v.t.sort == SInt {
				return scalar(v.T, Neg(v.t))
			}
			return scalar(v.T, App(f32s(v.t.sort, "fneg"), v.t.sort, v.t))
		}
	case *ast.StarExpr:
		v := ev.expr(n.X)
		return ev.load(ev.e.ptrOf(v, v.T))
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			return scalar(bt, And(ev.boolTerm(n.X), ev.boolTerm(n.Y)))
		case token.LOR:
			return scalar(bt, Or(ev.boolTerm(n.X), ev.boolTerm(n.Y)))
		}
		a, b := ev.expr(n.X), ev.expr(n.Y)
		a, b = ev.unify(a, b)
		switch n.Op {
		case token.EQL:
			return scalar(bt, specEq(a, b))
		case token.NEQ:
			return scalar(bt, Not(specEq(a, b)))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return scalar(bt, cmp(n.Op, a.t, b.t))
		}
		if (n.Op == token.QUO || n.Op == token.REM) && a.t.sort == SInt {
			if len(a.t.fv) == 0 && len(b.t.fv) == 0 {
				ev.e.divFacts(True(), a.t, b.t)
			}
		}
		return scalar(a.T, arith(n.Op, a.t, b.t, a.T))
	case *ast.SelectorExpr:
		v := ev.expr(n.X)
		if _, ok := v.T.Underlying().(*types.Pointer); ok {
			p := ev.fieldPtr(v, n.Sel.Name)
			// embedded struct at offset 0: keep as pointer-like root value
			return ev.load(p)
		}
		if isStruct(v.T) {
			path, _ := findField(v.T, n.Sel.Name)
			if path == nil {
				ev.fail("no field %s in %s", n.Sel.Name, v.T)
			}
			for _, f := range path {
				v = v.field(f)
			}
			return v
		}
		ev.fail("selector %s on %s", n.Sel.Name, v.T)
	case *ast.IndexExpr:
		v := ev.expr(n.X)
		i := ev.expr(n.Index)
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			p := &Ptr{kind: "elem", base: SRef(v.t), owner: u.Elem(), idx: Add(SOff(v.t), i.t), typ: u.Elem()}
			return ev.load(p)
		case *types.Array:
			p := &Ptr{kind: "elem", base: v.ref, owner: u.Elem(), idx: i.t, typ: u.Elem()}
			return ev.load(p)
		case *types.Map:
			_, _, vs := regMap(u)
			var ls []*Term
			for _, h := range vs {
				ls = append(ls, Select(Select(ev.st.get(h), v.t), i.t))
			}
			r, _ := fromLeaves(u.Elem(), ls)
			return r
		}
		ev.fail("index of %s", v.T)
	case *ast.CallExpr:
		return ev.callE(n)
	}
	ev.fail("cannot evaluate %s", exprStr(x))
	return nil
}

// specEq: logical equality (floats are compared as values, NaN equals itself)
func specEq(a, b *Val) *Term {
	if a.ref != nil && b.ref != nil {
		return Eq(a.ref, b.ref)
	}
	la, lb := a.leaves(), b.leaves()
	if len(la) != len(lb) {
		panic(specErr("equality of different types"))
	}
	var cs []*Term
	for i := range la {
		if la[i].sort == SSlc && (lb[i] == NilSlc()) {
			cs = append(cs, Eq(SRef(la[i]), Int(0)))
			continue
		}
		if la[i].sort != lb[i].sort {
			panic(specErr(fmt.Sprintf("equality of %s and %s", la[i].sort, lb[i].sort)))
		}
		cs = append(cs, Eq(la[i], lb[i]))
	}
	return And(cs...)
}

func (ev *Eval) unify(a, b *Val) (*Val, *Val) {
	if a.T == types.Typ[types.UntypedNil] && b.T != types.Typ[types.UntypedNil] {
		return scalar(b.T, zeroTerm(sortOf(b.T))), b
	}
	if b.T == types.Typ[types.UntypedNil] && a.T != types.Typ[types.UntypedNil] {
		return a, scalar(a.T, zeroTerm(sortOf(a.T)))
	}
	// integer literal against float
	if a.t != nil && b.t != nil {
		if a.t.sort == SInt && isFloatSort(b.t.sort) {
			if c, ok := constOf(a.t); ok {
				return scalar(b.T, constTerm(constant.MakeInt64(c), b.T)), b
			}
		}
		if b.t.sort == SInt && isFloatSort(a.t.sort) {
			if c, ok := constOf(b.t); ok {
				return a, scalar(a.T, constTerm(constant.MakeInt64(c), a.T))
			}
		}
	}
	return a, b
}

func (ev *Eval) refOf(v *Val) *Term {
	if v.ref != nil {
		return v.ref
	}
	if v.ptr != nil {
		return v.ptr.base
	}
	if v.t.sort == SSlc {
		return SRef(v.t)
	}
	if v.t.sort == SInt {
		return v.t
	}
	ev.fail("ref of %s", v.T)
	return nil
}

func (ev *Eval) bound(x ast.Expr, s Sort) (string, *Term) {
	id, ok := x.(*ast.Ident)
	if !ok {
		ev.fail("bound variable expected")
	}
	return id.Name, BV(fmt.Sprintf("%s.%d", id.Name, ev.depth), s)
}

func (ev *Eval) dom(m *Val) *Term {
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok {
		ev.fail("map expected, got %s", m.T)
	}
	d, _, _ := regMap(mt)
	return Select(ev.st.get(d), m.t)
}

func (ev *Eval) callE(n *ast.CallExpr) *Val {
	bt := types.Typ[types.Bool]
	it := types.Typ[types.Int]
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		if s, ok2 := n.Fun.(*ast.SelectorExpr); ok2 {
			ev.fail("method call %s in specification", s.Sel.Name)
		}
		ev.fail("call in specification")
	}
	name := id.Name
	a := n.Args
	need := func(k int) {
		if len(a) != k {
			ev.fail("%s takes %d arguments", name, k)
		}
	}
	switch name {
	case "implies":
		need(2)
		p := ev.boolTerm(a[0])
		if p.op == "false" {
			return scalar(bt, True())
		}
		return scalar(bt, Imp(p, ev.boolTerm(a[1])))
	case "iff":
		need(2)
		return scalar(bt, Eq(ev.boolTerm(a[0]), ev.boolTerm(a[1])))
	case "ite":
		need(3)
		c := ev.boolTerm(a[0])
		x, y := ev.expr(a[1]), ev.expr(a[2])
		x, y = ev.unify(x, y)
		return scalar(x.T, Ite(c, x.t, y.t))
	case "old":
		need(1)
		if ev.old == nil {
			ev.fail("old() not available here")
		}
		n2 := *ev
		n2.st = ev.old
		return n2.expr(a[0])
	case "len", "cap":
		need(1)
		v := ev.expr(a[0])
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			if name == "cap" {
				return scalar(it, SCap(v.t))
			}
			return scalar(it, SLen(v.t))
		case *types.Map:
			_, c, _ := regMap(u)
			return scalar(it, Select(ev.st.get(c), v.t))
		case *types.Basic:
			return scalar(it, strlen(v.t))
		case *types.Array:
			return scalar(it, Int(u.Len()))
		case *types.Chan:
			_, _, h, t, _, _ := regChan(u)
			return scalar(it, Sub(Select(ev.st.get(t), v.t), Select(ev.st.get(h), v.t)))
		}
		ev.fail("len of %s", v.T)
	case "in":
		need(2)
		return scalar(bt, Select(ev.dom(ev.expr(a[1])), ev.expr(a[0]).t))
	case "ref":
		need(1)
		return scalar(it, ev.refOf(ev.expr(a[0])))
	case "off":
		need(1)
		return scalar(it, SOff(ev.expr(a[0]).t))
	case "samedom":
		// two maps (possibly of different element types) have the same keys
		need(2)
		return scalar(bt, Eq(ev.dom(ev.expr(a[0])), ev.dom(ev.expr(a[1]))))
	case "fresh":
		need(1)
		r := ev.refOf(ev.expr(a[0]))
		return scalar(bt, And(Le(ev.old.alloc, r), Lt(r, ev.st.alloc)))
	case "allocated":
		need(1)
		r := ev.refOf(ev.expr(a[0]))
		return scalar(bt, And(Le(Int(1), r), Lt(r, ev.st.alloc)))
	case "visited":
		need(1)
		if ev.visit == nil {
			ev.fail("visited outside a map loop")
		}
		return scalar(bt, ev.visit(ev.expr(a[0]).t))
	case "forall", "exists":
		need(4)
		nm, b := ev.bound(a[0], SInt)
		lo, hi := ev.expr(a[1]).t, ev.expr(a[2]).t
		body := ev.with(nm, scalar(it, b)).boolTerm(a[3])
		rg := And(Le(lo, b), Lt(b, hi))
		if name == "forall" {
			return scalar(bt, Forall([]*Term{b}, Imp(rg, body)))
		}
		return scalar(bt, Exists([]*Term{b}, And(rg, body)))
	case "forallk", "existsk":
		need(3)
		m := ev.expr(a[1])
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			ev.fail("map expected")
		}
		nm, b := ev.bound(a[0], sortOf(mt.Key()))
		body := ev.with(nm, scalar(mt.Key(), b)).boolTerm(a[2])
		d := Select(ev.dom(m), b)
		if name == "forallk" {
			return scalar(bt, Forall([]*Term{b}, Imp(d, body)))
		}
		return scalar(bt, Exists([]*Term{b}, And(d, body)))
	case "foralls", "existss", "foralli", "existsi":
		need(2)
		var T types.Type = types.Typ[types.String]
		if strings.HasSuffix(name, "i") {
			T = it
		}
		nm, b := ev.bound(a[0], sortOf(T))
		body := ev.with(nm, scalar(T, b)).boolTerm(a[1])
		if strings.HasPrefix(name, "forall") {
			return scalar(bt, Forall([]*Term{b}, body))
		}
		return scalar(bt, Exists([]*Term{b}, body))
	case "forallt", "existst":
		need(3)
		T, err := ev.e.eng.parseTypeExpr(a[1])
		if err != nil {
			ev.fail("%v", err)
		}
		nm, b := ev.bound(a[0], sortOf(T))
		body := ev.with(nm, scalar(T, b)).boolTerm(a[2])
		if name == "forallt" {
			return scalar(bt, Forall([]*Term{b}, body))
		}
		return scalar(bt, Exists([]*Term{b}, body))
	case "isnan":
		need(1)
		v := ev.expr(a[0])
		return scalar(bt, Not(App(f32s(v.t.sort, "feq"), SBool, v.t, v.t)))
	case "feq":
		need(2)
		v := ev.expr(a[0])
		w := ev.expr(a[1])
		v, w = ev.unify(v, w)
		return scalar(bt, App(f32s(v.t.sort, "feq"), SBool, v.t, w.t))
	case "isstr":
		need(1)
		return scalar(bt, Eq(dynTerm(ev.expr(a[0]).t), Int(typeCode(types.Typ[types.String]))))
	case "str":
		need(1)
		return scalar(types.Typ[types.String], unboxTerms(ev.expr(a[0]).t, types.Typ[types.String])[0])
	case "box":
		need(1)
		v := ev.expr(a[0])
		return scalar(types.NewInterfaceType(nil, nil), boxTerm(v, v.T))
	case "dyn":
		// dyn(x, T): the dynamic type of x is T
		need(2)
		T, err := ev.e.eng.parseTypeExpr(a[1])
		if err != nil {
			ev.fail("%v", err)
		}
		return scalar(bt, Eq(dynTerm(ev.expr(a[0]).t), Int(typeCode(T))))
	case "unbox":
		need(2)
		T, err := ev.e.eng.parseTypeExpr(a[1])
		if err != nil {
			ev.fail("%v", err)
		}
		r, _ := fromLeaves(T, unboxTerms(ev.expr(a[0]).t, T))
		return r
	case "chcap", "chclosed", "chhead", "chtail":
		need(1)
		v := ev.expr(a[0])
		_, _, h, t, c, xx := regChan(v.T.Underlying().(*types.Chan))
		switch name {
		case "chcap":
			return scalar(it, Select(ev.st.get(c), v.t))
		case "chhead":
			return scalar(it, Select(ev.st.get(h), v.t))
		case "chtail":
			return scalar(it, Select(ev.st.get(t), v.t))
		}
		return scalar(bt, Select(ev.st.get(xx), v.t))
	case "chat":
		need(2)
		v := ev.expr(a[0])
		ct := v.T.Underlying().(*types.Chan)
		bufs, _, _, _, _, _ := regChan(ct)
		var ls []*Term
		for _, b := range bufs {
			ls = append(ls, Select(Select(ev.st.get(b), v.t), ev.expr(a[1]).t))
		}
		r, _ := fromLeaves(ct.Elem(), ls)
		return r
	case "float64":
		need(1)
		v := ev.expr(a[0])
		if v.t.sort == SInt {
			if c, ok := constOf(v.t); ok {
				return scalar(types.Typ[types.Float64], f64const(fmt.Sprint(float64(c))))
			}
			return scalar(types.Typ[types.Float64], App("i2f", SF64, v.t))
		}
		return scalar(types.Typ[types.Float64], App("fconv"+SF64, SF64, v.t))
	case "float32":
		need(1)
		v := ev.expr(a[0])
		if v.t.sort == SInt {
			return scalar(types.Typ[types.Float32], App("i2f32", SF32, v.t))
		}
		return scalar(types.Typ[types.Float32], App("fconv"+SF32, SF32, v.t))
	case "int":
		need(1)
		v := ev.expr(a[0])
		if isFloatSort(v.t.sort) {
			return scalar(it, App(f32s(v.t.sort, "f2i"), SInt, v.t))
		}
		return v
	case "row":
		// row(s): the storage of slice s, as a value
		need(1)
		v := ev.expr(a[0])
		el := v.T.Underlying().(*types.Slice).Elem()
		lv := leavesOf(el)
		k := regElem(el, lv[0])
		return &Val{T: v.T, t: Select(ev.st.get(k), SRef(v.t))}
	case "at":
		// at(r, i): element i of a storage row
		need(2)
		v := ev.expr(a[0])
		el := v.T.Underlying().(*types.Slice).Elem()
		ix := ev.expr(a[1]).t
		if v.off != nil {
			ix = Add(v.off, ix)
		}
		return scalar(el, Select(v.t, ix))
	case "all":
		// all(v(x, T), ..., trig(t, ...), ..., body): quantifier with explicit triggers
		n2 := *ev
		n2.vars = map[string]*Val{}
		for k, x := range ev.vars {
			n2.vars[k] = x
		}
		n2.depth++
		var bvs []*Term
		var pats [][]*Term
		for _, x := range a[:len(a)-1] {
			c, ok := x.(*ast.CallExpr)
			if !ok {
				ev.fail("all: v(...) or trig(...) expected")
			}
			switch c.Fun.(*ast.Ident).Name {
			case "v":
				nm := c.Args[0].(*ast.Ident).Name
				if rc, ok := c.Args[1].(*ast.CallExpr); ok && exprStr(rc.Fun) == "rowof" {
					T, err := ev.e.eng.parseTypeExpr(rc.Args[0])
					if err != nil {
						ev.fail("%v", err)
					}
					b := BV(fmt.Sprintf("%s.%d", nm, n2.depth), arr(SInt, sortOf(T)))
					bvs = append(bvs, b)
					n2.vars[nm] = &Val{T: types.NewSlice(T), t: b}
					continue
				}
				T, err := ev.e.eng.parseTypeExpr(c.Args[1])
				if err != nil {
					ev.fail("%v", err)
				}
				b := BV(fmt.Sprintf("%s.%d", nm, n2.depth), sortOf(T))
				bvs = append(bvs, b)
				n2.vars[nm] = scalar(T, b)
			case "trig":
				var p []*Term
				for _, y := range c.Args {
					p = append(p, n2.expr(y).t)
				}
				pats = append(pats, p)
			}
		}
		return scalar(bt, Forall(bvs, n2.boolTerm(a[len(a)-1]), pats...))
	case "existsrow":
		// existsrow(p, T, body): there is a sequence p; a witness is chosen among the
		// values of the function when proved, and a fresh one is named when assumed
		need(3)
		T, err := ev.e.eng.parseTypeExpr(a[1])
		if err != nil {
			ev.fail("%v", err)
		}
		if ev.wit == nil {
			ev.fail("existsrow is only allowed in postconditions")
		}
		nm := a[0].(*ast.Ident).Name
		return scalar(bt, ev.with(nm, ev.wit(nm, T)).boolTerm(a[2]))
	case "sprint1", "sprintf2":
	}
	if p, ok := ev.e.eng.specs.preds[name]; ok {
		if len(a) != len(p.params) {
			ev.fail("predicate %s takes %d arguments", name, len(p.params))
		}
		if ev.pdepth > 40 {
			ev.fail("predicate recursion")
		}
		n2 := *ev
		n2.vars = map[string]*Val{}
		n2.lookup = nil
		n2.pdepth++
		for i, q := range p.params {
			n2.vars[q] = ev.expr(a[i])
		}
		return n2.expr(p.expr)
	}
	if u, ok := ev.e.eng.specs.funs[name]; ok {
		need(len(u.args))
		var ts []*Term
		for i := range a {
			v := ev.expr(a[i])
			v, _ = ev.unify(v, scalar(u.args[i], zeroTerm(sortOf(u.args[i]))))
			ls := v.leaves()
			if v.T != nil && len(ls) == 1 && strings.HasPrefix(ls[0].sort, "(Array") {
				ts = append(ts, ls[0])
				continue
			}
			ts = append(ts, ls...)
		}
		lv := leavesOf(u.ret)
		var rs []*Term
		for i, l := range lv {
			nm := name
			if len(lv) > 1 {
				nm = fmt.Sprintf("%s.%d", name, i)
			}
			rs = append(rs, App(nm, l.sort, ts...))
		}
		r, _ := fromLeaves(u.ret, rs)
		return r
	}
	// built-in arithmetic functions may be named directly
	if strings.HasPrefix(name, "uf_") {
		ev.fail("unknown function %s", name)
	}
	ev.fail("unknown predicate %s", name)
	return nil
}

// loc evaluates a modifies location.
func (ev *Eval) loc(x ast.Expr) []Loc {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return ev.loc(n.X)
	case *ast.SelectorExpr:
		v := ev.expr(n.X)
		p := ev.fieldPtr(v, n.Sel.Name)
		if p == nil {
			ev.fail("modifies: %s is not addressable", exprStr(x))
		}
		var ks []string
		for _, l := range leavesOf(p.typ) {
			path := append(append([]string{}, p.path...), l.path...)
			if p.kind == "elem" {
				ks = append(ks, regElem(p.owner, Leaf{path, l.sort, l.typ}))
			} else {
				ks = append(ks, regField(p.owner, path, l))
			}
		}
		return []Loc{{keys: ks, ref: p.base}}
	case *ast.CallExpr:
		id, ok := n.Fun.(*ast.Ident)
		if !ok {
			break
		}
		switch id.Name {
		case "when":
			// when(cond, loc): loc only if cond holds at entry
			c := ev.boolTerm(n.Args[0])
			if c.op == "false" {
				return nil
			}
			var out []Loc
			for _, l := range ev.loc(n.Args[1]) {
				l := l
				out = append(out, Loc{keys: l.keys, excl: func(k string, r *Term) *Term {
					var inner *Term
					if l.excl != nil {
						inner = l.excl(k, r)
					} else {
						inner = Neq(r, l.ref)
					}
					return Imp(c, inner)
				}})
			}
			return out
		case "obj":
			v := ev.expr(n.Args[0])
			p := ev.e.ptrOf(v, v.T)
			var ks []string
			for _, l := range leavesOf(p.typ) {
				ks = append(ks, regField(p.owner, append(append([]string{}, p.path...), l.path...), l))
			}
			return []Loc{{keys: ks, ref: p.base}}
		case "cell":
			v := ev.expr(n.Args[0])
			p := ev.e.ptrOf(v, v.T)
			return []Loc{{keys: []string{regCell(p.owner)}, ref: p.base}}
		case "map":
			v := ev.expr(n.Args[0])
			d, c, vs := regMap(v.T.Underlying().(*types.Map))
			return []Loc{{keys: append([]string{d, c}, vs...), ref: v.t}}
		case "elems":
			v := ev.expr(n.Args[0])
			return []Loc{{keys: elemHeaps(v.T.Underlying().(*types.Slice).Elem()), ref: SRef(v.t)}}
		case "elemsof":
			m := ev.expr(n.Args[0])
			mt := m.T.Underlying().(*types.Map)
			sl, ok := mt.Elem().Underlying().(*types.Slice)
			if !ok {
				ev.fail("elemsof: map of slices expected")
			}
			_, _, vs := regMap(mt)
			st := ev.st
			d := ev.dom(m)
			var cond ast.Expr
			var cname string
			if len(n.Args) == 3 {
				cname = n.Args[1].(*ast.Ident).Name
				cond = n.Args[2]
			}
			ev0 := *ev
			return []Loc{{keys: elemHeaps(sl.Elem()), excl: func(k string, r *Term) *Term {
				c := BV("ck", sortOf(mt.Key()))
				v := Select(Select(st.get(vs[0]), m.t), c)
				in := Select(d, c)
				if cond != nil {
					in = And(in, ev0.with(cname, scalar(mt.Key(), c)).boolTerm(cond))
				}
				return Forall([]*Term{c}, Imp(in, Neq(r, SRef(v))))
			}}}
		case "chan":
			v := ev.expr(n.Args[0])
			bufs, _, h, t, c, xx := regChan(v.T.Underlying().(*types.Chan))
			return []Loc{{keys: append(append([]string{}, bufs...), h, t, c, xx), ref: v.t}}
		}
	}
	ev.fail("bad location %s", exprStr(x))
	return nil
}

// ---------------------------------------------------------------- names inside functions
func (e *Exec) entryEval() *Eval {
	ev := &Eval{e: e, st: e.entry, old: e.entry, vars: map[string]*Val{}, g: True()}
	for i, n := range fnParamNames(e.fn) {
		if i < len(e.top.params) {
			ev.vars[n] = e.top.params[i]
		}
	}
	return ev
}

// loopEval evaluates invariants at the header of a loop.
func (e *Exec) loopEval(f *Frame, l *loopT, run *loopRun, ph map[ssa.Value]*Val, st *State) *Eval {
	entry := f.entry
	if f.parent == nil {
		entry = e.entry
	}
	ev := &Eval{e: e, st: st, old: entry, vars: map[string]*Val{}, g: True()}
	ev.lookup = func(n string, s *State) *Val {
		if n == "ghost_i" || strings.HasPrefix(n, "ghost_i") && len(n) == 8 {
			// iterations completed
			ll, rr := l, run
			if len(n) == 8 {
				// enclosing loop: ghost_i1 is the parent
				for k := int(n[7] - '0'); k > 0; k-- {
					ll = ll.parent
					if ll == nil {
						return nil
					}
				}
				rr = f.loopStates[ll]
			}
			if ll == l {
				return e.iterCount(f, ll, rr, ph, s, st)
			}
			return e.iterCount(f, ll, rr, nil, s, st)
		}
		return e.nameAt(f, l, n, ph, s)
	}
	if run.iterID != "" {
		it := e.iters(f, run.iterID)
		if it != nil {
			c := st.heap["I:"+run.iterID]
			ev.visit = func(k *Term) *Term {
				return And(Select(it.dom, k), Lt(App("epos!"+it.id, SInt, k), c))
			}
		}
	}
	return ev
}

// iterCount: number of completed iterations of the loop at its header
func (e *Exec) iterCount(f *Frame, l *loopT, run *loopRun, ph map[ssa.Value]*Val, s, st *State) *Val {
	it := types.Typ[types.Int]
	if run.iterID != "" {
		return scalar(it, st.heap["I:"+run.iterID])
	}
	// counter of a range loop over a slice (starts at -1) or of a for loop
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == "rangeindex" {
			v := e.phiVal(f, p, ph)
			return scalar(it, Add(v.t, Int(1)))
		}
	}
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		// simple counter with step 1: count = value - initial value
		all := true
		for i, ed := range p.Edges {
			if l.blocks[l.header.Preds[i]] {
				if d, ok := incr(ed, p, 0); !ok || d != 1 {
					all = false
				}
			}
		}
		if all && run.pre != nil {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if iv := run.entryPhi[p]; iv != nil {
					return scalar(it, Sub(e.phiVal(f, p, ph).t, iv.t))
				}
			}
		}
	}
	return nil
}

func (e *Exec) phiVal(f *Frame, p *ssa.Phi, ph map[ssa.Value]*Val) *Val {
	if ph != nil {
		if v, ok := ph[p]; ok {
			return v
		}
	}
	return f.env[p]
}

// nameAt resolves a source-level variable at the header of loop l.
func (e *Exec) nameAt(f *Frame, l *loopT, n string, ph map[ssa.Value]*Val, st *State) *Val {
	// phi of this header
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == n {
			return e.phiVal(f, p, ph)
		}
	}
	// a variable living in memory
	if vs := f.names["&"+n]; len(vs) > 0 {
		for i := len(vs) - 1; i >= 0; i-- {
			if v, ok := f.env[vs[i]]; ok && domInstr(vs[i], l.header) {
				el := vs[i].Type().Underlying().(*types.Pointer).Elem()
				if isStruct(el) {
					return v // value of struct variable: used as pointer
				}
				return e.loadPtr(e.ptrOf(v, vs[i].Type()), st)
			}
		}
	}
	if vs := f.names[n]; len(vs) > 0 {
		for i := len(vs) - 1; i >= 0; i-- {
			if v, ok := f.env[vs[i]]; ok && domInstr(vs[i], l.header) {
				return v
			}
		}
	}
	for i, p := range fnParamNames(f.fn) {
		if p == n && i < len(f.params) {
			return f.params[i]
		}
	}
	for _, fv := range f.fn.FreeVars {
		if fv.Name() == n {
			v := f.env[fv]
			if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
				return e.loadPtr(e.ptrOf(v, fv.Type()), st)
			}
			return v
		}
	}
	// phis of enclosing headers
	for p := l.parent; p != nil; p = p.parent {
		for _, ins := range p.header.Instrs {
			ph2, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if ph2.Comment == n {
				return f.env[ph2]
			}
		}
	}
	return nil
}

func domInstr(v ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	return in.Block().Dominates(b) && in.Block() != b
}

// loopNames: the selectors that denote loop l
func (e *Exec) loopKinds(f *Frame, l *loopT) []string {
	kind := func(l *loopT) string {
		for _, ins := range l.header.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				if r, ok := nx.Iter.(*ssa.Range); ok {
					return srcName(r.X)
				}
			}
		}
		if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				if c, ok := bo.Y.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						return srcName(c.Call.Args[0])
					}
				}
			}
		}
		return ""
	}
	var names func(l *loopT) []string
	names = func(l *loopT) []string {
		out := []string{fmt.Sprintf("#%d", l.ord)}
		if k := kind(l); k != "" {
			out = append(out, k)
		}
		if l.parent != nil {
			for i, k := range l.parent.kids {
				if k == l {
					for _, pn := range names(l.parent) {
						out = append(out, fmt.Sprintf("%s/%d", pn, i+1))
					}
				}
			}
		}
		return out
	}
	return append(names(l), "*")
}

func srcName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return st.Field(fa.Field).Name()
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Name()
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			return a.Comment
		}
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Call:
		if fn, ok := x.Call.Value.(*ssa.Function); ok {
			return fn.Name() + "()"
		}
	case *ssa.Lookup:
		return srcName(x.X) + "[]"
	case *ssa.Extract:
		return ""
	}
	return ""
}

func (lc *LoopSpec) matches(l *loopT, names []string) bool {
	for _, s := range strings.Split(lc.sel, ",") {
		s = strings.TrimSpace(s)
		for _, n := range names {
			if n == s {
				return true
			}
		}
	}
	return false
}
