package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func gdiv(a, b *Term) *Term {
	if x, ok := constOf(a); ok {
		if y, ok := constOf(b); ok && y != 0 {
			return Int(x / y)
		}
	}
	if y, ok := constOf(b); ok && y == 1 {
		return a
	}
	return App("gdiv", SInt, a, b)
}
func gmod(a, b *Term) *Term { return Sub(a, Mul(b, gdiv(a, b))) }

func isFloatSort(s Sort) bool { return s == SF64 || s == SF32 }

func arith(op token.Token, a, b *Term, t types.Type) *Term {
	switch a.sort {
	case SInt:
		switch op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			return gdiv(a, b)
		case token.REM:
			return gmod(a, b)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			return App("bit"+bitName(op), SInt, a, b)
		}
	case SF64, SF32:
		n := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[op]
		if n != "" {
			if a.sort == SF32 {
				n += "32"
			}
			return App(n, a.sort, a, b)
		}
	case SStr:
		if op == token.ADD {
			return App("strcat", SStr, a, b)
		}
	}
	panic(unsupported(fmt.Sprintf("operator %s on %s", op, a.sort)))
}
func bitName(op token.Token) string {
	return map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
}

func f32s(s Sort, n string) string {
	if s == SF32 {
		return n + "32"
	}
	return n
}

func cmp(op token.Token, a, b *Term) *Term {
	switch op {
	case token.LSS:
		switch a.sort {
		case SInt:
			return Lt(a, b)
		case SF64, SF32:
			return App(f32s(a.sort, "flt"), SBool, a, b)
		case SStr:
			return App("strlt", SBool, a, b)
		}
	case token.LEQ:
		switch a.sort {
		case SInt:
			return Le(a, b)
		case SF64, SF32:
			return App(f32s(a.sort, "fle"), SBool, a, b)
		case SStr:
			return Not(App("strlt", SBool, b, a))
		}
	case token.GTR:
		return cmp(token.LSS, b, a)
	case token.GEQ:
		return cmp(token.LEQ, b, a)
	}
	panic(unsupported(fmt.Sprintf("comparison %s on %s", op, a.sort)))
}

// valEq is Go's == on two values.
func valEq(a, b *Val) *Term {
	if a.fn != nil || b.fn != nil {
		// comparison of a function value with nil
		if a.fn != nil && b.fn != nil {
			panic(unsupported("function comparison"))
		}
		return False()
	}
	if a.ptr != nil || b.ptr != nil {
		panic(unsupported("comparison of interior pointers"))
	}
	la, lb := a.leaves(), b.leaves()
	var cs []*Term
	for i := range la {
		x, y := la[i], lb[i]
		if x.sort == SSlc {
			// only comparison with nil exists in Go; specs compare headers
			if y == NilSlc() {
				cs = append(cs, Eq(SRef(x), Int(0)))
				continue
			}
			if x == NilSlc() {
				cs = append(cs, Eq(SRef(y), Int(0)))
				continue
			}
		}
		if isFloatSort(x.sort) {
			cs = append(cs, App(f32s(x.sort, "feq"), SBool, x, y))
			continue
		}
		cs = append(cs, Eq(x, y))
	}
	return And(cs...)
}

func (e *Exec) binop(x *ssa.BinOp, a, b *Val, g *Term) *Val {
	bt := types.Typ[types.Bool]
	switch x.Op {
	case token.EQL, token.NEQ:
		var t *Term
		// interface against concrete comparison cannot occur in SSA
		t = valEq(a, b)
		if x.Op == token.NEQ {
			t = Not(t)
		}
		return scalar(bt, t)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return scalar(bt, cmp(x.Op, a.t, b.t))
	}
	if x.Op == token.QUO || x.Op == token.REM {
		if a.t.sort == SInt {
			e.check("div", "divisor is not zero", x.Pos(), g, Neq(b.t, Int(0)))
			e.divFacts(g, a.t, b.t)
		}
	}
	if a.t.sort == SBool {
		switch x.Op {
		case token.AND:
			return scalar(bt, And(a.t, b.t))
		case token.OR:
			return scalar(bt, Or(a.t, b.t))
		case token.XOR:
			return scalar(bt, Neq(a.t, b.t))
		}
	}
	r := arith(x.Op, a.t, b.t, x.Type())
	if x.Op == token.SUB || x.Op == token.ADD || x.Op == token.MUL {
		if bb, ok := x.Type().Underlying().(*types.Basic); ok && bb.Info()&types.IsUnsigned != 0 {
			r = App("wrap_"+bb.Name(), SInt, r)
		}
	}
	return scalar(x.Type(), r)
}

// facts about truncated integer division
func (e *Exec) divFacts(g, a, b *Term) {
	q := gdiv(a, b)
	if q.op == "poly" && len(q.p.ms) == 0 {
		return
	}
	k := [2]int{q.id, -1}
	if e.closed[k] {
		return
	}
	e.closed[k] = true
	e.assume(True(), divAxiom(a, b))
}
func divAxiom(a, b *Term) *Term {
	q := gdiv(a, b)
	r := Sub(a, Mul(b, q))
	return And(
		Imp(And(Le(Int(0), a), Lt(Int(0), b)), And(Le(Int(0), q), Le(Int(0), r), Lt(r, b), Le(q, a))),
		Imp(And(Lt(a, Int(0)), Lt(Int(0), b)), And(Le(q, Int(0)), Le(r, Int(0)), Lt(Neg(b), r))),
		Imp(And(Le(Int(0), a), Lt(b, Int(0))), And(Le(q, Int(0)), Le(Int(0), r), Lt(r, Neg(b)))),
		Imp(And(Lt(a, Int(0)), Lt(b, Int(0))), And(Le(Int(0), q), Le(r, Int(0)), Lt(b, r))),
		Imp(Eq(a, b), Imp(Neq(b, Int(0)), Eq(q, Int(1)))),
	)
}

func (e *Exec) unop(f *Frame, x *ssa.UnOp, g *Term, st *State) *Val {
	switch x.Op {
	case token.MUL:
		if gl, ok := x.X.(*ssa.Global); ok {
			return e.globalLoad(gl, st)
		}
		pv := e.val(f, x.X)
		p := e.ptrOf(pv, x.X.Type())
		if _, isF := x.Type().Underlying().(*types.Signature); isF {
			if v, ok := e.eng.cellFns[cellKey(p)]; ok {
				return v
			}
			v := e.load(f, x.X, x.Pos(), g, st)
			return v
		}
		if isArray(x.Type()) {
			panic(unsupported("array value load"))
		}
		return e.load(f, x.X, x.Pos(), g, st)
	case token.SUB:
		v := e.val(f, x.X)
		if v.t.sort == SInt {
			return scalar(x.Type(), Neg(v.t))
		}
		return scalar(x.Type(), App(f32s(v.t.sort, "fneg"), v.t.sort, v.t))
	case token.NOT:
		return scalar(x.Type(), Not(e.val(f, x.X).t))
	case token.ARROW:
		return e.chanRecv(x.X.Type().Underlying().(*types.Chan), e.val(f, x.X).t, x.CommaOk, x.Type(), x.Pos(), g, st)
	case token.XOR:
		return scalar(x.Type(), App("bitnot", SInt, e.val(f, x.X).t))
	}
	panic(unsupported("unary " + x.Op.String()))
}

func (e *Exec) globalLoad(gl *ssa.Global, st *State) *Val {
	t := gl.Type().Underlying().(*types.Pointer).Elem()
	return e.freshValNamed("global!"+gl.String(), t)
}

func (e *Exec) freshValNamed(name string, t types.Type) *Val { return e.freshVal(name, t) }

func (e *Exec) slice(f *Frame, x *ssa.Slice, g *Term, st *State) *Val {
	base := e.val(f, x.X)
	var ref, off, ln, cp *Term
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		a := pt.Elem().Underlying().(*types.Array)
		p := e.ptrOf(base, x.X.Type())
		ref, off, ln, cp = p.base, Int(0), Int(a.Len()), Int(a.Len())
	} else if base.t.sort == SSlc {
		ref, off, ln, cp = SRef(base.t), SOff(base.t), SLen(base.t), SCap(base.t)
	} else if base.t.sort == SStr {
		lo, hi := Int(0), strlen(base.t)
		n := hi
		if x.Low != nil {
			lo = e.val(f, x.Low).t
		}
		if x.High != nil {
			hi = e.val(f, x.High).t
		}
		e.check("bounds", "string slice in range", x.Pos(), g, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
		return scalar(x.Type(), App("substr", SStr, base.t, lo, hi))
	} else {
		panic(unsupported("slice of " + x.X.Type().String()))
	}
	lo, hi := Int(0), ln
	if x.Low != nil {
		lo = e.val(f, x.Low).t
	}
	if x.High != nil {
		hi = e.val(f, x.High).t
	}
	mx := cp
	if x.Max != nil {
		mx = e.val(f, x.Max).t
	}
	e.check("bounds", "slice bounds in range", x.Pos(), g, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)))
	r := MkSlc(ref, Add(off, lo), Sub(hi, lo), Sub(mx, lo))
	if base.t != nil && base.t.sort == SSlc {
		// slicing a nil slice gives a nil slice
		if c, ok := constOf(ref); !ok || c == 0 {
			r = Ite(Eq(ref, Int(0)), NilSlc(), r)
		}
		// a reference obtained from a fresh allocation is never nil
		if ref == SRef(base.t) && base.t.op == "app" && base.t.name == "mkslc" {
			r = MkSlc(ref, Add(off, lo), Sub(hi, lo), Sub(mx, lo))
		}
	}
	return scalar(x.Type(), r)
}

func strlen(s *Term) *Term {
	if s.op == "sym" && len(s.name) >= 4 && s.name[:4] == "str$" {
		return Int(int64(strConsts[s.name]))
	}
	return App("strlen", SInt, s)
}

func (e *Exec) convert(f *Frame, x *ssa.Convert, g *Term, st *State) *Val {
	v := e.val(f, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	if v.t == nil {
		panic(unsupported("conversion of " + x.X.Type().String()))
	}
	fs, ts := v.t.sort, sortOf(x.Type())
	switch {
	case fs == SInt && ts == SInt:
		fb, ok1 := from.(*types.Basic)
		tb, ok2 := to.(*types.Basic)
		if ok1 && ok2 {
			if fb.Kind() == tb.Kind() || tb.Kind() == types.Int || tb.Kind() == types.Int64 {
				if fb.Info()&types.IsUnsigned != 0 && (fb.Kind() == types.Uint64 || fb.Kind() == types.Uint || fb.Kind() == types.Uintptr) {
					return scalar(x.Type(), App("conv_"+fb.Name()+"_"+tb.Name(), SInt, v.t))
				}
				return scalar(x.Type(), v.t)
			}
			return scalar(x.Type(), App("conv_"+tb.Name(), SInt, v.t))
		}
		return scalar(x.Type(), v.t)
	case fs == SInt && isFloatSort(ts):
		if c, ok := constOf(v.t); ok {
			pre := "f64$"
			if ts == SF32 {
				pre = "f32$"
			}
			return scalar(x.Type(), Sym(pre+fmt.Sprint(float64(c)), ts))
		}
		return scalar(x.Type(), App(f32s(ts, "i2f"), ts, v.t))
	case isFloatSort(fs) && ts == SInt:
		return scalar(x.Type(), App(f32s(fs, "f2i"), SInt, v.t))
	case fs == ts && isFloatSort(fs):
		return scalar(x.Type(), v.t)
	case isFloatSort(fs) && isFloatSort(ts):
		return scalar(x.Type(), App("fconv"+ts, ts, v.t))
	case fs == SStr && ts == SStr:
		return scalar(x.Type(), v.t)
	case fs == SInt && ts == SStr:
		return scalar(x.Type(), App("runestr", SStr, v.t))
	case fs == SStr && ts == SSlc:
		// bytes of a string: fresh row
		el := to.(*types.Slice).Elem()
		r := e.allocRow(el, st)
		k := elemHeap(el, nil)
		st.heap[k] = Store(st.get(k), r, App("strbytes", arr(SInt, SInt), v.t))
		return scalar(x.Type(), MkSlc(r, Int(0), strlen(v.t), strlen(v.t)))
	case fs == SSlc && ts == SStr:
		el := from.(*types.Slice).Elem()
		k := regElem(el, Leaf{nil, SInt, el})
		return scalar(x.Type(), App("bytesstr", SStr, Select(st.get(k), SRef(v.t)), SOff(v.t), SLen(v.t)))
	}
	if fs == ts {
		return scalar(x.Type(), v.t)
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", x.X.Type(), x.Type())))
}
