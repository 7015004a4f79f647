package main

import (
	"sort"
	"strconv"
	"strings"
)

// axioms returns the background facts needed for the functions and symbols that occur.
func (eng *Engine) axioms(e *Exec, funs map[string]bool, syms map[string]Sort, done map[string]bool) []*Term {
	var out []*Term
	once := func(k string, f func() []*Term) {
		if !done[k] {
			done[k] = true
			out = append(out, f()...)
		}
	}
	var fs []string
	for f := range funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		f := f
		switch {
		case strings.HasPrefix(f, "box_"):
			once(f, func() []*Term {
				k := f[4:]
				t := boxTypes[k]
				lv := leavesOf(t)
				var bv []*Term
				for i, l := range lv {
					bv = append(bv, BV("bx"+strconv.Itoa(i)+l.sort, l.sort))
				}
				b := P.mk(&Term{op: "app", name: f, args: bv, sort: SIfc})
				r := []*Term{Forall(bv, Eq(P.mk(&Term{op: "app", name: dynName(), args: []*Term{b}, sort: SInt}), Int(typeCodes[k])), []*Term{b})}
				if len(lv) == 1 {
					DeclFun("unbox_"+k, []Sort{SIfc}, lv[0].sort)
					u := P.mk(&Term{op: "app", name: "unbox_" + k, args: []*Term{b}, sort: lv[0].sort})
					r = append(r, Forall(bv, Eq(u, bv[0]), []*Term{b}))
				}
				return r
			})
		case strings.HasPrefix(f, "unbox_"):
			once(f, func() []*Term {
				k := f[6:]
				t := boxTypes[k]
				lv := leavesOf(t)
				x := BV("ifx", SIfc)
				u := App("unbox_"+k, lv[0].sort, x)
				return []*Term{Forall([]*Term{x}, Imp(Eq(App(dynName(), SInt, x), Int(typeCodes[k])), Eq(App("box_"+k, SIfc, u), x)), []*Term{u})}
			})
		case f == "strlen":
			once(f, func() []*Term {
				x := BV("sx", SStr)
				return []*Term{Forall([]*Term{x}, And(Le(Int(0), App("strlen", SInt, x)), Imp(Eq(App("strlen", SInt, x), Int(0)), Eq(x, strConst("")))), []*Term{App("strlen", SInt, x)}),
					Eq(App("strlen", SInt, strConst("")), Int(0))}
			})
		case f == "dyn":
			once(f, func() []*Term { return []*Term{Eq(App("dyn", SInt, IfcNil()), Int(0))} })
		case f == "flt" || f == "fle" || f == "feq":
			once("fcmp", func() []*Term {
				DeclFun("flt", []Sort{SF64, SF64}, SBool)
				x, y := BV("fx", SF64), BV("fy", SF64)
				lt := func(a, b *Term) *Term { return App("flt", SBool, a, b) }
				le := func(a, b *Term) *Term { return App("fle", SBool, a, b) }
				eq := func(a, b *Term) *Term { return App("feq", SBool, a, b) }
				return []*Term{
					Forall([]*Term{x, y}, And(Eq(le(x, y), Or(lt(x, y), eq(x, y)))), []*Term{le(x, y)}),
					Forall([]*Term{x, y}, Imp(lt(x, y), And(Not(lt(y, x)), Not(eq(x, y)), eq(x, x), eq(y, y))), []*Term{lt(x, y)}),
					Forall([]*Term{x, y}, Imp(eq(x, y), And(eq(y, x), eq(x, x), eq(y, y))), []*Term{eq(x, y)}),
				}
			})
		}
	}
	for _, cl := range eng.specs.axioms {
		cl := cl
		key := "axiom:" + cl.id()
		if done[key] {
			continue
		}
		// included when one of its functions occurs
		t := eng.axiomTerm(e, cl)
		hit := false
		collect(t, map[int]bool{}, func(x *Term) {
			if x.op == "app" && funs[x.name] && x.name != "strlen" && x.name != "dyn" && !strings.HasPrefix(x.name, "box_") && !strings.HasPrefix(x.name, "unbox_") {
				switch x.name {
				case "sref", "slen", "soff", "scap", "mkslc":
				default:
					hit = true
				}
			}
		})
		if hit {
			done[key] = true
			out = append(out, t)
		}
	}
	return out
}

func dynName() string { DeclFun("dyn", []Sort{SIfc}, SInt); return "dyn" }

func (eng *Engine) axiomTerm(e *Exec, cl *Clause) *Term {
	ev := &Eval{e: e, st: e.entry, old: e.entry, vars: map[string]*Val{}, g: True()}
	return ev.boolTerm(cl.expr)
}
