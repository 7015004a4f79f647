package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts
type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SF64  Sort = "F64"
	SF32  Sort = "F32"
	SStr  Sort = "Str"
	SIfc  Sort = "Ifc"
	SSlc  Sort = "Slc"
)

func arr(a, b Sort) Sort { return "(Array " + a + " " + b + ")" }

func splitSort(s string) []string {
	// s = "(Array A B)"
	in := s[7 : len(s)-1]
	depth := 0
	for i, c := range in {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			return []string{in[:i], in[i+1:]}
		}
	}
	panic("bad array sort " + s)
}

// ---------------------------------------------------------------- terms
// Term is a hash-consed SMT term. Integer terms are kept in polynomial normal
// form (op "poly").
type Term struct {
	op   string // sym, int, true, false, and, or, not, =>, =, ite, ge0, select, store, app, forall, exists, poly, bv, constarr
	name string
	args []*Term
	sort Sort
	i    int64   // int literal
	p    *poly   // op poly
	bvs  []*Term // bound variables of quantifiers
	pats [][]*Term
	id   int
	fv   map[int]bool // free bound variables (ids)
}

type mono struct {
	coef int64
	f    []*Term // sorted factors by id
}
type poly struct {
	c  int64
	ms []mono
}

type TermPool struct {
	tab map[string]*Term
	n   int
	// declared symbols / functions
	syms map[string]Sort
	funs map[string]funDecl
	defs map[int]*Term // symbol id -> defining term
}
type funDecl struct {
	args []Sort
	ret  Sort
}

var P *TermPool

func newPool() *TermPool {
	return &TermPool{tab: map[string]*Term{}, syms: map[string]Sort{}, funs: map[string]funDecl{}, defs: map[int]*Term{}}
}

func (p *TermPool) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.i, 10))
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.p != nil {
		fmt.Fprintf(&sb, "#%d", t.p.c)
		for _, m := range t.p.ms {
			fmt.Fprintf(&sb, ";%d", m.coef)
			for _, f := range m.f {
				fmt.Fprintf(&sb, "*%d", f.id)
			}
		}
	}
	for _, b := range t.bvs {
		fmt.Fprintf(&sb, "!%d", b.id)
	}
	for _, pt := range t.pats {
		sb.WriteByte('{')
		for _, x := range pt {
			fmt.Fprintf(&sb, "%d ", x.id)
		}
	}
	k := sb.String()
	if o, ok := p.tab[k]; ok {
		return o
	}
	p.n++
	t.id = p.n
	t.fv = map[int]bool{}
	if t.op == "bv" {
		t.fv[t.id] = true
	}
	for _, a := range t.args {
		for v := range a.fv {
			t.fv[v] = true
		}
	}
	if t.p != nil {
		for _, m := range t.p.ms {
			for _, f := range m.f {
				for v := range f.fv {
					t.fv[v] = true
				}
			}
		}
	}
	for _, b := range t.bvs {
		delete(t.fv, b.id)
	}
	p.tab[k] = t
	return t
}

var symRepl = strings.NewReplacer("|", "!", "\\", "!")

func Sym(name string, s Sort) *Term {
	name = symRepl.Replace(name)
	if o, ok := P.syms[name]; ok && o != s {
		panic("symbol redeclared " + name + " " + o + " " + s)
	}
	P.syms[name] = s
	return P.mk(&Term{op: "sym", name: name, sort: s})
}
func BV(name string, s Sort) *Term { return P.mk(&Term{op: "bv", name: name, sort: s}) }
func Int(i int64) *Term            { return mkPoly(&poly{c: i}) }

var bvCounter int

func freshBV(name string, s Sort) *Term {
	bvCounter++
	return BV(fmt.Sprintf("%s?%d", name, bvCounter), s)
}

func True() *Term  { return P.mk(&Term{op: "true", sort: SBool}) }
func False() *Term { return P.mk(&Term{op: "false", sort: SBool}) }
func Bool(b bool) *Term {
	if b {
		return True()
	}
	return False()
}

func DeclFun(name string, args []Sort, ret Sort) {
	if o, ok := P.funs[name]; ok {
		if o.ret != ret || len(o.args) != len(args) {
			panic("function redeclared " + name)
		}
		return
	}
	P.funs[name] = funDecl{args, ret}
}

func App(name string, ret Sort, args ...*Term) *Term {
	// slice selectors simplification
	if len(args) == 1 {
		a := args[0]
		switch name {
		case "sref", "soff", "slen", "scap":
			ix := map[string]int{"sref": 0, "soff": 1, "slen": 2, "scap": 3}[name]
			if a.op == "app" && a.name == "mkslc" {
				return a.args[ix]
			}
			if a.op == "ite" {
				return Ite(a.args[0], App(name, ret, a.args[1]), App(name, ret, a.args[2]))
			}
		}
		if strings.HasPrefix(name, "unbox_") && a.op == "app" && a.name == "box_"+name[6:] {
			return a.args[0]
		}
		if strings.HasPrefix(name, "is_") && a.op == "app" && strings.HasPrefix(a.name, "box_") {
			return Bool(a.name == "box_"+name[3:])
		}
		if strings.HasPrefix(name, "is_") && a == IfcNil() {
			return False()
		}
	}
	as := make([]Sort, len(args))
	for i, a := range args {
		as[i] = a.sort
	}
	if name != "mkslc" && name != "sref" && name != "soff" && name != "slen" && name != "scap" {
		DeclFun(name, as, ret)
	}
	return P.mk(&Term{op: "app", name: name, args: args, sort: ret})
}

func IfcNil() *Term { return Sym("ifc_nil", SIfc) }

func MkSlc(ref, off, ln, cp *Term) *Term { return App("mkslc", SSlc, ref, off, ln, cp) }
func NilSlc() *Term                      { return MkSlc(Int(0), Int(0), Int(0), Int(0)) }
func SRef(s *Term) *Term                 { return App("sref", SInt, s) }
func SOff(s *Term) *Term                 { return App("soff", SInt, s) }
func SLen(s *Term) *Term                 { return App("slen", SInt, s) }
func SCap(s *Term) *Term                 { return App("scap", SInt, s) }

// ---------------------------------------------------------------- polynomials
func asPoly(t *Term) *poly {
	if t.op == "poly" {
		return t.p
	}
	return &poly{ms: []mono{{1, []*Term{t}}}}
}

func monoKey(f []*Term) string {
	s := ""
	for _, x := range f {
		s += strconv.Itoa(x.id) + "*"
	}
	return s
}

func normPoly(c int64, ms []mono) *poly {
	acc := map[string]*mono{}
	var keys []string
	for _, m := range ms {
		k := monoKey(m.f)
		if o, ok := acc[k]; ok {
			o.coef += m.coef
		} else {
			mm := m
			acc[k] = &mm
			keys = append(keys, k)
		}
	}
	res := &poly{c: c}
	for _, k := range keys {
		if acc[k].coef != 0 {
			res.ms = append(res.ms, *acc[k])
		}
	}
	sort.Slice(res.ms, func(i, j int) bool {
		a, b := res.ms[i].f, res.ms[j].f
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k].id != b[k].id {
				return a[k].id < b[k].id
			}
		}
		return len(a) < len(b)
	})
	return res
}

func mkPoly(p *poly) *Term {
	if p.c == 0 && len(p.ms) == 1 && p.ms[0].coef == 1 && len(p.ms[0].f) == 1 {
		return p.ms[0].f[0]
	}
	return P.mk(&Term{op: "poly", sort: SInt, p: p})
}

func Add(ts ...*Term) *Term {
	var c int64
	var ms []mono
	for _, t := range ts {
		p := asPoly(t)
		c += p.c
		ms = append(ms, p.ms...)
	}
	return mkPoly(normPoly(c, ms))
}
func scale(t *Term, k int64) *Term {
	p := asPoly(t)
	var ms []mono
	for _, m := range p.ms {
		ms = append(ms, mono{m.coef * k, m.f})
	}
	return mkPoly(normPoly(p.c*k, ms))
}
func Sub(a, b *Term) *Term { return Add(a, scale(b, -1)) }
func Neg(a *Term) *Term    { return scale(a, -1) }
func Mul(a, b *Term) *Term {
	pa, pb := asPoly(a), asPoly(b)
	var ms []mono
	for _, x := range pa.ms {
		ms = append(ms, mono{x.coef * pb.c, x.f})
		for _, y := range pb.ms {
			f := append(append([]*Term{}, x.f...), y.f...)
			sort.Slice(f, func(i, j int) bool { return f[i].id < f[j].id })
			ms = append(ms, mono{x.coef * y.coef, f})
		}
	}
	for _, y := range pb.ms {
		ms = append(ms, mono{y.coef * pa.c, y.f})
	}
	return mkPoly(normPoly(pa.c*pb.c, ms))
}
func constOf(t *Term) (int64, bool) {
	if t.op == "poly" && len(t.p.ms) == 0 {
		return t.p.c, true
	}
	return 0, false
}

// Ge0 builds t >= 0
func Ge0(t *Term) *Term {
	if c, ok := constOf(t); ok {
		return Bool(c >= 0)
	}
	return P.mk(&Term{op: "ge0", sort: SBool, args: []*Term{t}})
}
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(Sub(Sub(b, a), Int(1))) }

// ---------------------------------------------------------------- booleans
func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False()
	case "false":
		return True()
	case "not":
		return a.args[0]
	case "ge0":
		return Ge0(Sub(Int(-1), a.args[0]))
	}
	return P.mk(&Term{op: "not", sort: SBool, args: []*Term{a}})
}
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t.op == "true" {
			continue
		}
		if t.op == "false" {
			return False()
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return True()
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, t := range out {
		if seen[Not(t).id] {
			return False()
		}
	}
	return P.mk(&Term{op: "and", sort: SBool, args: out})
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t.op == "false" {
			continue
		}
		if t.op == "true" {
			return True()
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return False()
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, t := range out {
		if seen[Not(t).id] {
			return True()
		}
	}
	// factor common conjuncts: (a&c)|(a&!c) -> a
	if len(out) == 2 {
		ca, cb := conj(out[0]), conj(out[1])
		var common []*Term
		inB := map[int]bool{}
		for _, x := range cb {
			inB[x.id] = true
		}
		var ra, rb []*Term
		inC := map[int]bool{}
		for _, x := range ca {
			if inB[x.id] {
				common = append(common, x)
				inC[x.id] = true
			} else {
				ra = append(ra, x)
			}
		}
		for _, x := range cb {
			if !inC[x.id] {
				rb = append(rb, x)
			}
		}
		if len(common) > 0 {
			return And(append(common, Or(And(ra...), And(rb...)))...)
		}
	}
	return P.mk(&Term{op: "or", sort: SBool, args: out})
}
func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}
func Imp(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" {
		return True()
	}
	if b.op == "false" {
		return Not(a)
	}
	if a == b {
		return True()
	}
	return P.mk(&Term{op: "=>", sort: SBool, args: []*Term{a, b}})
}
func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.sort, b.sort, Show(a), Show(b)))
	}
	if a.sort == SInt {
		if c, ok := constOf(Sub(a, b)); ok {
			return Bool(c == 0)
		}
	}
	if a.sort == SBool {
		if a.op == "true" {
			return b
		}
		if b.op == "true" {
			return a
		}
		if a.op == "false" {
			return Not(b)
		}
		if b.op == "false" {
			return Not(a)
		}
	}
	if a.sort == SStr && a.op == "sym" && b.op == "sym" && strings.HasPrefix(a.name, "str$") && strings.HasPrefix(b.name, "str$") {
		return False()
	}
	if a.sort == SSlc && a.op == "app" && b.op == "app" && a.name == "mkslc" && b.name == "mkslc" {
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]), Eq(a.args[3], b.args[3]))
	}
	if a.sort == SIfc {
		bx := func(x *Term) bool { return x.op == "app" && strings.HasPrefix(x.name, "box_") }
		if bx(a) && bx(b) {
			if a.name == b.name {
				return Eq(a.args[0], b.args[0])
			}
			return False()
		}
		if bx(a) && b == IfcNil() || bx(b) && a == IfcNil() {
			return False()
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return P.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }
func Ite(c, a, b *Term) *Term {
	if c.op == "true" {
		return a
	}
	if c.op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.op == "true" && b.op == "false" {
			return c
		}
		if a.op == "false" && b.op == "true" {
			return Not(c)
		}
		if a.op == "true" {
			return Or(c, b)
		}
		if a.op == "false" {
			return And(Not(c), b)
		}
		if b.op == "true" {
			return Or(Not(c), a)
		}
		if b.op == "false" {
			return And(c, a)
		}
	}
	t := P.mk(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
	if strings.HasPrefix(a.sort, "(Array") && len(t.fv) == 0 {
		return Named("it", t)
	}
	return t
}

// ---------------------------------------------------------------- arrays
func distinctSyn(a, b *Term) bool {
	if a.sort == SInt {
		if c, ok := constOf(Sub(a, b)); ok && c != 0 {
			return true
		}
	}
	if a.sort == SStr && a.op == "sym" && b.op == "sym" && a != b && strings.HasPrefix(a.name, "str$") && strings.HasPrefix(b.name, "str$") {
		return true
	}
	return false
}
func Select(a, i *Term) *Term {
	for {
		d := a
		if a.op == "sym" {
			if x, ok := P.defs[a.id]; ok && x.op == "store" {
				d = x
			}
		}
		if d.op != "store" {
			break
		}
		if d.args[1] == i {
			return d.args[2]
		}
		if distinctSyn(d.args[1], i) {
			a = d.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "sym" && (strings.HasPrefix(a.name, "zrow$") || strings.HasPrefix(a.name, "zdom$")) {
		return zeroTerm(splitSort(a.sort)[1])
	}
	ss := splitSort(a.sort)
	if i.sort != ss[0] {
		panic(fmt.Sprintf("select index sort %s for %s", i.sort, a.sort))
	}
	return P.mk(&Term{op: "select", sort: ss[1], args: []*Term{a, i}})
}
func Store(a, i, v *Term) *Term {
	ss := splitSort(a.sort)
	if i.sort != ss[0] || v.sort != ss[1] {
		panic(fmt.Sprintf("store sorts %s [%s] = %s", a.sort, i.sort, v.sort))
	}
	if d, ok := P.defs[a.id]; ok && d.op == "store" && d.args[1] == i {
		a = d.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if Select(a, i) == v {
		return a
	}
	t := P.mk(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
	for v := range t.fv {
		_ = v
		return t // inside a quantifier: cannot be named
	}
	return Named("st", t)
}

// Named introduces a symbol defined to be equal to t (array-valued terms only).
func Named(prefix string, t *Term) *Term {
	s := Sym(fmt.Sprintf("%s$%d", prefix, t.id), t.sort)
	P.defs[s.id] = t
	return s
}

// ---------------------------------------------------------------- quantifiers
func Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body.op == "true" || body.op == "false" {
		return body
	}
	used := []*Term{}
	for _, b := range bvs {
		if body.fv[b.id] {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	return P.mk(&Term{op: "forall", sort: SBool, bvs: used, args: []*Term{body}, pats: pats})
}
func Exists(bvs []*Term, body *Term) *Term {
	return Not(Forall(bvs, Not(body)))
}

// Subst replaces bound variables / symbols (by id) in t.
func Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	return substRec(t, m, memo)
}
func substRec(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case "sym", "bv", "true", "false":
		r = t
	case "poly":
		acc := Int(t.p.c)
		for _, mo := range t.p.ms {
			x := Int(mo.coef)
			for _, f := range mo.f {
				x = Mul(x, substRec(f, m, memo))
			}
			acc = Add(acc, x)
		}
		r = acc
	case "forall":
		var np [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, substRec(x, m, memo))
			}
			np = append(np, q)
		}
		r = Forall(t.bvs, substRec(t.args[0], m, memo), np...)
	default:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = substRec(a, m, memo)
			if as[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, as)
		}
	}
	memo[t.id] = r
	return r
}
func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		return Imp(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "ge0":
		return Ge0(as[0])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "app":
		return App(t.name, t.sort, as...)
	case "constarr":
		return P.mk(&Term{op: "constarr", sort: t.sort, args: as})
	}
	panic("rebuild " + t.op)
}

// ---------------------------------------------------------------- printing
func Show(t *Term) string {
	var pr printer
	return pr.str(t)
}

type printer struct {
	named map[int]string
}

func q(n string) string { return "|" + n + "|" }

func (p *printer) str(t *Term) string {
	if p.named != nil {
		if n, ok := p.named[t.id]; ok {
			return n
		}
	}
	return p.def(t)
}
func intStr(i int64) string {
	if i < 0 {
		return "(- " + strconv.FormatInt(-i, 10) + ")"
	}
	return strconv.FormatInt(i, 10)
}
func (p *printer) def(t *Term) string {
	switch t.op {
	case "sym", "bv":
		return q(t.name)
	case "true", "false":
		return t.op
	case "poly":
		var parts []string
		for _, m := range t.p.ms {
			var fs []string
			for _, f := range m.f {
				fs = append(fs, p.str(f))
			}
			s := fs[0]
			if len(fs) > 1 {
				s = "(* " + strings.Join(fs, " ") + ")"
			}
			if m.coef == -1 {
				s = "(- " + s + ")"
			} else if m.coef != 1 {
				s = "(* " + intStr(m.coef) + " " + s + ")"
			}
			parts = append(parts, s)
		}
		if t.p.c != 0 || len(parts) == 0 {
			parts = append(parts, intStr(t.p.c))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case "ge0":
		// print as comparison of positive and negative parts
		po := asPoly(t.args[0])
		l, r := &poly{}, &poly{}
		for _, m := range po.ms {
			if m.coef > 0 {
				l.ms = append(l.ms, m)
			} else {
				r.ms = append(r.ms, mono{-m.coef, m.f})
			}
		}
		if po.c > 0 {
			l.c = po.c
		} else {
			r.c = -po.c
		}
		return "(>= " + p.str(mkPoly(l)) + " " + p.str(mkPoly(r)) + ")"
	case "forall":
		var sb strings.Builder
		sb.WriteString("(forall (")
		for _, b := range t.bvs {
			sb.WriteString("(" + q(b.name) + " " + b.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.str(t.args[0]))
		for _, pt := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(p.str(x))
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	case "app":
		if len(t.args) == 0 {
			return q(t.name)
		}
		var sb strings.Builder
		n := t.name
		switch n {
		case "mkslc", "sref", "soff", "slen", "scap":
		default:
			n = q(n)
		}
		sb.WriteString("(" + n)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(p.str(a))
		}
		sb.WriteByte(')')
		return sb.String()
	case "constarr":
		return "((as const " + t.sort + ") " + p.str(t.args[0]) + ")"
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// collect visits all subterms once
func collect(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	for _, a := range t.args {
		collect(a, seen, f)
	}
	if t.p != nil {
		for _, m := range t.p.ms {
			for _, x := range m.f {
				collect(x, seen, f)
			}
		}
	}
	for _, pt := range t.pats {
		for _, x := range pt {
			collect(x, seen, f)
		}
	}
	f(t)
}

// ---------------------------------------------------------------- pattern expansion
// expandPos rewrites a formula that is about to be ASSERTED: every universally
// quantified subformula in positive position gets explicit triggers. Integer
// quantifiers are re-anchored on absolute positions of the rows they index,
// once per distinct anchor (each version is equivalent to the original).
func expandPos(t *Term) *Term { return expPol(t, true, map[[2]int]*Term{}) }

func expPol(t *Term, pos bool, memo map[[2]int]*Term) *Term {
	k := [2]int{t.id, 0}
	if pos {
		k[1] = 1
	}
	if r, ok := memo[k]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = expPol(a, pos, memo)
		}
		if t.op == "and" {
			r = And(as...)
		} else {
			r = Or(as...)
		}
	case "not":
		r = Not(expPol(t.args[0], !pos, memo))
	case "=>":
		r = Imp(expPol(t.args[0], !pos, memo), expPol(t.args[1], pos, memo))
	case "=":
		if t.args[0].sort == SBool && (hasQ(t.args[0]) || hasQ(t.args[1])) {
			a, b := t.args[0], t.args[1]
			r = And(Imp(expPol(a, !pos, memo), expPol(b, pos, memo)), Imp(expPol(b, !pos, memo), expPol(a, pos, memo)))
		} else {
			r = t
		}
	case "ite":
		if hasQ(t) {
			c, a, b := t.args[0], t.args[1], t.args[2]
			r = And(Imp(c, expPol(a, pos, memo)), Imp(Not(c), expPol(b, pos, memo)))
		} else {
			r = t
		}
	case "forall":
		if len(t.pats) > 0 || !pos {
			if !pos {
				r = Forall(t.bvs, expPol(t.args[0], pos, memo))
			} else {
				r = Forall(t.bvs, expPol(t.args[0], pos, memo), t.pats...)
			}
		} else {
			r = anchor(t, memo)
		}
	default:
		r = t
	}
	memo[k] = r
	return r
}

func hasQ(t *Term) bool {
	if t.op == "forall" {
		return true
	}
	if t.sort != SBool {
		return false
	}
	for _, a := range t.args {
		if hasQ(a) {
			return true
		}
	}
	return false
}

// anchor chooses triggers for forall without explicit ones.
func anchor(t *Term, memo map[[2]int]*Term) *Term {
	// merge directly nested foralls: forall x. (A => forall y. B) is left nested
	if len(t.bvs) > 1 {
		return multiAnchor(t, memo)
	}
	b := t.bvs[0]
	body := t.args[0]
	type anc struct{ row, off *Term }
	var ancs []anc
	seenA := map[[2]int]bool{}
	var direct []*Term
	seenD := map[int]bool{}
	collect(body, map[int]bool{}, func(x *Term) {
		if !x.fv[b.id] {
			return
		}
		if x.op == "select" && x.args[0].fv[b.id] == false {
			ix := x.args[1]
			if ix == b {
				if okPat(x, b, t) && !seenD[x.id] {
					seenD[x.id] = true
					direct = append(direct, x)
				}
			} else if ix.op == "poly" {
				// off + b
				var rest []mono
				ok := false
				for _, m := range ix.p.ms {
					if len(m.f) == 1 && m.f[0] == b && m.coef == 1 {
						ok = true
					} else {
						for _, f := range m.f {
							if f.fv[b.id] {
								ok = false
								rest = nil
								goto next
							}
						}
						rest = append(rest, m)
					}
				}
			next:
				if ok {
					off := mkPoly(normPoly(ix.p.c, rest))
					kk := [2]int{x.args[0].id, off.id}
					if !seenA[kk] && okPat(x, b, t) {
						seenA[kk] = true
						ancs = append(ancs, anc{x.args[0], off})
					}
				}
			}
		} else if x.op == "app" && !strings.HasPrefix(x.name, "slen") {
			isDirect := false
			for _, a := range x.args {
				if a == b {
					isDirect = true
				} else if a.fv[b.id] {
					isDirect = false
					break
				}
			}
			if isDirect && okPat(x, b, t) && !seenD[x.id] && x.name != "mkslc" {
				seenD[x.id] = true
				direct = append(direct, x)
			}
		}
	})
	var out []*Term
	nb := expPol(body, true, memo)
	if len(direct) > 0 {
		var pats [][]*Term
		for _, d := range direct {
			pats = append(pats, []*Term{d})
		}
		out = append(out, Forall([]*Term{b}, nb, pats...))
	}
	for _, a := range ancs {
		p := freshBVDet(b.name+"@", a.row, a.off)
		m := map[int]*Term{b.id: Sub(p, a.off)}
		nbody := Subst(body, m)
		nbody = expPol(nbody, true, memo)
		out = append(out, Forall([]*Term{p}, nbody, []*Term{Select(a.row, p)}))
	}
	if len(out) == 0 {
		return Forall([]*Term{b}, nb)
	}
	return And(out...)
}

func freshBVDet(n string, a, b *Term) *Term {
	return BV(fmt.Sprintf("%s%d_%d", n, a.id, b.id), SInt)
}

// okPat: pattern terms must not contain logical connectives or variables bound inside t
func okPat(x, b *Term, t *Term) bool {
	ok := true
	collect(x, map[int]bool{}, func(y *Term) {
		switch y.op {
		case "and", "or", "not", "=>", "=", "ge0", "forall", "true", "false":
			ok = false
		case "ite":
			ok = false
		}
	})
	if !ok {
		return false
	}
	// variables bound by inner quantifiers are not allowed: inner ones are those
	// free in x, not free in t, and different from b
	for v := range x.fv {
		if v != b.id && !t.fv[v] {
			return false
		}
	}
	return true
}

func multiAnchor(t *Term, memo map[[2]int]*Term) *Term {
	// curry: forall x. forall y. body, leave triggers to inner ones where both occur
	// choose pattern sets greedily: for every variable one select/app term
	body := t.args[0]
	best := map[int]*Term{}
	collect(body, map[int]bool{}, func(x *Term) {
		if x.op != "select" && x.op != "app" {
			return
		}
		for _, b := range t.bvs {
			direct := false
			for _, a := range x.args {
				if a == b {
					direct = true
				}
			}
			if direct && best[b.id] == nil {
				ok := true
				for v := range x.fv {
					isOwn := false
					for _, bb := range t.bvs {
						if bb.id == v {
							isOwn = true
						}
					}
					if !isOwn && !t.fv[v] {
						ok = false
					}
				}
				if ok && okPat(x, b, t) || ok && okPatAny(x) {
					best[b.id] = x
				}
			}
		}
	})
	nb := expPol(body, true, memo)
	var pat []*Term
	seen := map[int]bool{}
	for _, b := range t.bvs {
		if best[b.id] == nil {
			return Forall(t.bvs, nb)
		}
		if !seen[best[b.id].id] {
			seen[best[b.id].id] = true
			pat = append(pat, best[b.id])
		}
	}
	return Forall(t.bvs, nb, pat)
}
func okPatAny(x *Term) bool {
	ok := true
	collect(x, map[int]bool{}, func(y *Term) {
		switch y.op {
		case "and", "or", "not", "=>", "=", "ge0", "forall", "true", "false", "ite":
			ok = false
		}
	})
	return ok
}
