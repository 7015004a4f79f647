package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// Leaf of a Go type: a path of field indices and a scalar sort.
type Leaf struct {
	path []string
	sort Sort
	typ  types.Type
}

var anyRe = regexp.MustCompile(`\bany\b`)

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "any") {
		s = anyRe.ReplaceAllString(s, "interface{}")
	}
	return s
}

// sortOf returns the SMT sort of a scalar Go type ("" when composite).
func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Kind() == types.Float32:
			return SF32
		case u.Info()&types.IsFloat != 0:
			return SF64
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SIfc
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Slice:
		return SSlc
	case *types.Map, *types.Pointer, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SIfc
	case *types.Struct, *types.Tuple, *types.Array:
		return ""
	}
	panic(unsupported("type " + t.String()))
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

// ghost fields, declared in contract files: struct key -> fields
type GhostField struct {
	name string
	typ  types.Type
}

var ghostFields = map[string][]GhostField{}

type sfield struct {
	name string
	typ  types.Type
}

func structFields(t types.Type) []sfield {
	st := t.Underlying().(*types.Struct)
	var out []sfield
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, sfield{st.Field(i).Name(), st.Field(i).Type()})
	}
	if n, ok := t.(*types.Named); ok {
		for _, g := range ghostFields[typeKey(n)] {
			out = append(out, sfield{g.name, g.typ})
		}
	}
	return out
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }

// leavesOf flattens a type. Arrays are one leaf: the reference of their storage.
func leavesOf(t types.Type) []Leaf {
	if isStruct(t) {
		var out []Leaf
		for _, f := range structFields(t) {
			for _, l := range leavesOf(f.typ) {
				out = append(out, Leaf{append([]string{f.name}, l.path...), l.sort, l.typ})
			}
		}
		return out
	}
	if tp, ok := t.Underlying().(*types.Tuple); ok {
		_ = tp
		panic(unsupported("tuple leaves"))
	}
	if isArray(t) {
		return []Leaf{{nil, SInt, t}}
	}
	return []Leaf{{nil, sortOf(t), t}}
}

// fieldHeap returns the heap key for leaf path p of an object of struct type t,
// canonicalising structs embedded at offset 0 (they share the object's address).
func fieldHeap(t types.Type, p []string) string {
	for len(p) > 1 {
		fs := structFields(t)
		if fs[0].name == p[0] && isStruct(fs[0].typ) {
			t = fs[0].typ
			p = p[1:]
			continue
		}
		break
	}
	return "F:" + typeKey(t) + "." + strings.Join(p, ".")
}

func elemHeap(elem types.Type, path []string) string {
	k := "E:" + typeKey(elem)
	if len(path) > 0 {
		k += "." + strings.Join(path, ".")
	}
	return k
}
func cellHeap(t types.Type) string { return "C:" + typeKey(t) }

func mapKey(m *types.Map) string { return typeKey(m.Key()) + ">" + typeKey(m.Elem()) }

// heapSort returns the SMT sort of a heap.
var heapSorts = map[string]Sort{}
var heapLeafType = map[string]types.Type{} // Go type of the stored leaf

func regHeap(key string, s Sort, lt types.Type) string {
	heapSorts[key] = s
	if lt != nil {
		heapLeafType[key] = lt
	}
	return key
}
func regField(t types.Type, p []string, l Leaf) string {
	return regHeap(fieldHeap(t, p), arr(SInt, l.sort), l.typ)
}
func regElem(elem types.Type, l Leaf) string {
	return regHeap(elemHeap(elem, l.path), arr(SInt, arr(SInt, l.sort)), l.typ)
}
func regCell(t types.Type) string {
	return regHeap(cellHeap(t), arr(SInt, sortOf(t)), t)
}
func regMap(m *types.Map) (d, c string, vs []string) {
	k := mapKey(m)
	ks := sortOf(m.Key())
	d = regHeap("MD:"+k, arr(SInt, arr(ks, SBool)), nil)
	c = regHeap("MC:"+k, arr(SInt, SInt), nil)
	for _, l := range leavesOf(m.Elem()) {
		n := "MV:" + k
		if len(l.path) > 0 {
			n += "." + strings.Join(l.path, ".")
		}
		vs = append(vs, regHeap(n, arr(SInt, arr(ks, l.sort)), l.typ))
	}
	return
}

// channel heaps
func regChan(c *types.Chan) (bufs []string, ls []Leaf, head, tail, cp, closed string) {
	k := typeKey(c.Elem())
	for _, l := range leavesOf(c.Elem()) {
		n := "HB:" + k
		if len(l.path) > 0 {
			n += "." + strings.Join(l.path, ".")
		}
		bufs = append(bufs, regHeap(n, arr(SInt, arr(SInt, l.sort)), l.typ))
		ls = append(ls, l)
	}
	head = regHeap("HH:"+k, arr(SInt, SInt), nil)
	tail = regHeap("HT:"+k, arr(SInt, SInt), nil)
	cp = regHeap("HC:"+k, arr(SInt, SInt), nil)
	closed = regHeap("HX:"+k, arr(SInt, SBool), nil)
	return
}

// heaps (leaf set) touched when an object of type t is allocated or wholly assigned
func objectHeaps(t types.Type) []string {
	if isStruct(t) {
		var out []string
		for _, l := range leavesOf(t) {
			out = append(out, regField(t, l.path, l))
			if isArray(l.typ) {
				out = append(out, arrayHeaps(l.typ)...)
			}
		}
		return out
	}
	if isArray(t) {
		return arrayHeaps(t)
	}
	return []string{regCell(t)}
}
func arrayHeaps(t types.Type) []string {
	a := t.Underlying().(*types.Array)
	return elemHeaps(a.Elem())
}
func elemHeaps(el types.Type) []string {
	var out []string
	for _, l := range leavesOf(el) {
		out = append(out, regElem(el, l))
	}
	return out
}

// ---------------------------------------------------------------- values
type Val struct {
	T      types.Type
	t      *Term  // scalar
	fields []*Val // struct / tuple components
	ptr    *Ptr   // non-root pointer
	fn     *FnVal // function value
	it     *IterVal
	ref    *Term // storage of an array value
	off    *Term // row values: position of element 0
}

type Ptr struct {
	kind  string // "field": interior of struct object; "elem": slice element
	base  *Term
	owner types.Type // struct type of root object, or element type
	path  []string
	idx   *Term // elem: absolute index
	typ   types.Type
}

type FnVal struct {
	fn       any // *ssa.Function
	bindings []*Val
}

func (v *Val) String() string {
	if v == nil {
		return "<nil>"
	}
	if v.t != nil {
		return Show(v.t)
	}
	return fmt.Sprintf("<%v>", v.T)
}
func scalar(t types.Type, x *Term) *Val { return &Val{T: t, t: x} }

// build a Val of type t from leaf terms
func fromLeaves(t types.Type, ls []*Term) (*Val, []*Term) {
	if isStruct(t) {
		v := &Val{T: t}
		for _, f := range structFields(t) {
			var x *Val
			x, ls = fromLeaves(f.typ, ls)
			v.fields = append(v.fields, x)
		}
		return v, ls
	}
	if isArray(t) {
		return &Val{T: t, ref: ls[0]}, ls[1:]
	}
	return &Val{T: t, t: ls[0]}, ls[1:]
}

// flatten a Val to leaf terms
func (v *Val) leaves() []*Term {
	if v.fields != nil || isStruct(v.T) {
		var out []*Term
		for _, f := range v.fields {
			out = append(out, f.leaves()...)
		}
		return out
	}
	if v.ref != nil {
		return []*Term{v.ref}
	}
	if v.t == nil {
		panic(unsupported(fmt.Sprintf("value of type %v has no term (pointer into a struct or function stored)", v.T)))
	}
	return []*Term{v.t}
}
func (v *Val) field(name string) *Val {
	for i, f := range structFields(v.T) {
		if f.name == name {
			return v.fields[i]
		}
	}
	panic(unsupported("no field " + name + " in " + v.T.String()))
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False()
	case SF64:
		return Sym("f64$0", SF64)
	case SF32:
		return Sym("f32$0", SF32)
	case SStr:
		return Sym("str$", SStr)
	case SIfc:
		return IfcNil()
	case SSlc:
		return NilSlc()
	}
	panic("zero of " + s)
}
func zeroVal(t types.Type) *Val {
	if isArray(t) {
		panic(unsupported("zero array value"))
	}
	var ls []*Term
	for _, l := range leavesOf(t) {
		ls = append(ls, zeroTerm(l.sort))
	}
	v, _ := fromLeaves(t, ls)
	return v
}

type IterVal struct {
	m     *Val // map value
	dom   *Term
	n     *Term
	id    string
	ks    Sort
	count *Term // number of keys delivered so far
	ord   int
}
