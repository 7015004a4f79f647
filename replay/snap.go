package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unsafe"

	df "github.com/rom1mouret/ml-essentials/dataframe"
)

type kind int

const (
	kF kind = iota
	kI
	kB
	kO // object, not marked
	kS // object, marked as string
)

func (k kind) String() string { return [...]string{"float", "int", "bool", "object", "string"}[k] }

type cell struct {
	addr unsafe.Pointer
	val  string
}

type snap struct {
	cols  map[string]kind
	rows  int
	cells map[string][]cell
	idx   []int
}

func fl(x float64) string {
	if math.IsNaN(x) {
		return "NaN"
	}
	return fmt.Sprintf("%x", math.Float64bits(x))
}

func ob(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func inter(d *df.DataFrame) df.DataFrameInternals { return df.DataFrameInternals{DF: d} }

func kinds(d *df.DataFrame) map[string]kind {
	m := map[string]kind{}
	for _, c := range d.FloatHeader().NameList() {
		m[c] = kF
	}
	for _, c := range d.IntHeader().NameList() {
		m[c] = kI
	}
	for _, c := range d.BoolHeader().NameList() {
		m[c] = kB
	}
	for _, c := range d.ObjectHeader().NameList() {
		m[c] = kO
	}
	for _, c := range d.StringHeader().NameList() {
		m[c] = kS
	}
	return m
}

// take observes every cell of the frame: its value as read through the public
// accessors and the address of its storage.
func take(d *df.DataFrame) *snap {
	s := &snap{cols: kinds(d), rows: d.NumRows(), cells: map[string][]cell{}}
	in := inter(d)
	s.idx = append([]int{}, in.GetIndices()...)
	for c, k := range s.cols {
		cs := make([]cell, s.rows)
		switch k {
		case kF:
			a, raw := d.Floats(c), in.FloatData(c)
			for i := range cs {
				cs[i] = cell{unsafe.Pointer(&raw[s.idx[i]]), fl(a.Get(i))}
			}
		case kI:
			a, raw := d.Ints(c), in.IntData(c)
			for i := range cs {
				cs[i] = cell{unsafe.Pointer(&raw[s.idx[i]]), fmt.Sprint(a.Get(i))}
			}
		case kB:
			a, raw := d.Bools(c), in.BoolData(c)
			for i := range cs {
				cs[i] = cell{unsafe.Pointer(&raw[s.idx[i]]), fmt.Sprint(a.Get(i))}
			}
		default:
			a, raw := d.Objects(c), in.ObjectData(c)
			for i := range cs {
				cs[i] = cell{unsafe.Pointer(&raw[s.idx[i]]), ob(a.Get(i))}
			}
		}
		s.cells[c] = cs
	}
	return s
}

func (s *snap) names() []string {
	var ns []string
	for c := range s.cols {
		ns = append(ns, c)
	}
	sort.Strings(ns)
	return ns
}

func schemaStr(m map[string]kind) string {
	var ns []string
	for c, k := range m {
		ns = append(ns, fmt.Sprintf("%q:%s", c, k))
	}
	sort.Strings(ns)
	return strings.Join(ns, " ")
}

func (t *T) sameSchema(what string, got, want map[string]kind) {
	a, b := schemaStr(got), schemaStr(want)
	t.check(a == b, "%s: columns are {%s}, expected {%s}", what, a, b)
}

// sameRows: row j of got is row sel[j] of want, cell by cell; ident also asks
// for the very same storage.
func (t *T) sameRows(what string, got *snap, want *snap, sel []int, ident bool) {
	t.check(got.rows == len(sel), "%s: %d rows, expected %d", what, got.rows, len(sel))
	for c := range got.cols {
		w, ok := want.cells[c]
		if !ok {
			continue
		}
		for j, i := range sel {
			g := got.cells[c][j]
			t.check(g.val == w[i].val, "%s: column %q row %d is %s, expected row %d of the source: %s", what, c, j, g.val, i, w[i].val)
			if ident {
				t.check(g.addr == w[i].addr, "%s: column %q row %d is not the storage cell of source row %d", what, c, j, i)
			}
		}
	}
}

func seq(a, b int) []int {
	var r []int
	for i := a; i < b; i++ {
		r = append(r, i)
	}
	return r
}

// deep describes everything observable of a frame, including the backing data.
func deep(d *df.DataFrame) string {
	var sb strings.Builder
	in := inter(d)
	m := kinds(d)
	fmt.Fprintf(&sb, "cols{%s} rows=%d alloc=%d cpu=%d altered=%v idx=%v/%p\n", schemaStr(m), d.NumRows(), d.NumAllocatedRows(), d.ActualMaxCPU(), d.AreIndicesAltered(), in.GetIndices(), first(in.GetIndices()))
	var ns []string
	for c := range m {
		ns = append(ns, c)
	}
	sort.Strings(ns)
	for _, c := range ns {
		fmt.Fprintf(&sb, "%q %s:", c, m[c])
		switch m[c] {
		case kF:
			r := in.FloatData(c)
			for i := range r {
				sb.WriteString(" " + fl(r[i]))
			}
			if len(r) > 0 {
				fmt.Fprintf(&sb, " @%p", &r[0])
			}
		case kI:
			r := in.IntData(c)
			fmt.Fprint(&sb, r)
			if len(r) > 0 {
				fmt.Fprintf(&sb, " @%p", &r[0])
			}
		case kB:
			r := in.BoolData(c)
			fmt.Fprint(&sb, r)
			if len(r) > 0 {
				fmt.Fprintf(&sb, " @%p", &r[0])
			}
		default:
			r := in.ObjectData(c)
			for i := range r {
				sb.WriteString(" " + ob(r[i]))
			}
			if len(r) > 0 {
				fmt.Fprintf(&sb, " @%p", &r[0])
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func first(x []int) *int {
	if len(x) == 0 {
		return nil
	}
	return &x[0]
}

// wellFormed is the invariant of property A06, as far as the public surface
// shows it.
func (t *T) wellFormed(what string, d *df.DataFrame) {
	in := inter(d)
	m := kinds(d)
	n := d.NumAllocatedRows()
	for _, c := range d.StringHeader().NameList() {
		_, ok := m[c]
		has := false
		for _, o := range d.ObjectHeader().NameList() {
			if o == c {
				has = true
			}
		}
		t.check(ok && has, "%s: string mark %q does not name an object column", what, c)
	}
	tot := d.FloatHeader().Num() + d.IntHeader().Num() + d.BoolHeader().Num() + d.ObjectHeader().Num()
	t.check(tot == d.NumColumns(), "%s: NumColumns is %d, headers list %d", what, d.NumColumns(), tot)
	t.check(len(m) == tot, "%s: the same name is a column of two types", what)
	for c, k := range m {
		l := 0
		switch k {
		case kF:
			l = len(in.FloatData(c))
		case kI:
			l = len(in.IntData(c))
		case kB:
			l = len(in.BoolData(c))
		default:
			l = len(in.ObjectData(c))
		}
		t.check(l == n, "%s: column %q has %d allocated rows, another has %d", what, c, l, n)
	}
	idx := in.GetIndices()
	t.check(len(idx) == d.NumRows(), "%s: NumRows", what)
	if len(m) > 0 {
		for j, i := range idx {
			t.check(i >= 0 && i < n, "%s: row %d points at position %d of %d allocated rows", what, j, i, n)
		}
	}
	if !d.AreIndicesAltered() {
		if len(m) > 0 {
			t.check(len(idx) == n, "%s: claims contiguous rows but has %d rows of %d allocated", what, len(idx), n)
		}
		for j, i := range idx {
			t.check(i == j, "%s: claims contiguous rows but row %d is position %d", what, j, i)
		}
	}
	t.check(len(in.GetMask()) >= len(idx), "%s: mask of %d entries for %d rows", what, len(in.GetMask()), len(idx))
	t.check(d.ActualMaxCPU() >= 1, "%s: CPU limit %d", what, d.ActualMaxCPU())
}

func sprint(x interface{}) string { return fmt.Sprint(x) }
