package main

import (
	"fmt"
	"math"
	"sort"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/utils"
)

func init() {
	props["A01"] = a01
	props["A02"] = a02
	props["A03"] = a03
	props["A04"] = a04
	props["A05"] = a05
	props["A06"] = a06
}

func a01(t *T) {
	d := t.frame(defOpt())
	s := take(d)
	n := s.rows
	switch t.Intn(8) {
	case 0:
		x := t.randIdx(n)
		t.log("IndexView(%v)", x)
		y := append([]int{}, x...)
		v := d.IndexView(x)
		for i := range x { // the view must not depend on the caller's slice
			x[i] = 0
		}
		r := take(v)
		t.sameSchema("IndexView", r.cols, s.cols)
		t.sameRows("IndexView", r, s, y, true)
	case 1:
		t.log("ReverseView")
		r := take(d.ReverseView())
		var sel []int
		for i := n - 1; i >= 0; i-- {
			sel = append(sel, i)
		}
		t.sameSchema("ReverseView", r.cols, s.cols)
		t.sameRows("ReverseView", r, s, sel, true)
	case 2:
		m := t.randMask(d)
		if t.p(0.2) && n > 0 {
			m = m[:t.Intn(n)]
		}
		t.log("MaskView(%v)", m)
		var sel []int
		for i, b := range m {
			if b {
				sel = append(sel, i)
			}
		}
		r := take(d.MaskView(m))
		t.sameSchema("MaskView", r.cols, s.cols)
		t.sameRows("MaskView", r, s, sel, true)
	case 3, 4:
		a, b := t.Intn(2*n+2)-n-1, t.Intn(2*n+2)-n-1
		if t.p(0.3) {
			a, b = t.Intn(n+1), t.Intn(n+1)
		}
		t.log("SliceView(%d,%d)", a, b)
		r := take(d.SliceView(a, b))
		if a < 0 {
			a += n + 1
		}
		if b < 0 {
			b += n + 1
		}
		t.sameSchema("SliceView", r.cols, s.cols)
		if a <= b {
			t.sameRows("SliceView", r, s, seq(a, b), true)
		} else {
			t.check(r.rows == a-b, "SliceView: %d rows, expected %d", r.rows, a-b)
			if r.rows > 0 && len(s.cols) > 0 {
				// contiguous descending run: find its first row
				ok := false
				for top := a - b - 1; top < n && !ok; top++ {
					ok = true
					for c := range r.cols {
						for j := 0; j < r.rows && ok; j++ {
							ok = r.cells[c][j].addr == s.cells[c][top-j].addr && r.cells[c][j].val == s.cells[c][top-j].val
						}
					}
				}
				t.check(ok, "SliceView with descending bounds is not a contiguous descending run of rows")
			}
		}
	case 5:
		t.log("ResetIndexView")
		r := take(d.ResetIndexView())
		sel := seq(0, n)
		sort.SliceStable(sel, func(a, b int) bool { return s.idx[sel[a]] < s.idx[sel[b]] })
		t.sameSchema("ResetIndexView", r.cols, s.cols)
		t.sameRows("ResetIndexView", r, s, sel, true)
		if len(s.cols) > 0 {
			for i := 1; i < r.rows; i++ {
				t.check(r.idx[i-1] <= r.idx[i], "ResetIndexView: positions are not ascending")
			}
		}
	case 6:
		var q []string
		for _, c := range s.names() {
			if t.p(0.5) {
				q = append(q, c)
			}
		}
		if t.p(0.3) {
			q = append(q, "no such column")
		}
		if t.p(0.2) && len(q) > 0 {
			q = append(q, q[0])
		}
		t.log("ColumnView(%q)", q)
		r := take(d.ColumnView(q...))
		want := map[string]kind{}
		for _, c := range q {
			if k, ok := s.cols[c]; ok {
				want[c] = k
			}
		}
		if len(q) == 0 {
			want = s.cols
		}
		t.sameSchema("ColumnView", r.cols, want)
		t.sameRows("ColumnView", r, s, seq(0, n), true)
	case 7:
		t.log("View")
		r := take(d.View())
		t.sameSchema("View", r.cols, s.cols)
		t.sameRows("View", r, s, seq(0, n), true)
	}
}

func (t *T) concatParts(what string, s *snap, parts []*df.DataFrame) {
	at := 0
	for _, p := range parts {
		r := take(p)
		t.sameSchema(what, r.cols, s.cols)
		t.check(at+r.rows <= s.rows, "%s: parts have more rows than the frame", what)
		t.sameRows(what, r, s, seq(at, at+r.rows), true)
		at += r.rows
	}
	t.check(at == s.rows, "%s: parts have %d rows, the frame %d", what, at, s.rows)
}

func a02(t *T) {
	o := defOpt()
	d := t.frame(o)
	s := take(d)
	n := s.rows
	switch t.Intn(4) {
	case 0:
		b := 1 + t.Intn(n+3)
		t.log("SplitView(%d)", b)
		ps := d.SplitView(b)
		t.concatParts("SplitView", s, ps)
		if n == 0 {
			t.check(len(ps) == 1, "SplitView of an empty frame has %d parts", len(ps))
		}
		for i, p := range ps {
			if i < len(ps)-1 {
				t.check(p.NumRows() == b, "SplitView(%d): part %d has %d rows", b, i, p.NumRows())
			} else if n > 0 {
				t.check(p.NumRows() >= 1 && p.NumRows() <= b, "SplitView(%d): last part has %d rows", b, p.NumRows())
			}
		}
	case 1:
		k := 1 + t.Intn(n+4)
		if t.p(0.5) {
			k = 1 + t.Intn(9)
		}
		t.log("SplitNView(%d)", k)
		ps := d.SplitNView(k)
		t.check(len(ps) == k, "SplitNView(%d): %d parts", k, len(ps))
		t.concatParts("SplitNView", s, ps)
		last := -1
		for i, p := range ps {
			if p.NumRows() > 0 {
				last = i
			}
		}
		for i, p := range ps {
			if i < last {
				t.check(p.NumRows() == ps[0].NumRows(), "SplitNView(%d): part %d has %d rows, part 0 %d", k, i, p.NumRows(), ps[0].NumRows())
			}
		}
		if last >= 0 {
			t.check(ps[last].NumRows() <= ps[0].NumRows(), "SplitNView(%d): the last part is larger", k)
		}
	case 2:
		r := t.Float64()
		switch t.Intn(5) {
		case 0:
			r = 0
		case 1:
			r = 1
		case 2:
			if n > 0 {
				r = float64(t.Intn(n+1)) / float64(n)
			}
		}
		t.log("SplitTrainTestViews(%v)", r)
		a, b := d.SplitTrainTestViews(r)
		t.concatParts("SplitTrainTestViews", s, []*df.DataFrame{a, b})
		t.check(b.NumRows() == int(math.Floor(float64(n)*r)), "SplitTrainTestViews(%v) of %d rows: test part has %d", r, n, b.NumRows())
	case 3:
		var names []string
		for i := t.Intn(12); i > 0; i-- {
			names = append(names, pick(t, strPool))
		}
		g := t.Intn(15)
		t.log("SplitStringSlice(%q,%d)", names, g)
		gs := utils.SplitStringSlice(names, g)
		at := 0
		for i, x := range gs {
			if i > 0 && len(x) > 0 {
				t.check(len(gs[i-1]) > 0 && len(x) <= len(gs[0]), "SplitStringSlice: group %d after an empty or smaller one", i)
			}
			for j, v := range x {
				t.check(at+j < len(names) && names[at+j] == v, "SplitStringSlice: group %d entry %d is %q", i, j, v)
			}
			at += len(x)
		}
		if g > 0 {
			t.check(at == len(names), "SplitStringSlice: groups hold %d of %d names", at, len(names))
			t.check(len(gs) <= g, "SplitStringSlice: %d groups for %d", len(gs), g)
		}
	}
}

// whole finds, for each row of r, the row of s it is (all cells the same storage).
func (t *T) match(what string, r, s *snap) []int {
	// rows of s by position
	if len(s.cols) == 0 {
		return seq(0, r.rows)
	}
	used := make([]bool, s.rows)
	sel := make([]int, r.rows)
	byAddr := map[interface{}][]int{}
	c0 := s.names()[0]
	for i := 0; i < s.rows; i++ {
		a := s.cells[c0][i].addr
		byAddr[a] = append(byAddr[a], i)
	}
	for j := 0; j < r.rows; j++ {
		sel[j] = -1
		for _, i := range byAddr[r.cells[c0][j].addr] {
			if !used[i] {
				used[i] = true
				sel[j] = i
				break
			}
		}
		t.check(sel[j] >= 0, "%s: row %d is not an unused row of the source", what, j)
	}
	t.sameRows(what, r, s, sel, true)
	return sel
}

func a03(t *T) {
	o := defOpt()
	o.noNaN = true
	o.cols = map[kind]int{kF: 2, kI: 2, kB: 2, kS: 1}
	d := t.frame(o)
	s := take(d)
	n := s.rows
	op := t.Intn(5)
	if op < 2 {
		if op == 0 {
			t.log("ShuffleView")
			r := take(d.ShuffleView())
			t.check(r.rows == n, "ShuffleView: %d rows of %d", r.rows, n)
			t.sameSchema("ShuffleView", r.cols, s.cols)
			t.match("ShuffleView", r, s)
		} else {
			k := t.Intn(n + 1)
			t.log("SampleView(%d)", k)
			v := d.SampleView(k, false)
			r := take(v)
			t.check(r.rows == k, "SampleView(%d): %d rows", k, r.rows)
			t.sameSchema("SampleView", r.cols, s.cols)
			t.match("SampleView", r, s)
		}
		return
	}
	cs := byKind(s.cols, kF, kI, kB)
	if len(cs) == 0 {
		return
	}
	c := pick(t, cs)
	key := make([]float64, n)
	for i := range key {
		switch s.cols[c] {
		case kF:
			key[i] = d.Floats(c).Get(i)
		case kI:
			key[i] = float64(d.Ints(c).Get(i))
		case kB:
			if d.Bools(c).Get(i) {
				key[i] = 1
			}
		}
		if key[i] != key[i] {
			return
		}
	}
	if op == 2 {
		t.log("SortedView(%q)", c)
		r := take(d.SortedView(c))
		t.sameSchema("SortedView", r.cols, s.cols)
		t.check(r.rows == n, "SortedView: %d rows of %d", r.rows, n)
		sel := t.match("SortedView", r, s)
		for j := 1; j < n; j++ {
			t.check(key[sel[j-1]] <= key[sel[j]], "SortedView(%q): keys %v, %v at rows %d, %d", c, key[sel[j-1]], key[sel[j]], j-1, j)
		}
		return
	}
	k := t.Intn(n + 3)
	asc, srt := t.p(0.5), t.p(0.5)
	t.log("TopView(%q,%d,%v,%v)", c, k, asc, srt)
	r := take(d.TopView(c, k, asc, srt))
	t.sameSchema("TopView", r.cols, s.cols)
	w := k
	if w > n {
		w = n
	}
	t.check(r.rows == w, "TopView(%d) of %d rows: %d rows", k, n, r.rows)
	sel := t.match("TopView", r, s)
	in := map[int]bool{}
	for _, i := range sel {
		in[i] = true
	}
	for _, i := range sel {
		for x := 0; x < n; x++ {
			if !in[x] {
				if asc {
					t.check(key[x] >= key[i], "TopView: left-out key %v is lower than %v", key[x], key[i])
				} else {
					t.check(key[x] <= key[i], "TopView: left-out key %v is higher than %v", key[x], key[i])
				}
			}
		}
	}
	if srt {
		for j := 1; j < len(sel); j++ {
			a, b := key[sel[j-1]], key[sel[j]]
			t.check(asc && a <= b || !asc && a >= b, "TopView sorted: keys %v, %v in sequence (ascending=%v)", a, b, asc)
		}
	}
}

// a restructuring of the derived frame (never a cell write)
func (t *T) restructure(v *df.DataFrame) {
	ks := kinds(v)
	ns := byKind(ks, kF, kI, kB, kO, kS)
	if len(ns) == 0 {
		return
	}
	c := pick(t, ns)
	switch t.Intn(9) {
	case 0:
		if _, ok := ks[c+"_z"]; !ok {
			t.log("  Rename(%q)", c)
			v.Rename(c, c+"_z")
		}
	case 1:
		t.log("  Drop(%q)", c)
		v.Drop(c)
	case 2:
		if !free(ks, "zs") {
			return
		}
		t.log("  AllocStrings")
		v.AllocStrings("zs")
	case 3:
		if !free(ks, "zf", "zi", "zi2", "zb", "zo") {
			return
		}
		t.log("  Alloc*")
		v.AllocFloats("zf")
		v.AllocInts("zi", "zi2")
		v.AllocBools("zb")
		v.AllocObjects("zo")
	case 4:
		if cs := byKind(ks, kI); len(cs) > 0 {
			x := pick(t, cs)
			t.log("  IntToFloats(%q)", x)
			v.IntToFloats(x)
		}
	case 5:
		if cs := byKind(ks, kB); len(cs) > 0 {
			x := pick(t, cs)
			t.log("  BoolToFloats(%q)", x)
			v.BoolToFloats(x)
		}
	case 6:
		t.log("  Unshare(%q)", c)
		v.Unshare(c)
	case 7:
		if !free(ks, "new", "news") {
			return
		}
		t.log("  new column by overwriting")
		v.OverwriteInts("new", make([]int, v.NumRows()))
		v.OverwriteStrings("news", make([]string, v.NumRows()))
	case 8:
		if !free(ks, "tf") {
			return
		}
		t.log("  TransferRawDataFrom")
		o := df.DataBuilder{RawData: df.NewRawData()}.SetFloats("tf", make([]float64, v.NumAllocatedRows())).ToDataFrame()
		v.TransferRawDataFrom(&o.RawData)
	}
}

func a04(t *T) {
	d := t.frame(defOpt())
	before := deep(d)
	same := func(what string) {
		a := deep(d)
		t.check(a == before, "%s changed the source frame:\n%s\nto\n%s", what, before, a)
	}
	var v *df.DataFrame
	var e *df.DataFrame
	var eb string
	switch t.Intn(11) {
	case 0, 1, 2, 3:
		v = t.viewOp(d)
	case 4:
		if n := d.NumRows(); n > 0 {
			b := 1 + t.Intn(n)
			t.log("SplitView(%d)", b)
			ps := d.SplitView(b)
			v = ps[t.Intn(len(ps))]
		}
	case 5:
		k := 1 + t.Intn(6)
		t.log("SplitNView(%d)", k)
		ps := d.SplitNView(k)
		v = ps[t.Intn(len(ps))]
	case 6:
		t.log("SplitTrainTestViews")
		a, b := d.SplitTrainTestViews(t.Float64())
		v = a
		if t.p(0.5) {
			v = b
		}
	case 7, 8:
		// concatenation with a renamed copy
		w := d.Copy()
		if t.p(0.5) {
			w = d.View()
		}
		for c := range kinds(w) {
			w.Rename(c, c+"_2")
		}
		e, eb = w, deep(w)
		var err error
		if t.p(0.5) {
			t.log("ColumnSmartConcat")
			v, err = df.ColumnSmartConcat(d, w)
		} else {
			t.log("ColumnCopyConcat")
			v, err = df.ColumnCopyConcat(d, w)
		}
		if err != nil {
			v = nil
		}
	case 9:
		if cs := byKind(kinds(d), kS); len(cs) > 0 {
			t.log("HashStringsView(%q)", cs)
			v = d.HashStringsView(cs...)
		}
	case 10:
		if d.NumRows() > 0 {
			k := t.Intn(d.NumRows() + 1)
			t.log("SampleView(%d)", k)
			v = d.SampleView(k, false)
		}
	}
	same("creating the derived frame")
	if v == nil || v == d {
		return
	}
	for i := 0; i < 3; i++ {
		t.restructure(v)
		same("restructuring the derived frame")
		if e != nil {
			t.check(deep(e) == eb, "restructuring the concatenation changed its second input")
		}
		if t.p(0.3) {
			v = t.viewOp(v)
			same("viewing the derived frame")
		}
	}
	// writing a column made by the derived frame is never seen in the source
	ks := kinds(v)
	if _, ok := ks["zf"]; ok && ks["zf"] == kF {
		vals := make([]float64, v.NumRows())
		for i := range vals {
			vals[i] = 7
		}
		v.OverwriteFloats64("zf", vals)
		same("writing a new column of the derived frame")
	}
}

func (t *T) poke(d *df.DataFrame, c string, row int) string {
	switch kinds(d)[c] {
	case kF:
		x := 1e5 + float64(t.Intn(1000))
		d.Floats(c).Set(row, x)
		return fl(x)
	case kI:
		x := 7777 + t.Intn(1000)
		d.Ints(c).Set(row, x)
		return sprint(x)
	case kB:
		x := !d.Bools(c).Get(row)
		d.Bools(c).Set(row, x)
		return sprint(x)
	case kO:
		x := 4242 + t.Intn(1000)
		d.Objects(c).Set(row, x)
		return ob(x)
	}
	x := "poke" + sprint(t.Intn(1000))
	d.Strings(c).Set(row, x)
	return ob(x)
}

func (t *T) shareCheck(what string, d *df.DataFrame, v *df.DataFrame, detached map[string]bool, sel []int) {
	s := take(d)
	r := take(v)
	t.sameRows(what, r, s, sel, false)
	for c := range r.cols {
		if _, ok := s.cols[c]; !ok {
			continue
		}
		if detached[c] {
			addrs := map[interface{}]bool{}
			for i := range s.cells[c] {
				addrs[s.cells[c][i].addr] = true
			}
			for j := range r.cells[c] {
				t.check(!addrs[r.cells[c][j].addr], "%s: column %q row %d shares storage with the source", what, c, j)
			}
		} else {
			for j, i := range sel {
				t.check(r.cells[c][j].addr == s.cells[c][i].addr, "%s: column %q row %d is not the cell of the source", what, c, j)
			}
		}
	}
	// write and look
	ns := r.names()
	if r.rows == 0 || len(ns) == 0 {
		return
	}
	for k := 0; k < 3; k++ {
		c := pick(t, ns)
		if _, ok := s.cols[c]; !ok {
			continue
		}
		j := t.Intn(r.rows)
		val := t.poke(v, c, j)
		now := take(d)
		got := now.cells[c][sel[j]].val
		if detached[c] {
			for i := range now.cells[c] {
				t.check(now.cells[c][i].val == s.cells[c][i].val, "%s: writing column %q row %d of the copy changed row %d of the source", what, c, j, i)
			}
		} else {
			t.check(got == val, "%s: writing column %q row %d of the view is not seen in the source", what, c, j)
		}
		s = now
	}
}

func a05(t *T) {
	d := t.frame(defOpt())
	s := take(d)
	n := s.rows
	all := map[string]bool{}
	for c := range s.cols {
		all[c] = true
	}
	switch t.Intn(9) {
	case 0:
		x := t.randIdx(n)
		t.log("IndexView(%v)", x)
		t.shareCheck("IndexView", d, d.IndexView(x), nil, x)
	case 1:
		t.log("Copy")
		t.shareCheck("Copy", d, d.Copy(), all, seq(0, n))
	case 2:
		t.log("ShallowCopy")
		t.shareCheck("ShallowCopy", d, d.ShallowCopy(), nil, seq(0, n))
	case 3, 4:
		// detach of a view
		v := d.View()
		det := map[string]bool{}
		var q []string
		for _, c := range s.names() {
			if t.p(0.5) {
				q = append(q, c)
				det[c] = true
			}
		}
		if len(q) == 0 {
			det = all
		}
		if t.p(0.5) {
			t.log("DetachedView(%q)", q)
			v = d.DetachedView(q...)
		} else {
			t.log("Unshare(%q)", q)
			v.Unshare(q...)
		}
		t.shareCheck("DetachedView", d, v, det, seq(0, n))
		if t.p(0.5) {
			// a second, overlapping detach
			var q2 []string
			det2 := map[string]bool{}
			for _, c := range s.names() {
				if t.p(0.5) {
					q2 = append(q2, c)
					det2[c] = true
				}
			}
			if len(q2) == 0 {
				det2 = all
			}
			t.log("DetachedView(%q) of it", q2)
			t.shareCheck("DetachedView of a detached view", v, v.DetachedView(q2...), det2, seq(0, n))
		}
	case 5:
		t.log("RowConcat")
		v, err := df.RowConcat(d, d)
		t.check(err == nil, "RowConcat: %v", err)
		t.shareCheck("RowConcat", d, v, all, append(seq(0, n), seq(0, n)...))
	case 6:
		w := d.View()
		for c := range s.cols {
			w.Rename(c, c+"_2")
		}
		t.log("ColumnCopyConcat")
		v, err := df.ColumnCopyConcat(d, w)
		t.check(err == nil, "ColumnCopyConcat: %v", err)
		t.shareCheck("ColumnCopyConcat", d, v, all, seq(0, n))
	case 7:
		w := d.View()
		for c := range s.cols {
			w.Rename(c, c+"_2")
		}
		t.log("ColumnConcatView")
		v, err := df.ColumnConcatView(d, w)
		t.check(err == nil, "ColumnConcatView: %v", err)
		t.shareCheck("ColumnConcatView", d, v, nil, seq(0, n))
	case 8:
		o := defOpt()
		o.ops = 0
		d = t.base(o)
		s = take(d)
		all = map[string]bool{}
		for c := range s.cols {
			all[c] = true
		}
		t.log("MergeRawDataRows")
		raw := df.MergeRawDataRows([]*df.RawData{&d.RawData, &d.RawData})
		v := raw.ToDataFrame()
		t.shareCheck("MergeRawDataRows", d, v, all, append(seq(0, s.rows), seq(0, s.rows)...))
	}
}

func a06(t *T) {
	d := t.base(defOpt())
	t.wellFormed("builder", d)
	for k := 0; k < 6; k++ {
		switch t.Intn(8) {
		case 0:
			v := d.View()
			t.restructure(v)
			d = v
		case 1:
			if n := d.NumRows(); n > 0 {
				b := 1 + t.Intn(n)
				t.log("SplitView(%d)", b)
				for _, p := range d.SplitView(b) {
					t.wellFormed("SplitView part", p)
					d = p
				}
			}
		case 2:
			k := 1 + t.Intn(5)
			t.log("SplitNView(%d)", k)
			ps := d.SplitNView(k)
			for _, p := range ps {
				t.wellFormed("SplitNView part", p)
			}
			d = ps[0]
		case 3:
			w := d.Copy()
			if t.p(0.5) {
				w = d.View()
			}
			for c := range kinds(w) {
				w.Rename(c, fmt.Sprintf("%s/%d", c, k))
			}
			t.log("ColumnSmartConcat with renamed columns")
			v, err := df.ColumnSmartConcat(d, w)
			t.check(err == nil, "ColumnSmartConcat: %v", err)
			if len(kinds(v)) < 20 {
				d = v
			} else {
				t.wellFormed("ColumnSmartConcat", v)
			}
		case 4:
			m := t.randMask(d)
			t.log("ZeroMask/EmptyMask %d", len(m))
			d.ThreadSafeMasking(t.p(0.3))
			z := d.ZeroMask()
			t.check(len(z) == d.NumRows(), "ZeroMask length %d for %d rows", len(z), d.NumRows())
			for i := range z {
				t.check(!z[i], "ZeroMask entry %d is set", i)
			}
			t.check(len(d.EmptyMask()) == d.NumRows(), "EmptyMask length")
		case 5:
			x := []int{-3, 0, 1, 2, 1000}[t.Intn(5)]
			t.log("SetMaxCPU(%d)", x)
			d.SetMaxCPU(x)
		case 6:
			cs := byKind(kinds(d), kS)
			if len(cs) > 0 {
				q := cs[:1+t.Intn(len(cs))]
				t.log("HashStringsView(%q)", q)
				d = d.HashStringsView(q...)
			}
		default:
			d = t.viewOp(d)
		}
		t.wellFormed("result", d)
		// reading and writing every cell must be in bounds
		s := take(d)
		if s.rows > 0 && len(s.cols) > 0 && t.p(0.3) {
			t.poke(d, pick(t, s.names()), t.Intn(s.rows))
		}
	}
}

func free(ks map[string]kind, names ...string) bool {
	for _, n := range names {
		if _, ok := ks[n]; ok {
			return false
		}
	}
	return true
}
