package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["A07"] = a07
	props["A08"] = a08
	props["A09"] = a09
	props["A10"] = a10
	props["A11"] = a11
	props["A12"] = a12
}

func a07(t *T) {
	o := defOpt()
	if t.p(0.5) {
		o.rows = t.Intn(8)
	}
	if t.p(0.6) {
		t.rowConcat(o)
	} else {
		t.colConcat(o)
	}
}

func (t *T) rowConcat(o genOpt) {
	d := t.frame(o)
	ds := []*df.DataFrame{d}
	s := take(d)
	ss := []*snap{s}
	bad := false
	for k := t.Intn(3); k >= 0; k-- {
		var e *df.DataFrame
		switch t.Intn(6) {
		case 0:
			t.log("second: ShuffleView")
			e = d.ShuffleView()
		case 1:
			x := t.randIdx(s.rows)
			t.log("second: IndexView(%v)", x)
			e = d.IndexView(x)
		case 2:
			t.log("second: Copy")
			e = d.Copy()
		case 3:
			if len(s.cols) < 2 {
				continue
			}
			c := pick(t, s.names())
			t.log("second: without %q", c)
			e = d.View()
			e.Drop(c)
			bad = true
		case 4:
			// same name, other type
			cs := byKind(s.cols, kI, kB)
			if len(cs) == 0 {
				continue
			}
			c := pick(t, cs)
			t.log("second: %q as float", c)
			e = d.Copy()
			if s.cols[c] == kI {
				e.IntToFloats(c)
			} else {
				e.BoolToFloats(c)
			}
			bad = true
		case 5:
			if len(s.cols) == 0 {
				continue
			}
			t.log("second: with an additional column")
			e = d.View()
			e.AllocInts("extra column")
		}
		ds = append(ds, e)
		ss = append(ss, take(e))
	}
	before := make([]string, len(ds))
	for i := range ds {
		before[i] = deep(ds[i])
	}
	r, err := df.RowConcat(ds...)
	if bad {
		t.check(err != nil, "RowConcat reports no error though a later frame lacks a column of the first")
		return
	}
	t.check(err == nil, "RowConcat: %v", err)
	rs := take(r)
	for c, k := range s.cols {
		g, ok := rs.cols[c]
		t.check(ok && (g == k || k == kO && g == kS), "RowConcat: column %q is %v, expected %v", c, g, k)
		if k == kO && g == kS {
			// only when another input marks it
			m := false
			for _, x := range ss {
				m = m || x.cols[c] == kS
			}
			t.check(m, "RowConcat: column %q marked as string", c)
		}
	}
	t.check(len(rs.cols) == len(s.cols), "RowConcat: columns {%s} from {%s}", schemaStr(rs.cols), schemaStr(s.cols))
	at := 0
	for k, x := range ss {
		for c := range s.cols {
			for j := 0; j < x.rows; j++ {
				t.check(at+j < rs.rows && rs.cells[c][at+j].val == x.cells[c][j].val, "RowConcat: column %q row %d of frame %d", c, j, k)
			}
		}
		at += x.rows
	}
	t.check(rs.rows == at, "RowConcat: %d rows, expected %d", rs.rows, at)
	for i := range ds {
		t.check(deep(ds[i]) == before[i], "RowConcat changed input %d", i)
	}
}

func (t *T) colConcat(o genOpt) {
	d := t.frame(o)
	ds := []*df.DataFrame{d}
	overlap, rows, posn := false, false, false
	for k := 1 + t.Intn(2); k > 0; k-- {
		e := d.View()
		if t.p(0.3) {
			t.log("next: Copy")
			e = d.Copy()
		}
		keep := ""
		if t.p(0.15) && len(kinds(d)) > 0 {
			keep = "x"
		}
		for i, c := range sorted(byKind(kinds(e), kF, kI, kB, kO, kS)) {
			if keep == "x" && i == 0 {
				overlap = true
				continue
			}
			e.Rename(c, fmt.Sprintf("%s/%d", c, k))
		}
		n := e.NumRows()
		switch t.Intn(6) {
		case 0:
			t.log("next: ShuffleView")
			e = e.ShuffleView()
		case 1:
			if n > 0 {
				t.log("next: SliceView(0,%d)", n-1)
				e = e.SliceView(0, n-1)
			}
		case 2:
			t.log("next: ReverseView")
			e = e.ReverseView()
		}
		ds = append(ds, e)
	}
	var ss []*snap
	for i, e := range ds {
		ss = append(ss, take(e))
		rows = rows || ss[i].rows != ss[0].rows
		for j := range ss[i].idx {
			if j < len(ss[0].idx) && ss[i].idx[j] != ss[0].idx[j] {
				posn = true
			}
		}
		if ds[i].NumAllocatedRows() != ds[0].NumAllocatedRows() {
			posn = true
		}
	}
	check := func(what string, r *df.DataFrame, err error, fails bool, ident bool) {
		if fails {
			t.check(err != nil, "%s: no error (overlapping names: %v, different row counts: %v, different positions: %v)", what, overlap, rows, posn)
			return
		}
		t.check(err == nil, "%s: unexpected error %v", what, err)
		rs := take(r)
		want := map[string]kind{}
		for _, x := range ss {
			for c, k := range x.cols {
				want[c] = k
			}
		}
		t.sameSchema(what, rs.cols, want)
		for _, x := range ss {
			t.sameRows(what, rs, x, seq(0, x.rows), ident)
		}
	}
	switch t.Intn(3) {
	case 0:
		t.log("ColumnConcatView")
		r, err := df.ColumnConcatView(ds...)
		if posn && !overlap && !rows && len(kinds(d)) == 0 {
			return
		}
		check("ColumnConcatView", r, err, overlap || rows || posn, true)
	case 1:
		t.log("ColumnCopyConcat")
		r, err := df.ColumnCopyConcat(ds...)
		check("ColumnCopyConcat", r, err, overlap || rows, false)
	case 2:
		t.log("ColumnSmartConcat")
		r, err := df.ColumnSmartConcat(ds...)
		check("ColumnSmartConcat", r, err, overlap || rows, false)
	}
}

func a08(t *T) {
	o := defOpt()
	d := t.frame(o)
	base := d
	if t.p(0.5) && d.NumRows() > 0 {
		// keep a wider frame around to see stray writes
		x := t.randIdx(d.NumRows())
		t.log("IndexView(%v)", x)
		d = d.IndexView(x)
	}
	s := take(d)
	bs := take(base)
	ks := s.cols
	ns := s.names()
	if len(ns) == 0 {
		return
	}
	c := pick(t, ns)
	n := s.rows
	// expected value by storage cell
	want := map[interface{}]string{}
	confirm := func(what string) {
		now, bnow := take(d), take(base)
		for q := range now.cells {
			for j := range now.cells[q] {
				exp := s.cells[q][j].val
				if w, ok := want[now.cells[q][j].addr]; ok && q == c {
					exp = w
				}
				t.check(now.cells[q][j].val == exp, "%s: column %q row %d reads %s, expected %s", what, q, j, now.cells[q][j].val, exp)
			}
		}
		for q := range bs.cells {
			for j := range bs.cells[q] {
				exp := bs.cells[q][j].val
				if w, ok := want[bs.cells[q][j].addr]; ok {
					exp = w
				}
				t.check(bnow.cells[q][j].val == exp, "%s: source column %q row %d reads %s, expected %s", what, q, j, bnow.cells[q][j].val, exp)
			}
		}
	}
	op := t.Intn(5)
	if op == 0 && n > 0 {
		for k := 0; k < 3; k++ {
			j := t.Intn(n)
			t.log("set %q row %d", c, j)
			v := t.poke(d, c, j)
			want[s.cells[c][j].addr] = v
			confirm("Set")
		}
		if ks[c] == kS && take(d).cells[c][0].val != "nil" {
			t.check(ob(d.Strings(c).Get(0)) == take(d).cells[c][0].val, "Strings.Get")
		}
		return
	}
	if op == 1 {
		t.log("CopyValuesToInterfaces(%q)", c)
		v := d.CopyValuesToInterfaces(c)
		t.check(len(v) == n, "CopyValuesToInterfaces: %d values for %d rows", len(v), n)
		for j := range v {
			got := ob(v[j])
			switch ks[c] {
			case kF:
				f, ok := v[j].(float64)
				t.check(ok, "CopyValuesToInterfaces(%q)[%d] is a %T", c, j, v[j])
				got = fl(f)
			case kI:
				f, ok := v[j].(int)
				t.check(ok, "CopyValuesToInterfaces(%q)[%d] is a %T", c, j, v[j])
				got = sprint(f)
			case kB:
				f, ok := v[j].(bool)
				t.check(ok, "CopyValuesToInterfaces(%q)[%d] is a %T", c, j, v[j])
				got = sprint(f)
			}
			t.check(got == s.cells[c][j].val, "CopyValuesToInterfaces(%q)[%d] = %s, expected %s", c, j, got, s.cells[c][j].val)
		}
		confirm("CopyValuesToInterfaces")
		return
	}
	create := op == 2
	name := c
	k := ks[c]
	if create {
		name = "created"
		k = kind(t.Intn(5))
		if _, ok := ks[name]; ok {
			return
		}
		if t.p(0.5) {
			d = d.View()
		}
	}
	vals := make([]string, n)
	t.log("overwrite %q (%v) create=%v", name, k, create)
	switch k {
	case kF:
		if t.p(0.4) {
			x := make([]float32, n)
			for j := range x {
				x[j] = float32(t.float())
				vals[j] = fl(float64(x[j]))
			}
			d.OverwriteFloats32(name, x)
		} else {
			x := make([]float64, n)
			for j := range x {
				x[j] = t.float()
				vals[j] = fl(x[j])
			}
			d.OverwriteFloats64(name, x)
			for j := range x {
				x[j] = 99
			}
		}
	case kI:
		x := make([]int, n)
		for j := range x {
			x[j] = t.Intn(1000)
			vals[j] = sprint(x[j])
		}
		d.OverwriteInts(name, x)
		for j := range x {
			x[j] = -99
		}
	case kB:
		x := make([]bool, n)
		for j := range x {
			x[j] = t.p(0.5)
			vals[j] = sprint(x[j])
		}
		d.OverwriteBools(name, x)
	case kO:
		x := make([]interface{}, n)
		for j := range x {
			x[j] = t.obj()
			vals[j] = ob(x[j])
		}
		d.OverwriteObjects(name, x, df.AnyObject)
		for j := range x {
			x[j] = -99
		}
	case kS:
		if t.p(0.5) {
			x := make([]interface{}, n)
			for j := range x {
				x[j] = t.str()
				vals[j] = ob(x[j])
			}
			d.OverwriteObjects(name, x, df.StringObject)
		} else {
			x := make([]string, n)
			for j := range x {
				x[j] = pick(t, strPool)
				vals[j] = ob(x[j])
			}
			d.OverwriteStrings(name, x)
		}
	}
	now := take(d)
	wk := map[string]kind{}
	for q, kk := range ks {
		wk[q] = kk
	}
	wk[name] = k
	t.sameSchema("overwrite", now.cols, wk)
	last := map[interface{}]int{}
	for j := range vals {
		last[now.cells[name][j].addr] = j
	}
	for j := range vals {
		exp := vals[last[now.cells[name][j].addr]]
		t.check(now.cells[name][j].val == exp, "overwrite: column %q row %d reads %s, expected %s", name, j, now.cells[name][j].val, exp)
	}
	if !create {
		for a, j := range last {
			want[a] = vals[j]
		}
		// other cells of the column in the wider frame, and all other columns
		for q := range bs.cells {
			for j, b := range take(base).cells[q] {
				exp := bs.cells[q][j].val
				if w, ok := want[b.addr]; ok {
					exp = w
				}
				t.check(b.val == exp, "overwrite of %q: source column %q row %d reads %s, expected %s", name, q, j, b.val, exp)
			}
		}
	} else {
		c = name
		t.sameRows("overwrite creating a column", now, s, seq(0, n), true)
	}
}

func (t *T) numCols(d *df.DataFrame) []string { return byKind(kinds(d), kF, kI, kB) }

func (t *T) num(d *df.DataFrame, k kind, c string, i int) float64 {
	switch k {
	case kF:
		return d.Floats(c).Get(i)
	case kI:
		return float64(d.Ints(c).Get(i))
	}
	if d.Bools(c).Get(i) {
		return 1
	}
	return 0
}

func a09(t *T) {
	o := defOpt()
	o.minRows = 1
	d := t.frame(o)
	ks := kinds(d)
	cs := t.numCols(d)
	if len(cs) == 0 || d.NumRows() == 0 {
		return
	}
	t.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	cs = cs[:1+t.Intn(len(cs))]
	if t.p(0.1) {
		cs = append(cs, cs[0])
	}
	if t.p(0.1) && ks[cs[0]] == kF {
		t.log("VecDense(%q)", cs[0])
		a := d.Floats(cs[0])
		for _, v := range []*mat.VecDense{a.VecDense(), a.VecDenseCopy()} {
			t.check(v.Len() == d.NumRows(), "VecDense has %d entries for %d rows", v.Len(), d.NumRows())
			for i := 0; i < v.Len(); i++ {
				t.check(fl(v.AtVec(i)) == fl(a.Get(i)), "VecDense entry %d is %v, expected %v", i, v.AtVec(i), a.Get(i))
			}
		}
	}
	dense := t.p(0.5)
	t.log("columns %q dense=%v", cs, dense)
	bat := df.NewDense64Batching(cs)
	var ite *df.Float32Iterator
	cur := d
	for k := 0; k < 4; k++ {
		if k > 0 {
			switch t.Intn(5) {
			case 0:
				cur = d
			case 1:
				cur = d.ShuffleView()
			case 2:
				cur = d.IndexView(t.randIdx(d.NumRows()))
			case 3:
				// a contiguous frame with other data of the same types
				cur = d.Copy()
				for _, c := range cs {
					if t.p(0.5) {
						t.poke(cur, c, t.Intn(cur.NumRows()))
					}
				}
			case 4:
				a := t.Intn(d.NumRows())
				cur = d.SliceView(a, a+1+t.Intn(d.NumRows()-a))
			}
			if cur.NumRows() == 0 {
				cur = d
			}
			t.log("next frame: %d rows", cur.NumRows())
		}
		n := cur.NumRows()
		before := deep(cur)
		if dense {
			m := bat.DenseMatrix(cur)
			r, c := m.Dims()
			t.check(r == n && c == len(cs), "DenseMatrix is %dx%d for %d rows and %d columns", r, c, n, len(cs))
			for i := 0; i < n; i++ {
				for j, col := range cs {
					w := t.num(cur, ks[col], col, i)
					t.check(fl(m.At(i, j)) == fl(w), "DenseMatrix[%d,%d] is %v, expected %v (column %q)", i, j, m.At(i, j), w, col)
				}
			}
		} else {
			if ite == nil {
				ite = df.NewFloat32Iterator(cur, cs)
			} else {
				ite.Reset(cur, t.p(0.5))
			}
			idx := inter(cur).GetIndices()
			stop := n
			if t.p(0.3) {
				stop = t.Intn(n + 1) // reset in the middle of a batch
			}
			for i := 0; i < stop; i++ {
				row, vi, bi := ite.NextRow()
				t.check(row != nil && len(row) == len(cs), "NextRow %d of %d returns %d values for %d columns", i, n, len(row), len(cs))
				t.check(vi == i && bi == idx[i], "NextRow %d returns positions %d, %d, expected %d, %d", i, vi, bi, i, idx[i])
				for j, col := range cs {
					w := float32(t.num(cur, ks[col], col, i))
					t.check(fl(float64(row[j])) == fl(float64(w)), "NextRow %d column %q is %v, expected %v", i, col, row[j], w)
				}
				for j := range row {
					row[j] = 12345 // callers may write into the row
				}
			}
			if stop == n {
				for k := 0; k < 2; k++ {
					row, vi, bi := ite.NextRow()
					t.check(row == nil && vi == n && bi == cur.NumAllocatedRows(), "after the last row NextRow returns %v, %d, %d", row, vi, bi)
				}
			}
		}
		t.check(deep(cur) == before, "batching changed the frame")
	}
}

var hashSeen = map[string]int{}

func a10(t *T) {
	o := defOpt()
	o.cols = map[kind]int{kF: 1, kI: 1, kB: 1, kO: 1, kS: 3}
	d := t.frame(o)
	s := take(d)
	cs := byKind(s.cols, kS)
	if len(cs) == 0 {
		return
	}
	if t.p(0.5) {
		d.SetMaxCPU([]int{1, 2, -1}[t.Intn(3)])
	}
	before := deep(d)
	if t.p(0.4) {
		c := pick(t, cs)
		t.log("LabelToInt(%q)", c)
		v, m := d.LabelToInt(c)
		t.check(len(v) == s.rows, "LabelToInt: %d labels for %d rows", len(v), s.rows)
		next := 0
		seen := map[string]int{}
		for j := 0; j < s.rows; j++ {
			x := d.Objects(c).Get(j)
			if x == nil {
				t.check(v[j] == -1, "LabelToInt: missing string at row %d has label %d", j, v[j])
				continue
			}
			w, ok := seen[x.(string)]
			if !ok {
				w = next
				seen[x.(string)] = w
				next++
			}
			t.check(v[j] == w && m[x.(string)] == w, "LabelToInt: row %d (%q) has label %d, mapping %d, expected %d", j, x, v[j], m[x.(string)], w)
		}
		t.check(len(m) == len(seen), "LabelToInt: mapping has %d strings, %d are present", len(m), len(seen))
	} else {
		q := cs[:1+t.Intn(len(cs))]
		t.log("HashStringsView(%q)", q)
		var v *df.DataFrame
		if t.p(0.5) {
			v = d.HashStringsView(q...)
		} else {
			e := pp.NewHashEncoder(pp.HashEncoderOptions{})
			e.Fit(d.ColumnView(q...))
			var err error
			v, err = e.TransformView(d)
			t.check(err == nil, "HashEncoder: %v", err)
		}
		want := map[string]kind{}
		for c, k := range s.cols {
			want[c] = k
		}
		for _, c := range q {
			want[c] = kI
		}
		r := take(v)
		t.sameSchema("HashStringsView", r.cols, want)
		for c := range r.cols {
			if s.cols[c] == r.cols[c] {
				for j := range r.cells[c] {
					t.check(r.cells[c][j] == s.cells[c][j], "HashStringsView: untouched column %q row %d", c, j)
				}
				continue
			}
			for j := 0; j < s.rows; j++ {
				x := d.Objects(c).Get(j)
				h := v.Ints(c).Get(j)
				if x == nil {
					t.check(h == -1, "HashStringsView: missing string at row %d of %q hashed to %d", j, c, h)
					continue
				}
				t.check(h >= 0, "HashStringsView: %q hashed to %d", x, h)
				if old, ok := hashSeen[x.(string)]; ok {
					t.check(h == old, "HashStringsView: %q hashed to %d here and to %d elsewhere", x, h, old)
				}
				hashSeen[x.(string)] = h
			}
		}
		// distinct strings of the pool collide with probability ~1e-17
		inv := map[int]string{}
		for x, h := range hashSeen {
			o, ok := inv[h]
			t.check(!ok, "HashStringsView: %q and %q have the same hash", x, o)
			inv[h] = x
		}
	}
	t.check(deep(d) == before, "hashing or labelling changed the source")
}

func a11(t *T) {
	o := defOpt()
	o.cols = map[kind]int{kF: 1, kI: 3, kB: 1, kS: 1}
	o.minRows = 1
	d := t.frame(o)
	cats := byKind(kinds(d), kI)
	if len(cats) == 0 || d.NumRows() == 0 {
		return
	}
	// small category values
	for _, c := range cats {
		v := make([]int, d.NumRows())
		for i := range v {
			v[i] = t.Intn(5) - 1
			if t.p(0.02) {
				v[i] = 1 << 40
			}
		}
		d.OverwriteInts(c, v)
	}
	pol := func() pp.CategoryPolicy { return pp.CategoryPolicy(t.Intn(5)) }
	opt := pp.OneHotOptions{MissingPolicy: pol(), UnknownPolicy: pol(), KeepUsedColumns: t.p(0.4)}
	d.SetMaxCPU([]int{1, 2, -1}[t.Intn(3)])
	t.log("one-hot %+v", opt)
	enc := pp.NewOneHotEncoder(opt)
	for _, c := range cats {
		present := false
		for i := 0; i < d.NumRows(); i++ {
			present = present || d.Ints(c).Get(i) != -1
		}
		if !present {
			return // nothing to impute with
		}
	}
	fitOn := d
	if t.p(0.5) && len(cats) > 1 {
		cats = cats[:1+t.Intn(len(cats)-1)]
		fitOn = d.ColumnView(cats...)
	}
	before := deep(d)
	t.check(enc.Fit(fitOn) == nil, "OneHotEncoder.Fit failed")
	t.check(deep(d) == before, "OneHotEncoder.Fit changed the frame")
	seen := map[string]map[int]bool{}
	miss := map[string]bool{}
	freq := map[string]map[int]int{}
	for _, c := range cats {
		seen[c], freq[c] = map[int]bool{}, map[int]int{}
		for i := 0; i < d.NumRows(); i++ {
			x := d.Ints(c).Get(i)
			if x == -1 {
				miss[c] = true
			} else {
				seen[c][x] = true
				freq[c][x]++
			}
		}
	}
	if t.p(0.3) {
		b, err := json.Marshal(enc)
		t.check(err == nil, "json: %v", err)
		e2 := new(pp.OneHotEncoder)
		t.check(json.Unmarshal(b, e2) == nil, "json: %v", err)
		enc = e2
	}
	// effective policies, as documented
	mp, up := opt.MissingPolicy, opt.UnknownPolicy
	// transform another frame
	e := d.Copy()
	if t.p(0.7) {
		e = d.IndexView(append(t.randIdx(d.NumRows()), 0)).Copy()
		for _, c := range cats {
			for i := 0; i < e.NumRows(); i++ {
				if t.p(0.15) {
					e.Ints(c).Set(i, t.Intn(9)-1)
				}
			}
		}
		if t.p(0.5) {
			e = e.ShuffleView()
		}
		t.log("transform %d rows", e.NumRows())
	}
	es := take(e)
	eb := deep(e)
	hasMiss, hasUnk := false, false
	for _, c := range cats {
		for i := 0; i < e.NumRows(); i++ {
			x := e.Ints(c).Get(i)
			if x == -1 {
				hasMiss = true
			} else if !seen[c][x] {
				hasUnk = true
			}
		}
	}
	v, err := enc.TransformView(e)
	t.check(deep(e) == eb, "OneHotEncoder.TransformView changed its input")
	errMiss := mp == pp.ReturnError
	errUnk := up == pp.ReturnError
	wantErr := errMiss && hasMiss || errUnk && hasUnk
	t.check((err != nil) == wantErr, "TransformView error %v; missing values present: %v, unknown values present: %v (policies %d, %d)", err, hasMiss, hasUnk, mp, up)
	if err != nil {
		return
	}
	r := take(v)
	// other columns kept, encoded ones dropped unless asked
	enccol := map[string]bool{}
	for _, c := range cats {
		enccol[c] = true
	}
	newc := map[string]bool{}
	for _, c := range enc.NewColumns {
		newc[c] = true
		t.check(r.cols[c] == kB, "category column %q is not a bool column", c)
	}
	for c, k := range es.cols {
		g, ok := r.cols[c]
		if enccol[c] && !opt.KeepUsedColumns {
			t.check(!ok || newc[c], "encoded column %q was not dropped", c)
			continue
		}
		t.check(ok && g == k, "column %q is not kept", c)
		for j := range es.cells[c] {
			t.check(r.cells[c][j] == es.cells[c][j], "kept column %q row %d changed", c, j)
		}
	}
	for c := range r.cols {
		_, had := es.cols[c]
		t.check(had || newc[c], "unexpected column %q", c)
	}
	// the category columns of every encoded column
	owner := map[string]string{}
	for _, c := range cats {
		var mine []string
		used := map[string]bool{}
		add := func(n string) {
			if n != "" && !used[n] {
				used[n] = true
				mine = append(mine, n)
				o, ok := owner[n]
				t.check(!ok || o == c, "category column %q belongs to both %q and %q", n, o, c)
				owner[n] = c
			}
		}
		dist := map[string]bool{}
		for x := range seen[c] {
			n, ok := enc.Categories[c][x]
			t.check(ok && n != "", "trained value %d of %q has no category column", x, c)
			t.check(!dist[n], "two trained values of %q share column %q", c, n)
			dist[n] = true
			add(n)
		}
		t.check(len(enc.Categories[c]) == len(seen[c]), "%q has %d category columns for %d values", c, len(enc.Categories[c]), len(seen[c]))
		fb := enc.Fallback[c]
		if !errMiss {
			add(fb[0])
		}
		if !errUnk {
			add(fb[1])
		}
		if (mp == pp.SharedSeparateCategory || up == pp.SharedSeparateCategory) && !errMiss && !errUnk {
			t.check(fb[0] == fb[1], "missing and unknown values of %q do not share a category", c)
		}
		best := 0
		for _, f := range freq[c] {
			if f > best {
				best = f
			}
		}
		ismost := func(n string) bool {
			for x, f := range freq[c] {
				if f == best && enc.Categories[c][x] == n {
					return true
				}
			}
			return false
		}
		for i := 0; i < r.rows; i++ {
			x := e.Ints(c).Get(i)
			var on []string
			for _, n := range mine {
				if v.Bools(n).Get(i) {
					on = append(on, n)
				}
			}
			t.check(len(on) == 1, "row %d value %d of %q: true columns %q", i, x, c, on)
			switch {
			case x == -1:
				t.check(on[0] == fb[0], "missing value at row %d of %q sets %q, expected %q", i, c, on[0], fb[0])
				switch mp {
				case pp.SeparateCategoryIfSeen:
					if miss[c] {
						t.check(!dist[on[0]], "missing value of %q has no category of its own", c)
					} else {
						t.check(ismost(on[0]), "missing value of %q sets %q, which is not the most frequent category", c, on[0])
					}
				case pp.SeparateCategory:
					t.check(!dist[on[0]], "missing value of %q has no category of its own", c)
					if up == pp.SeparateCategory {
						t.check(fb[0] != fb[1], "missing and unknown values of %q share a category", c)
					}
				case pp.ImputeWithMostFrequent:
					t.check(ismost(on[0]), "missing value of %q sets %q, which is not the most frequent category", c, on[0])
				}
			case seen[c][x]:
				t.check(on[0] == enc.Categories[c][x], "row %d value %d of %q sets %q", i, x, c, on[0])
			default:
				t.check(on[0] == fb[1], "unknown value at row %d of %q sets %q, expected %q", i, c, on[0], fb[1])
				switch {
				case up == pp.SeparateCategory, up == pp.SeparateCategoryIfSeen && mp != pp.SharedSeparateCategory:
					t.check(!dist[on[0]], "unknown value of %q sets the trained category %q", c, on[0])
				case up == pp.ImputeWithMostFrequent:
					t.check(ismost(on[0]), "unknown value of %q sets %q, which is not the most frequent category", c, on[0])
				}
			}
		}
	}
	t.check(len(owner) == len(newc), "%d category columns are declared, %d are used", len(newc), len(owner))
}

func close9(a, b float64) bool {
	if fl(a) == fl(b) || a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || a != a || b != b {
		return false
	}
	return math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b))
}

func a12(t *T) {
	o := defOpt()
	o.cols = map[kind]int{kF: 4, kI: 1, kB: 1, kS: 1}
	o.minRows = 1
	d := t.frame(o)
	fs := byKind(kinds(d), kF)
	if len(fs) == 0 || d.NumRows() == 0 {
		return
	}
	n := d.NumRows()
	d = d.DetachedView()
	for _, c := range fs {
		v := make([]float64, n)
		mode := t.Intn(4)
		for i := range v {
			switch mode {
			case 0:
				v[i] = 3.25
			case 1:
				v[i] = -float64(t.Intn(1000)) / 16
			default:
				v[i] = t.NormFloat64()*100 + 20
			}
			if t.p(0.15) {
				v[i] = math.NaN()
			}
		}
		v[t.Intn(n)] = 1.5
		d.OverwriteFloats64(c, v)
	}
	// a column may have become all-NaN through repeated rows: give every column a value
	for _, c := range fs {
		ok := false
		for i := 0; i < n; i++ {
			x := d.Floats(c).Get(i)
			ok = ok || x == x
		}
		if !ok {
			d.Floats(c).Set(0, 2)
		}
	}
	cpu := []int{1, 2, -1}[t.Intn(3)]
	d.SetMaxCPU(cpu)
	fit := fs
	fitOn := d
	if t.p(0.4) && len(fs) > 1 {
		fit = fs[:1+t.Intn(len(fs)-1)]
		fitOn = d.ColumnView(fit...)
	}
	fitted := map[string]bool{}
	stats := map[string][]float64{}
	for _, c := range fit {
		fitted[c] = true
		for i := 0; i < n; i++ {
			if x := d.Floats(c).Get(i); x == x {
				stats[c] = append(stats[c], x)
			}
		}
	}
	before := deep(d)
	// the frame to transform: same rows or another selection
	mk := func() *df.DataFrame {
		e := d.Copy()
		if t.p(0.6) {
			x := append(t.randIdx(n), t.Intn(n))
			e = e.IndexView(x)
			t.log("transform IndexView(%v)", x)
		}
		return e
	}
	same := func(what string, e *df.DataFrame, es *snap) {
		now := take(e)
		for c := range es.cells {
			if fitted[c] {
				continue
			}
			for j := range es.cells[c] {
				t.check(now.cells[c][j] == es.cells[c][j], "%s changed unfitted column %q row %d", what, c, j)
			}
		}
		t.sameSchema(what, now.cols, es.cols)
	}
	mean := func(x []float64) float64 {
		m := 0.0
		for _, v := range x {
			m += v
		}
		return m / float64(len(x))
	}
	if t.p(0.35) {
		pol := pp.ImputingPolicy(t.Intn(3))
		t.log("imputer policy %d cpu %d", pol, cpu)
		im := pp.NewFloatImputer(pp.FloatImputerOptions{Policy: pol})
		t.check(im.Fit(fitOn) == nil, "imputer Fit failed")
		t.check(deep(d) == before, "imputer Fit changed the frame")
		got := sorted(im.TransformedColumns())
		t.check(sprint(got) == sprint(sorted(fit)), "imputer was fitted on %q, reports %q", fit, got)
		e := mk()
		es := take(e)
		t.check(im.TransformInplace(e) == nil, "imputer failed")
		for _, c := range fit {
			want := map[pp.ImputingPolicy]float64{pp.Mean: mean(stats[c]), pp.Zero: 0, pp.One: 1}[pol]
			for j := range es.cells[c] {
				x := e.Floats(c).Get(j)
				if es.cells[c][j].val == "NaN" {
					t.check(close9(x, want), "imputed column %q row %d is %v, expected %v", c, j, x, want)
				} else {
					t.check(fl(x) == es.cells[c][j].val, "imputer changed column %q row %d, which was not missing", c, j)
				}
			}
		}
		same("imputer", e, es)
		return
	}
	opt := pp.ScalerOptions{MinMax: t.p(0.35), Centering: t.p(0.6), Scaling: t.p(0.6)}
	t.log("scaler %+v cpu %d", opt, cpu)
	sc := pp.NewScaler(opt)
	t.check(sc.Fit(fitOn) == nil, "scaler Fit failed")
	t.check(deep(d) == before, "scaler Fit changed the frame")
	e := mk()
	es := take(e)
	old := map[string][]float64{}
	for _, c := range fs {
		for j := 0; j < es.rows; j++ {
			old[c] = append(old[c], e.Floats(c).Get(j))
		}
	}
	if t.p(0.3) {
		b, err := json.Marshal(sc)
		t.check(err == nil, "json: %v", err)
		s2 := new(pp.Scaler)
		t.check(json.Unmarshal(b, s2) == nil, "json")
		sc = s2
	}
	t.check(sc.TransformInplace(e) == nil, "scaler failed")
	for _, c := range fit {
		st := stats[c]
		shift, scale := 0.0, 1.0
		free := false
		if opt.MinMax {
			x := append([]float64{}, st...)
			sort.Float64s(x)
			shift = -x[0]
			if x[len(x)-1] > x[0] {
				scale = 1 / (x[len(x)-1] - x[0])
			}
		} else {
			m := mean(st)
			if opt.Centering {
				shift = -m
			}
			if opt.Scaling {
				ss := 0.0
				for _, v := range st {
					ss += (v - m) * (v - m)
				}
				if ss == 0 {
					free = true
					scale = sc.Scale[c]
					t.check(scale > 0 && !math.IsInf(scale, 0), "scale factor %v for the constant column %q", scale, c)
				} else {
					scale = math.Sqrt(float64(len(st)) / ss)
				}
			}
		}
		_ = free
		for j, x := range old[c] {
			want := (x + shift) * scale
			got := e.Floats(c).Get(j)
			ok := close9(got, want) || math.Abs(got-want) < 1e-9*math.Abs(scale)*(math.Abs(x)+math.Abs(shift))
			t.check(ok, "scaled column %q row %d: %v became %v, expected (x + %v) * %v = %v", c, j, x, got, shift, scale, want)
		}
	}
	same("scaler", e, es)
	t.check(sc.InverseTransformInplace(e) == nil, "inverse failed")
	for _, c := range fit {
		for j, x := range old[c] {
			got := e.Floats(c).Get(j)
			ok := close9(got, x) || math.Abs(got-x) < 1e-6*(1+math.Abs(x))
			t.check(ok, "inverse scaling of column %q row %d gives %v, was %v", c, j, got, x)
		}
	}
	same("inverse scaler", e, es)
}
