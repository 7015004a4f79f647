package main

import (
	"fmt"
	"math"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
)

var strPool = []string{"", "a", "b", "A", "true", "0", "-1", "x,y", "ligne\n2", "\"q\"", "é", "aa", " a", "NaN"}

func (t *T) float() float64 {
	switch t.Intn(12) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return math.Copysign(0, -1)
	case 4, 5, 6:
		return float64(t.Intn(5) - 2)
	}
	return math.Round(t.NormFloat64()*1e6) / 1024
}
func (t *T) int() int {
	switch t.Intn(4) {
	case 0:
		return -1
	case 1:
		return t.Intn(1<<40) - 1<<39
	}
	return t.Intn(6) - 1
}
func (t *T) str() interface{} {
	if t.p(0.2) {
		return nil
	}
	return strPool[t.Intn(len(strPool))]
}
func (t *T) obj() interface{} {
	switch t.Intn(4) {
	case 0:
		return nil
	case 1:
		return t.Intn(10)
	case 2:
		return float64(t.Intn(3))
	}
	return []string{"p", "q"}[t.Intn(2)]
}

func (t *T) nRows() int {
	switch x := t.Intn(20); {
	case x < 2:
		return 0
	case x < 4:
		return 1
	case x < 14:
		return 2 + t.Intn(7)
	case x < 18:
		return 10 + t.Intn(50)
	default:
		return []int{64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 520}[t.Intn(13)]
	}
}

type genOpt struct {
	cols     map[kind]int // max number of columns per kind; nil: 2 of each
	minCols  int
	rows     int // -1: random
	ops      int
	noNaN    bool
	minRows  int
	clean    bool // only finite floats of moderate size
}

func defOpt() genOpt { return genOpt{rows: -1, ops: 4, minCols: 1} }

var colNames = map[kind][]string{
	kF: {"f0", "f1", "_target", "", "height cm"},
	kI: {"i0", "i1", "age", "id_2"},
	kB: {"b0", "b1", "Flag"},
	kO: {"o0", "o1"},
	kS: {"s0", "s1", "naïve", "s,2"},
}

// base builds a contiguous frame through the builder.
func (t *T) base(o genOpt) *df.DataFrame {
	n := o.rows
	if n < 0 {
		n = t.nRows()
		if n < o.minRows {
			n = o.minRows + t.Intn(4)
		}
	}
	b := df.DataBuilder{RawData: df.NewRawData()}
	tot := 0
	for tot < o.minCols || tot == 0 {
		for k := kF; k <= kS; k++ {
			max := 2
			if o.cols != nil {
				max = o.cols[k]
			}
			if max == 0 {
				continue
			}
			for _, x := range t.Perm(len(colNames[k])) {
				if t.Intn(len(colNames[k])) >= max {
					continue
				}
				c := colNames[k][x]
				if k == kF && c == "" && t.p(0.7) {
					continue
				}
				tot++
				switch k {
				case kF:
					v := make([]float64, n)
					for i := range v {
						v[i] = t.float()
						for (o.noNaN || o.clean) && v[i] != v[i] {
							v[i] = t.float()
						}
						if o.clean && math.IsInf(v[i], 0) {
							v[i] = float64(t.Intn(100)) / 8
						}
					}
					b.SetFloats(c, v)
				case kI:
					v := make([]int, n)
					for i := range v {
						v[i] = t.int()
					}
					b.SetInts(c, v)
				case kB:
					v := make([]bool, n)
					for i := range v {
						v[i] = t.p(0.5)
					}
					b.SetBools(c, v)
				case kO:
					v := make([]interface{}, n)
					for i := range v {
						v[i] = t.obj()
					}
					b.SetObjects(c, v)
				case kS:
					v := make([]interface{}, n)
					for i := range v {
						v[i] = t.str()
					}
					b.SetObjects(c, v).MarkAsString(c)
				}
			}
		}
		if o.cols != nil && len(o.cols) == 0 {
			break
		}
	}
	if t.p(0.3) {
		b.RawData.SetMaxCPU([]int{1, 2, 3, 100, -1, 0}[t.Intn(6)])
	}
	if t.p(0.2) {
		b = b.TextEncoding(charmap.Windows1252)
	}
	d := b.ToDataFrame()
	t.log("base rows=%d {%s}", n, schemaStr(kinds(d)))
	return d
}

// viewOp applies one random operation that derives a frame from d.
func (t *T) viewOp(d *df.DataFrame) *df.DataFrame {
	n := d.NumRows()
	ks := kinds(d)
	var ns []string
	for c := range ks {
		ns = append(ns, c)
	}
	ns = sorted(ns)
	switch t.Intn(17) {
	case 0, 1:
		x := t.randIdx(n)
		t.log("IndexView(%v)", x)
		return d.IndexView(x)
	case 2:
		t.log("ReverseView")
		return d.ReverseView()
	case 3:
		m := t.randMask(d)
		t.log("MaskView(%v)", m)
		return d.MaskView(m)
	case 4, 5:
		a, b := t.Intn(n+1), t.Intn(n+1)
		if t.p(0.6) && a > b {
			a, b = b, a
		}
		t.log("SliceView(%d,%d)", a, b)
		return d.SliceView(a, b)
	case 6:
		t.log("ResetIndexView")
		return d.ResetIndexView()
	case 7:
		var keep []string
		for _, c := range ns {
			if t.p(0.8) {
				keep = append(keep, c)
			}
		}
		if len(keep) == 0 {
			keep = ns
		}
		t.log("ColumnView(%q)", keep)
		return d.ColumnView(keep...)
	case 8:
		t.log("ShuffleView")
		return d.ShuffleView()
	case 9:
		t.log("View")
		return d.View()
	case 10:
		t.log("ShallowCopy")
		return d.ShallowCopy()
	case 11:
		t.log("Copy")
		return d.Copy()
	case 12:
		var det []string
		for _, c := range ns {
			if t.p(0.5) {
				det = append(det, c)
			}
		}
		t.log("DetachedView(%q)", det)
		return d.DetachedView(det...)
	case 13:
		if n > 200 {
			return d
		}
		t.log("RowConcat(self, self)")
		r, err := df.RowConcat(d, d)
		t.check(err == nil, "RowConcat of a frame with itself: %v", err)
		return r
	case 14:
		if len(ns) == 0 {
			return d
		}
		t.log("View+AllocFloats(af)+AllocStrings(as)")
		v := d.View()
		if _, ok := ks["af"]; !ok {
			v.AllocFloats("af")
		}
		if _, ok := ks["as"]; !ok {
			v.AllocStrings("as")
		}
		return v
	case 15:
		if len(ns) == 0 {
			return d
		}
		c := ns[t.Intn(len(ns))]
		nn := fmt.Sprintf("%s_r", c)
		if _, ok := ks[nn]; ok {
			return d
		}
		t.log("View+Rename(%q,%q)", c, nn)
		v := d.View()
		v.Rename(c, nn)
		return v
	case 16:
		if len(ns) < 2 {
			return d
		}
		c := ns[t.Intn(len(ns))]
		t.log("View+Drop(%q)", c)
		v := d.View()
		v.Drop(c)
		return v
	}
	return d
}

func (t *T) randIdx(n int) []int {
	if n == 0 {
		return []int{}
	}
	l := 0
	switch t.Intn(5) {
	case 0:
		l = 0
	case 1:
		l = n + t.Intn(n+2)
	default:
		l = t.Intn(n + 1)
	}
	x := make([]int, l)
	for i := range x {
		x[i] = t.Intn(n)
	}
	if t.p(0.3) {
		x = t.Perm(n)
	}
	return x
}

func (t *T) randMask(d *df.DataFrame) []bool {
	n := d.NumRows()
	var m []bool
	switch t.Intn(3) {
	case 0:
		m = d.ZeroMask()
		t.check(len(m) == n, "ZeroMask has %d entries for %d rows", len(m), n)
		for i := range m {
			t.check(!m[i], "ZeroMask entry %d is true", i)
		}
	case 1:
		m = d.EmptyMask()
		t.check(len(m) == n, "EmptyMask has %d entries for %d rows", len(m), n)
	default:
		m = make([]bool, n)
	}
	pr := t.Float64()
	for i := range m {
		m[i] = t.p(pr)
	}
	return m
}

// frame is a base frame put through a random history of operations.
func (t *T) frame(o genOpt) *df.DataFrame {
	d := t.base(o)
	if o.ops > 0 {
		for k := t.Intn(o.ops + 1); k > 0; k-- {
			e := t.viewOp(d)
			if o.minRows > 0 && e.NumRows() < o.minRows {
				continue
			}
			d = e
		}
	}
	return d
}

var encs = []encoding.Encoding{nil, charmap.Windows1252, charmap.ISO8859_1, charmap.CodePage437}

func pick(t *T, xs []string) string { return xs[t.Intn(len(xs))] }

func byKind(m map[string]kind, ks ...kind) []string {
	var r []string
	for c, k := range m {
		for _, w := range ks {
			if k == w {
				r = append(r, c)
			}
		}
	}
	return sorted(r)
}
