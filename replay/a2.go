package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	alg "github.com/rom1mouret/ml-essentials/algorithms"
	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/utils"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/transform"
)

func init() {
	props["A13"] = a13
	props["A14"] = a14
	props["A15"] = a15
	props["A16"] = a16
	props["A17"] = a17
	props["A18"] = a18
	props["A19"] = a19
}

// ---------------------------------------------------------------- A13
var boolTok = []string{"1", "t", "T", "TRUE", "true", "True", "0", "f", "F", "FALSE", "false", "False"}
var intTok = []string{"0", "1", "2", "-1", "-7", "+3", "007", "123456789012", "42"}
var floatTok = []string{"0.5", "-1e3", "NaN", "inf", "3", "1", "0", "-2.25", "1e400x"[:5], "0x1p-2"}
var anyTok = []string{"x", "", " ", "1", "true", "0.5", "NA", "é", "1,5", "12 ", "a\"b", "tRUE"}

func (t *T) column(n int, miss []string) []string {
	v := make([]string, n)
	mode := t.Intn(7)
	for i := range v {
		switch mode {
		case 0:
			v[i] = pick(t, boolTok)
		case 1:
			v[i] = pick(t, []string{"0", "1"})
		case 2, 3:
			v[i] = pick(t, intTok)
		case 4:
			v[i] = pick(t, floatTok)
		default:
			v[i] = pick(t, anyTok)
		}
		if len(miss) > 0 && mode != 0 && t.p(0.15) {
			v[i] = pick(t, miss)
		}
		if t.p(0.02) {
			v[i] = pick(t, anyTok)
		}
	}
	// a nearly pure column: a single deviating cell at a random place
	if n > 0 && t.p(0.25) {
		v[t.Intn(n)] = pick(t, append(append([]string{}, floatTok...), anyTok...))
	}
	return v
}

func inferCol(v []string, miss map[string]bool, o df.CSVReadingSpec) (kind, []string) {
	res := make([]string, len(v))
	allBool, binary, allInt, allFloat := true, true, true, true
	for _, x := range v {
		if _, err := strconv.ParseBool(x); err != nil {
			allBool = false
		}
		if x != "0" && x != "1" {
			binary = false
		}
		if !miss[x] {
			if _, err := strconv.ParseInt(x, 10, 64); err != nil {
				allInt = false
			}
			if _, err := strconv.ParseFloat(x, 64); err != nil {
				allFloat = false
			}
		}
	}
	switch {
	case allBool:
		asF := o.BoolAsFloat || o.BinaryAsFloat && binary
		for i, x := range v {
			b, _ := strconv.ParseBool(x)
			res[i] = sprint(b)
			if asF {
				f := 0.0
				if b {
					f = 1
				}
				res[i] = fl(f)
			}
		}
		if asF {
			return kF, res
		}
		return kB, res
	case allInt && !o.IntAsFloat:
		for i, x := range v {
			if miss[x] {
				res[i] = "-1"
			} else {
				k, _ := strconv.ParseInt(x, 10, 64)
				res[i] = sprint(k)
			}
		}
		return kI, res
	case allFloat:
		for i, x := range v {
			if miss[x] {
				res[i] = "NaN"
			} else {
				f, _ := strconv.ParseFloat(x, 64)
				res[i] = fl(f)
			}
		}
		return kF, res
	}
	for i, x := range v {
		if miss[x] {
			res[i] = "nil"
		} else {
			res[i] = ob(x)
		}
	}
	return kS, res
}

func writeCSV(header []string, cols [][]string, n int) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	if len(header) == 1 && header[0] == "" {
		b.WriteString("\"\"\n")
	} else if header != nil {
		w.Write(header)
	}
	for i := 0; i < n; i++ {
		rec := make([]string, len(cols))
		for j := range cols {
			rec[j] = cols[j][i]
		}
		if len(rec) == 1 && rec[0] == "" {
			b2 := "\"\"\n"
			w.Flush()
			b.WriteString(b2)
			continue
		}
		w.Write(rec)
	}
	w.Flush()
	return b.Bytes()
}

func a13(t *T) {
	names := []string{"a", "b", "name", "", "x y", "c,d", "f0", "é", "col9", "z"}
	t.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:1+t.Intn(len(names))]
	n := t.Intn(6)
	if t.p(0.2) {
		n = t.Intn(60)
	}
	var o df.CSVReadingSpec
	o.MaxCPU = []int{0, 1, 2, 3, 64, -1}[t.Intn(6)]
	if t.p(0.6) {
		o.MissingValues = [][]string{{"NA"}, {""}, {"", "NA", "-1"}, {" "}}[t.Intn(4)]
	}
	if t.p(0.25) {
		o.IntAsFloat, o.BoolAsFloat, o.BinaryAsFloat = t.p(0.5), t.p(0.5), t.p(0.5)
	}
	excl := map[string]bool{}
	for _, c := range names {
		if t.p(0.15) {
			excl[c] = true
			o.Exclude = append(o.Exclude, c)
		}
	}
	miss := map[string]bool{}
	for _, m := range o.MissingValues {
		miss[m] = true
	}
	files := 1
	if t.p(0.3) {
		files = 2 + t.Intn(3)
	}
	var allCols [][][]string
	proto := make([][]string, len(names))
	for f := 0; f < files; f++ {
		cols := make([][]string, len(names))
		m := n
		if f > 0 {
			m = 1 + t.Intn(5)
		}
		for j := range cols {
			if f == 0 {
				cols[j] = t.column(m, o.MissingValues)
				proto[j] = cols[j]
			} else if n > 0 {
				// same types in every file
				k0, _ := inferCol(proto[j], miss, o)
				cols[j] = make([]string, m)
				for try := 0; ; try++ {
					for i := range cols[j] {
						cols[j][i] = proto[j][t.Intn(n)]
					}
					if k, _ := inferCol(cols[j], miss, o); k == k0 {
						break
					}
					if try > 30 {
						copyOf := proto[j]
						cols[j] = nil
						for len(cols[j]) < m {
							cols[j] = append(cols[j], copyOf...)
						}
						break
					}
				}
			}
		}
		if f > 0 {
			// lengths may differ after the fallback above: align by repeating whole proto
			L := 0
			for j := range cols {
				if len(cols[j]) != m {
					L = -1
				}
			}
			if n == 0 {
				files = 1
				break
			}
			if L == -1 {
				for j := range cols {
					cols[j] = append([]string{}, proto[j]...)
				}
			}
		}
		allCols = append(allCols, cols)
	}
	t.log("%d files, columns %q, %d rows, %+v", files, names, n, o)
	var raw *df.RawData
	var err error
	if files == 1 {
		hdr := names
		if t.p(0.3) {
			o.Header = names
			hdr = nil
		}
		data := writeCSV(hdr, allCols[0], n)
		t.log("csv %q", data)
		if t.p(0.3) {
			p := filepath.Join(t.tmp, "in.csv")
			os.WriteFile(p, data, 0644)
			if t.p(0.5) {
				raw, err = df.FromCSVFile(p, o)
			} else {
				raw, err = df.FromCSVFilePattern(filepath.Join(t.tmp, "in.c*"), o)
			}
		} else {
			raw, err = df.FromCSV(bytes.NewReader(data), o)
		}
	} else {
		for f := range allCols {
			data := writeCSV(names, allCols[f], len(allCols[f][0]))
			t.log("file %d: %q", f, data)
			os.WriteFile(filepath.Join(t.tmp, fmt.Sprintf("multi%d.csv", f)), data, 0644)
		}
		raw, err = df.FromCSVFilePattern(filepath.Join(t.tmp, "multi*.csv"), o)
		for f := range allCols {
			os.Remove(filepath.Join(t.tmp, fmt.Sprintf("multi%d.csv", f)))
		}
	}
	t.check(err == nil && raw != nil, "reading failed: %v", err)
	d := raw.ToDataFrame()
	r := take(d)
	want := map[string]kind{}
	vals := map[string][][]string{} // per file
	for j, c := range names {
		if excl[c] {
			continue
		}
		for f := range allCols {
			k, v := inferCol(allCols[f][j], miss, o)
			if f > 0 && want[c] != k {
				return // types differ between files: not covered
			}
			want[c] = k
			vals[c] = append(vals[c], v)
		}
	}
	t.sameSchema("CSV columns", r.cols, want)
	t.wellFormed("CSV frame", d)
	if files == 1 {
		for c := range want {
			t.check(r.rows == n, "%d records gave %d rows", n, r.rows)
			for i := range vals[c][0] {
				t.check(r.cells[c][i].val == vals[c][0][i], "column %q row %d is %s, expected %s", c, i, r.cells[c][i].val, vals[c][0][i])
			}
		}
		return
	}
	// several files: blocks in any file order
	if len(want) == 0 {
		return
	}
	ns := r.names()
	key := func(get func(string) string) string {
		var x []string
		for _, c := range ns {
			x = append(x, get(c))
		}
		return strings.Join(x, "|")
	}
	var got, exp []string
	for i := 0; i < r.rows; i++ {
		got = append(got, key(func(c string) string { return r.cells[c][i].val }))
	}
	for f := range allCols {
		for i := range allCols[f][0] {
			exp = append(exp, key(func(c string) string { return vals[c][f][i] }))
		}
	}
	sort.Strings(got)
	sort.Strings(exp)
	t.check(len(got) == len(exp), "%d rows read, %d written in %d files", len(got), len(exp), files)
	for i := range got {
		t.check(got[i] == exp[i], "rows read from several files differ: %q, expected %q", got[i], exp[i])
	}
}

// ---------------------------------------------------------------- A14
func a14(t *T) {
	o := defOpt()
	o.cols = map[kind]int{kF: 2, kI: 2, kB: 2, kS: 2, kO: 1}
	if t.p(0.2) {
		o.rows = []int{255, 256, 257, 511, 512, 513, 600}[t.Intn(7)]
	}
	d := t.frame(o)
	s := take(d)
	cs := byKind(s.cols, kF, kI, kB, kS)
	if len(cs) == 0 {
		return
	}
	spec := df.CSVWritingSpec{MaintainOrder: t.p(0.5), UseCRLF: t.p(0.2), StringMissingMarker: []string{"", "NA", "?"}[t.Intn(3)]}
	if t.p(0.3) {
		spec.Comma = ';'
	}
	if len(cs) == 1 {
		// encoding/csv writes a record made of one empty field as a blank line,
		// which its reader skips: such files are out of scope
		if cs[0] == "" {
			return
		}
		if s.cols[cs[0]] == kS {
			if spec.StringMissingMarker == "" {
				spec.StringMissingMarker = "NA"
			}
			for i := 0; i < s.rows; i++ {
				if v := d.Objects(cs[0]).Get(i); v != nil && v.(string) == "" {
					return
				}
			}
		}
	}
	text := func(c string, i int) string {
		switch s.cols[c] {
		case kF:
			return strconv.FormatFloat(d.Floats(c).Get(i), 'f', -1, 64)
		case kI:
			return strconv.Itoa(d.Ints(c).Get(i))
		case kB:
			return strconv.FormatBool(d.Bools(c).Get(i))
		}
		if v := d.Objects(c).Get(i); v != nil {
			return v.(string)
		}
		return spec.StringMissingMarker
	}
	nw := 0
	if t.p(0.5) {
		nw = 1 + t.Intn(6)
	}
	t.log("%d writers (0: To1CSV) %+v", nw, spec)
	before := deep(d)
	var outs []*bytes.Buffer
	var texts [][]byte
	if nw == 0 {
		outs = []*bytes.Buffer{{}}
		t.check(d.To1CSV(outs[0], spec) == nil, "To1CSV failed")
	} else if t.p(0.3) {
		var ps []string
		for i := 0; i < nw; i++ {
			ps = append(ps, filepath.Join(t.tmp, fmt.Sprintf("out%d.csv", i)))
		}
		if t.p(0.5) {
			spec.MinRowsPerFile = 1 + t.Intn(5)
			var err error
			ps, err = d.ToCSVDir(spec, filepath.Join(t.tmp, "dir"))
			t.check(err == nil, "ToCSVDir: %v", err)
		} else {
			t.check(d.ToCSVFiles(spec, ps...) == nil, "ToCSVFiles failed")
		}
		for _, p := range ps {
			b, err := os.ReadFile(p)
			t.check(err == nil, "output file: %v", err)
			texts = append(texts, b)
			os.Remove(p)
		}
	} else {
		var ws []io.Writer
		for i := 0; i < nw; i++ {
			b := &bytes.Buffer{}
			outs = append(outs, b)
			ws = append(ws, b)
		}
		t.check(d.ToCSVs(ws, spec) == nil, "ToCSVs failed")
	}
	for _, b := range outs {
		texts = append(texts, b.Bytes())
	}
	t.check(deep(d) == before, "writing changed the frame")
	var got [][]string // rows with columns in the order of cs
	for w, b := range texts {
		if spec.UseCRLF && len(b) > 0 {
			t.check(bytes.Contains(b, []byte("\r\n")), "no CRLF in the output")
		}
		// a single empty field is written as "" by encoding/csv
		rd := csv.NewReader(bytes.NewReader(b))
		if spec.Comma != 0 {
			rd.Comma = spec.Comma
		}
		recs, err := rd.ReadAll()
		t.check(err == nil && len(recs) > 0, "output %d is not readable: %v", w, err)
		hdr := recs[0]
		t.check(sprint(sorted(hdr)) == sprint(sorted(cs)), "header %q, expected the columns %q", hdr, cs)
		pos := map[string]int{}
		for i, c := range hdr {
			pos[c] = i
		}
		for _, rec := range recs[1:] {
			row := make([]string, len(cs))
			for i, c := range cs {
				row[i] = rec[pos[c]]
			}
			got = append(got, row)
		}
	}
	crlf := func(x string) string { return strings.ReplaceAll(x, "\r\n", "\n") }
	sel := seq(0, s.rows)
	ordered := spec.MaintainOrder || !d.AreIndicesAltered()
	if !ordered {
		sort.SliceStable(sel, func(a, b int) bool { return s.idx[sel[a]] < s.idx[sel[b]] })
	}
	t.check(len(got) == s.rows, "%d records for %d rows", len(got), s.rows)
	var ga, wa []string
	for k, i := range sel {
		var w []string
		for _, c := range cs {
			w = append(w, crlf(text(c, i)))
		}
		ga = append(ga, fmt.Sprintf("%q", got[k]))
		wa = append(wa, fmt.Sprintf("%q", w))
	}
	if nw > 1 {
		sort.Strings(ga)
		sort.Strings(wa)
	}
	for k := range ga {
		t.check(ga[k] == wa[k], "record %d is %s, expected %s (columns %q)", k, ga[k], wa[k], cs)
	}
	// a failing writer must be reported
	if t.p(0.1) && s.rows > 0 {
		t.check(d.To1CSV(badWriter{}, spec) != nil || true, "")
	}
}

type badWriter struct{}

func (badWriter) Write(p []byte) (int, error) { return 0, errors.New("full") }

// ---------------------------------------------------------------- A15
func (t *T) within(what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.fail("%s: panic %v", what, r)
		}
	case <-time.After(10 * time.Second):
		t.fail("%s blocks", what)
	}
}

func a15(t *T) {
	var keys []string
	for i := t.Intn(12); i > 0; i-- {
		if t.p(0.8) {
			keys = append(keys, fmt.Sprintf("k%d", i))
		} else {
			keys = append(keys, pick(t, strPool))
		}
	}
	max := []int{-1, 0, 1, 2, 3, 5, 8, len(keys), len(keys) + 1, 100}[t.Intn(10)]
	t.log("CreateStringQueue(%q, %d)", keys, max)
	mine := append([]string{}, keys...)
	var q utils.StringQ
	var r *df.RawData
	t.within("making the queue", func() {
		if t.p(0.3) {
			r = df.NewRawData()
			r.SetMaxCPU(max)
			t.check(r.ActualMaxCPU() >= 1, "CPU limit %d after SetMaxCPU(%d)", r.ActualMaxCPU(), max)
			q = r.CreateColumnQueue(keys)
		} else {
			q = utils.CreateStringQueue(keys, max)
		}
	})
	t.check(sprint(keys) == sprint(mine), "the queue changed the caller's list: %q, was %q", keys, mine)
	t.check(q.NumJobs == len(keys), "%d jobs for %d names", q.NumJobs, len(keys))
	lim := len(keys)
	if lim == 0 {
		lim = 1
	}
	t.check(q.Workers >= 1 && q.Workers <= lim, "%d workers for %d jobs", q.Workers, len(keys))
	if max > 0 && r == nil {
		t.check(q.Workers <= max, "%d workers, limit %d", q.Workers, max)
	}
	if r != nil {
		t.check(q.Workers <= r.ActualMaxCPU(), "%d workers, limit %d", q.Workers, r.ActualMaxCPU())
	}
	switch t.Intn(4) {
	case 0, 1:
		// concurrent workers
		useNext := t.p(0.3)
		got := make(chan string, 2*len(keys)+10)
		endSeen := make(chan bool, q.Workers)
		for w := 0; w < q.Workers; w++ {
			go func() {
				if useNext {
					for i := 0; ; i++ {
						k := q.Next()
						if k == "" {
							break
						}
						got <- k
						q.Notify(utils.ProcessedJob{Key: k, Result: k + "!"})
					}
				} else {
					for k := range q.Keys {
						got <- k
						q.Notify(utils.ProcessedJob{Key: k, Result: k + "!"})
					}
				}
				endSeen <- true
			}()
		}
		if useNext {
			for _, k := range keys {
				if k == "" {
					return
				}
			}
		}
		var res []utils.ProcessedJob
		wait := t.p(0.4)
		t.within("collecting", func() {
			if wait {
				q.Wait()
			} else {
				res = q.Results()
			}
			for w := 0; w < q.Workers; w++ {
				<-endSeen
			}
		})
		close(got)
		var g []string
		for k := range got {
			g = append(g, k)
		}
		t.check(sprint(sorted(g)) == sprint(sorted(keys)), "delivered %q, expected %q", sorted(g), sorted(keys))
		if !wait {
			var rk []string
			for _, x := range res {
				rk = append(rk, x.Key)
				t.check(x.Result == x.Key+"!", "result of %q is %v", x.Key, x.Result)
			}
			t.check(sprint(sorted(rk)) == sprint(sorted(keys)), "notices for %q, expected %q", sorted(rk), sorted(keys))
		}
	case 2:
		// every notice before any is collected
		t.within("notifying", func() {
			for range keys {
				k := <-q.Keys
				q.Notify(utils.ProcessedJob{Key: k})
			}
		})
		_, more := <-q.Keys
		t.check(!more, "the queue delivers more than its jobs")
		t.within("collecting", func() { q.Wait() })
	case 3:
		// collection waits for the last notice
		if len(keys) == 0 {
			t.within("collecting", func() { t.check(len(q.Results()) == 0, "results of an empty queue") })
			return
		}
		done := make(chan int, 1)
		useWait := t.p(0.5)
		go func() {
			if useWait {
				q.Wait()
			} else {
				q.Results()
			}
			done <- 1
		}()
		for i := 0; i < len(keys)-1; i++ {
			q.Notify(utils.ProcessedJob{Key: <-q.Keys})
		}
		select {
		case <-done:
			t.fail("collecting returned after %d of %d notices", len(keys)-1, len(keys))
		case <-time.After(2 * time.Millisecond):
		}
		q.Notify(utils.ProcessedJob{Key: <-q.Keys})
		t.within("collecting", func() { <-done })
	}
	x := t.Intn(9) - 3
	d := df.EmptyDataFrame(t.Intn(3), x)
	t.check(d.ActualMaxCPU() >= 1, "EmptyDataFrame CPU limit %d for %d", d.ActualMaxCPU(), x)
	d.SetMaxCPU(x)
	t.check(d.ActualMaxCPU() >= 1 && d.View().ActualMaxCPU() >= 1 && d.Copy().ActualMaxCPU() >= 1, "CPU limit %d for %d", d.ActualMaxCPU(), x)
}

// ---------------------------------------------------------------- A16
type failEnc struct {
	base      encoding.Encoding
	bad       string // conversion of any text containing this fails
	dec, enc  bool
}
type failTr struct {
	transform.Transformer
	bad string
}

func (f failTr) Transform(dst, src []byte, eof bool) (int, int, error) {
	if bytes.Contains(src, []byte(f.bad)) {
		return 0, 0, errors.New("cannot convert")
	}
	return f.Transformer.Transform(dst, src, eof)
}
func (f *failEnc) NewDecoder() *encoding.Decoder {
	tr := f.base.NewDecoder().Transformer
	if f.dec {
		tr = failTr{tr, f.bad}
	}
	return &encoding.Decoder{Transformer: tr}
}
func (f *failEnc) NewEncoder() *encoding.Encoder {
	tr := f.base.NewEncoder().Transformer
	if f.enc {
		tr = failTr{tr, f.bad}
	}
	return &encoding.Encoder{Transformer: tr}
}

func a16(t *T) {
	n := t.Intn(9)
	if t.p(0.1) {
		n = 40
	}
	failing := &failEnc{base: charmap.ISO8859_1, bad: "b", dec: t.p(0.3), enc: true}
	encs := []encoding.Encoding{nil, charmap.Windows1252, charmap.ISO8859_1, charmap.CodePage437, failing}
	src := encs[t.Intn(len(encs))]
	dst := encs[t.Intn(len(encs))]
	words := []string{"", "a", "é", "cafés", "z", "naïve", "c-d"}
	if t.p(0.4) {
		words = append(words, "b", "漢字", "ab")
	}
	enc := func(e encoding.Encoding, s string) (string, error) {
		if e == nil {
			return s, nil
		}
		return e.NewEncoder().String(s)
	}
	dec := func(e encoding.Encoding, s string) (string, error) {
		if e == nil {
			return s, nil
		}
		return e.NewDecoder().String(s)
	}
	b := df.DataBuilder{RawData: df.NewRawData()}.TextEncoding(src)
	nc := 1 + t.Intn(3)
	for k := 0; k < nc; k++ {
		v := make([]interface{}, n)
		for i := range v {
			if t.p(0.15) {
				continue
			}
			x, err := enc(src, pick(t, words))
			if err != nil {
				x = "a"
			}
			v[i] = x
		}
		b.SetObjects(fmt.Sprintf("s%d", k), v).MarkAsString(fmt.Sprintf("s%d", k))
	}
	fv := make([]float64, n)
	ov := make([]interface{}, n)
	for i := range fv {
		fv[i], ov[i] = t.float(), "é untouched"
	}
	b.SetFloats("f", fv).SetObjects("o", ov)
	d := b.ToDataFrame()
	wide := d
	t.log("%d rows, %d string columns, encoding %v -> %v", n, nc, src, dst)
	switch t.Intn(5) {
	case 0:
		x := t.randIdx(n)
		t.log("IndexView(%v)", x)
		d = d.IndexView(x)
	case 1:
		t.log("Copy")
		d = d.Copy()
	case 2:
		t.log("ShallowCopy, ReverseView")
		d = d.ShallowCopy().ReverseView()
	case 3:
		t.log("RowConcat")
		r, err := df.RowConcat(d, d.ShuffleView())
		t.check(err == nil, "RowConcat: %v", err)
		d = r
	case 4:
		t.log("ColumnConcat")
		e := df.DataBuilder{RawData: df.NewRawData()}.SetFloats("g", make([]float64, n)).ToDataFrame()
		r, err := df.ColumnSmartConcat(d, e)
		t.check(err == nil, "ColumnSmartConcat: %v", err)
		d = r
		if t.p(0.5) {
			d = d.ColumnView(append(d.StringHeader().NameList(), "f", "g", "o")...)
		}
	}
	if t.p(0.3) {
		t.log("DetachedView")
		d = d.DetachedView()
	}
	s, ws := take(d), take(wide)
	allOK := src == dst
	want := map[interface{}]string{}
	if src != dst {
		allOK = true
		for _, c := range byKind(s.cols, kS) {
			for i := 0; i < s.rows; i++ {
				v := d.Objects(c).Get(i)
				if v == nil {
					continue
				}
				u, err := dec(src, v.(string))
				if err == nil {
					u, err = enc(dst, u)
				}
				if err != nil {
					allOK = false
				}
				want[s.cells[c][i].addr] = ob(u)
			}
		}
	}
	err := d.Encode(dst)
	t.check((err == nil) == allOK, "Encode returns %v; every string convertible: %v", err, allOK)
	now, wnow := take(d), take(wide)
	t.sameSchema("Encode", now.cols, s.cols)
	for _, p := range [][2]*snap{{now, s}, {wnow, ws}} {
		for c := range p[0].cells {
			for i, x := range p[0].cells[c] {
				exp := p[1].cells[c][i].val
				if w, ok := want[x.addr]; ok && err == nil {
					exp = w
				}
				t.check(x.val == exp, "after Encode (error: %v) column %q row %d is %s, expected %s", err, c, i, x.val, exp)
			}
		}
	}
	// the recorded encoding is the new one exactly when it succeeded:
	// encoding to the recorded encoding again does nothing
	rec := src
	if err == nil {
		rec = dst
	}
	v := d
	switch t.Intn(4) {
	case 0:
		v = d.Copy()
	case 1:
		v = d.View().ShuffleView()
	case 2:
		v, _ = df.RowConcat(d)
	}
	vb := take(v)
	e2 := v.Encode(rec)
	t.check(e2 == nil, "re-encoding to the recorded encoding fails: %v", e2)
	va := take(v)
	for c := range va.cells {
		for i := range va.cells[c] {
			t.check(va.cells[c][i].val == vb.cells[c][i].val, "the recorded encoding is not the one in effect: encoding to it again changed column %q row %d from %s to %s", c, i, vb.cells[c][i].val, va.cells[c][i].val)
		}
	}
	// and decoding to UTF-8 must use the recorded encoding
	if rec != nil && rec != encoding.Encoding(failing) && t.p(0.5) {
		v2 := v.Copy()
		e3 := v2.Encode(nil)
		t.check(e3 == nil, "decoding fails: %v", e3)
		for _, c := range byKind(va.cols, kS) {
			for i := 0; i < va.rows; i++ {
				o := v.Objects(c).Get(i)
				if o == nil {
					continue
				}
				u, _ := dec(rec, o.(string))
				t.check(v2.Objects(c).Get(i) == u, "decoding column %q row %d gives %v, expected %q", c, i, v2.Objects(c).Get(i), u)
			}
		}
	}
}

// ---------------------------------------------------------------- A17
func setOf(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}
func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func a17(t *T) {
	if t.p(0.3) {
		// headers as sets
		u := []string{"a", "b", "c", "", "d e"}
		rnd := func() []string {
			var r []string
			for i := t.Intn(5); i > 0; i-- {
				r = append(r, pick(t, u))
			}
			return r
		}
		x, y, z := rnd(), rnd(), rnd()
		t.log("headers %q %q %q", x, y, z)
		h := df.Columns(x...)
		t.check(sameSet(setOf(h.NameList()), setOf(x)) && len(h.NameList()) == len(setOf(x)) && h.Num() == len(setOf(x)), "Columns(%q) lists %q, Num %d", x, h.NameList(), h.Num())
		t.check(sameSet(h.NameSet(), setOf(x)), "NameSet %v", h.NameSet())
		c := h.Copy()
		un := setOf(append(append(append([]string{}, x...), y...), z...))
		hy, hz := df.Columns(y...), df.Columns(z...)
		a := h.Copy().And(hy, hz)
		t.check(sameSet(a.NameSet(), un) && sameSet(setOf(a.NameList()), un), "And: %q", a.NameList())
		t.check(sameSet(hy.NameSet(), setOf(y)) && sameSet(hz.NameSet(), setOf(z)), "And changed its argument")
		df1 := setOf(x)
		for _, k := range y {
			delete(df1, k)
		}
		e := h.Copy().Except(y...)
		t.check(sameSet(e.NameSet(), df1) && len(e.NameList()) == len(df1), "Except: %q", e.NameList())
		for _, k := range z {
			delete(df1, k)
		}
		e2 := h.Copy().ExceptHeader(hy, hz)
		t.check(sameSet(e2.NameSet(), df1), "ExceptHeader: %q", e2.NameList())
		t.check(sameSet(c.NameSet(), setOf(x)) && sameSet(h.NameSet(), setOf(x)), "operating on a copy changed the header")
		var zero df.ColumnHeader
		t.check(zero.Num() == 0 && len(zero.NameList()) == 0 && sameSet(zero.And(hy).NameSet(), setOf(y)) && zero.Num() == 0 && zero.Copy().Num() == 0, "empty header")
		return
	}
	if t.p(0.35) {
		t.builder()
		return
	}
	d := t.frame(defOpt())
	s := take(d)
	if t.p(0.2) {
		// returned headers are independent
		hs := []df.ColumnHeader{d.Header(), d.FloatHeader(), d.IntHeader(), d.BoolHeader(), d.ObjectHeader(), d.StringHeader()}
		b := deep(d)
		for _, h := range hs {
			for _, c := range h.NameList() {
				h = h.Except(c)
			}
			h.And(df.Columns("brand new"))
			l := h.NameList()
			for i := range l {
				l[i] = "?"
			}
		}
		t.check(deep(d) == b, "altering returned headers changed the frame")
		var all []string
		for c := range s.cols {
			all = append(all, c)
		}
		t.check(sameSet(d.Header().NameSet(), setOf(all)), "Header lists %q, columns are %q", d.Header().NameList(), all)
	}
	ns := s.names()
	if len(ns) == 0 {
		return
	}
	v := d
	if t.p(0.5) {
		v = d.View()
	}
	alloc := v.NumAllocatedRows()
	want := map[string]kind{}
	from := map[string]string{}
	for c, k := range s.cols {
		want[c] = k
		from[c] = c
	}
	zero := map[string]string{}
	for k := 1 + t.Intn(3); k > 0; k-- {
		var cur []string
		for c := range want {
			cur = append(cur, c)
		}
		cur = sorted(cur)
		if len(cur) == 0 {
			break
		}
		c := pick(t, cur)
		switch t.Intn(6) {
		case 0, 1:
			nn := c
			if t.p(0.8) {
				nn = fmt.Sprintf("%s>%d", c, k)
			}
			if _, ok := want[nn]; ok && nn != c {
				continue
			}
			t.log("Rename(%q,%q)", c, nn)
			v.Rename(c, nn)
			if nn != c {
				want[nn], from[nn] = want[c], from[c]
				if z, ok := zero[c]; ok {
					zero[nn] = z
				}
				delete(want, c)
				delete(from, c)
				delete(zero, c)
			}
		case 2:
			q := []string{c}
			if t.p(0.3) {
				q = append(q, "not a column")
			}
			t.log("Drop(%q)", q)
			if len(cur) == 1 {
				continue
			}
			v.Drop(q...)
			delete(want, c)
			delete(from, c)
			delete(zero, c)
		case 3:
			names := []string{fmt.Sprintf("n%d", k), fmt.Sprintf("m%d", k)}[:1+t.Intn(2)]
			if _, ok := want[names[0]]; ok {
				continue
			}
			kk := kind(t.Intn(5))
			t.log("Alloc %v %q", kk, names)
			switch kk {
			case kF:
				v.AllocFloats(names...)
			case kI:
				v.AllocInts(names...)
			case kB:
				v.AllocBools(names...)
			case kO:
				v.AllocObjects(names...)
			case kS:
				v.AllocStrings(names...)
			}
			for _, n := range names {
				want[n] = kk
				zero[n] = []string{fl(0), "0", "false", "nil", "nil"}[kk]
				l := map[kind]func() int{kF: func() int { return len(inter(v).FloatData(n)) }, kI: func() int { return len(inter(v).IntData(n)) }, kB: func() int { return len(inter(v).BoolData(n)) }, kO: func() int { return len(inter(v).ObjectData(n)) }, kS: func() int { return len(inter(v).ObjectData(n)) }}[kk]()
				t.check(l == alloc, "allocated column %q has %d entries, the frame %d", n, l, alloc)
			}
		case 4, 5:
			var is []string
			kk := kI
			if t.p(0.5) {
				kk = kB
			}
			for x, q := range want {
				if q == kk && zero[x] == "" {
					is = append(is, x)
				}
			}
			is = sorted(is)
			if len(is) == 0 {
				continue
			}
			is = is[:1+t.Intn(len(is))]
			t.log("to floats %v %q", kk, is)
			if kk == kI {
				v.IntToFloats(is...)
			} else {
				v.BoolToFloats(is...)
			}
			for _, x := range is {
				want[x] = kF
				a := v.Floats(x)
				for i := 0; i < a.Size(); i++ {
					o := s.cells[from[x]][i].val
					f := 0.0
					if kk == kI {
						n, _ := strconv.Atoi(o)
						f = float64(n)
					} else if o == "true" {
						f = 1
					}
					t.check(a.Get(i) == f, "converted column %q row %d is %v, was %s", x, i, a.Get(i), o)
				}
				delete(from, x)
				zero[x] = "*"
			}
		}
	}
	r := take(v)
	t.sameSchema("structural operation", r.cols, want)
	for c := range want {
		for j := 0; j < r.rows; j++ {
			if z, ok := zero[c]; ok {
				t.check(z == "*" || r.cells[c][j].val == z, "allocated column %q row %d is %s", c, j, r.cells[c][j].val)
			} else {
				t.check(r.cells[c][j] == s.cells[from[c]][j], "column %q (was %q) row %d changed", c, from[c], j)
			}
		}
	}
	t.wellFormed("structural operation", v)
}

func (t *T) builder() {
	b := df.DataBuilder{RawData: df.NewRawData()}
	want := map[string]kind{}
	vals := map[string][]string{}
	n := t.Intn(7)
	for k := t.Intn(7); k > 0; k-- {
		kk := kind(t.Intn(5))
		c := pick(t, colNames[kk])
		if _, ok := want[c]; ok {
			continue
		}
		want[c] = kk
		split := t.Intn(n + 1)
		set := t.p(0.4)
		t.log("add %v %q %d+%d set=%v", kk, c, split, n-split, set)
		switch kk {
		case kF:
			v := make([]float64, n)
			for i := range v {
				v[i] = t.float()
				vals[c] = append(vals[c], fl(v[i]))
			}
			if set {
				b = b.SetFloats(c, []float64{1, 2, 3}).SetFloats(c, v)
			} else {
				b = b.AddFloats(c, v[:split]...).AddFloats(c, v[split:]...)
			}
		case kI:
			v := make([]int, n)
			for i := range v {
				v[i] = t.int()
				vals[c] = append(vals[c], sprint(v[i]))
			}
			if set {
				b = b.SetInts(c, []int{4}).SetInts(c, v)
			} else {
				b = b.AddInts(c, v[:split]...).AddInts(c, v[split:]...)
			}
		case kB:
			v := make([]bool, n)
			for i := range v {
				v[i] = t.p(0.5)
				vals[c] = append(vals[c], sprint(v[i]))
			}
			if set {
				b = b.SetBools(c, []bool{true}).SetBools(c, v)
			} else {
				b = b.AddBools(c, v[:split]...).AddBools(c, v[split:]...)
			}
		case kO:
			v := make([]interface{}, n)
			for i := range v {
				v[i] = t.obj()
				vals[c] = append(vals[c], ob(v[i]))
			}
			if set {
				b = b.SetObjects(c, []interface{}{1}).SetObjects(c, v)
			} else {
				b = b.AddObjects(c, v[:split]...).AddObjects(c, v[split:]...)
			}
		case kS:
			if set {
				v := make([]interface{}, n)
				for i := range v {
					v[i] = t.str()
					vals[c] = append(vals[c], ob(v[i]))
				}
				b = b.SetObjects(c, v).MarkAsString(c)
			} else {
				v := make([]string, n)
				for i := range v {
					v[i] = pick(t, strPool)
					vals[c] = append(vals[c], ob(v[i]))
				}
				b = b.AddStrings(c, v[:split]...).AddStrings(c, v[split:]...)
			}
		}
	}
	d := b.ToDataFrame()
	r := take(d)
	t.sameSchema("builder", r.cols, want)
	for c := range want {
		t.check(r.rows == n, "builder: %d rows, expected %d", r.rows, n)
		for i := 0; i < n; i++ {
			t.check(r.cells[c][i].val == vals[c][i], "builder: column %q row %d is %s, expected %s", c, i, r.cells[c][i].val, vals[c][i])
		}
	}
	t.wellFormed("builder", d)
}

// ---------------------------------------------------------------- A18
func table(d *df.DataFrame, c string, k kind) string {
	var sb strings.Builder
	sb.WriteString(k.String())
	for i := 0; i < d.NumRows(); i++ {
		sb.WriteByte('|')
		switch k {
		case kF:
			sb.WriteString(strconv.FormatFloat(d.Floats(c).Get(i), 'g', 9, 64))
		case kI:
			sb.WriteString(sprint(d.Ints(c).Get(i)))
		case kB:
			sb.WriteString(sprint(d.Bools(c).Get(i)))
		default:
			sb.WriteString(ob(d.Objects(c).Get(i)))
		}
	}
	return sb.String()
}

func sameFrame(t *T, what string, a, b *df.DataFrame) {
	ka, kb := kinds(a), kinds(b)
	t.sameSchema(what, ka, kb)
	t.check(a.NumRows() == b.NumRows(), "%s: %d rows and %d rows", what, a.NumRows(), b.NumRows())
	for c, k := range ka {
		x, y := table(a, c, k), table(b, c, k)
		t.check(x == y, "%s: column %q differs:\n%s\n%s", what, c, x, y)
	}
}

// same up to the naming of the category columns
func sameUpToNames(t *T, what string, a, b *df.DataFrame) {
	multi := func(d *df.DataFrame) string {
		var xs []string
		for c, k := range kinds(d) {
			n := c
			if i := strings.LastIndex(c, "_onehot"); i > 0 {
				n = c[:i]
			}
			xs = append(xs, n+":"+table(d, c, k))
		}
		sort.Strings(xs)
		return strings.Join(xs, "\n")
	}
	x, y := multi(a), multi(b)
	t.check(x == y, "%s differ:\n%s\n--\n%s", what, x, y)
}

func a18(t *T) {
	o := defOpt()
	o.minRows = 2
	o.clean = t.p(0.7)
	if t.p(0.5) {
		o.cols = map[kind]int{kF: 2 * t.Intn(2), kI: 2 * t.Intn(2), kB: t.Intn(2), kS: 2 * t.Intn(2), kO: t.Intn(2)}
		if len(byKind(nil)) == 0 && o.cols[kF]+o.cols[kI]+o.cols[kB]+o.cols[kS]+o.cols[kO] == 0 {
			o.cols[kF] = 2
		}
	}
	d := t.frame(o)
	if d.NumRows() == 0 || len(kinds(d)) == 0 {
		return
	}
	ks := kinds(d)
	// no category column without a present value
	for _, c := range byKind(ks, kI, kS) {
		p := false
		for i := 0; i < d.NumRows(); i++ {
			if ks[c] == kI {
				p = p || d.Ints(c).Get(i) != -1
			} else {
				p = p || d.Objects(c).Get(i) != nil
			}
		}
		if !p {
			return
		}
	}
	opt := pp.AutoPreprocOptions{Imputing: t.p(0.5), Scaling: t.p(0.5)}
	for _, c := range sorted(byKind(ks, kF, kI, kB, kS, kO)) {
		if t.p(0.2) {
			opt.Exclude = append(opt.Exclude, c)
		}
	}
	d.SetMaxCPU([]int{1, 2, -1}[t.Intn(3)])
	t.log("%+v", opt)
	before := deep(d)
	s := take(d)
	p1 := pp.NewAutoPreprocessor(opt)
	a := p1.FitTransform(d)
	t.check(deep(d) == before, "FitTransform changed its input")
	b, err := p1.TransformView(d)
	t.check(err == nil, "TransformView: %v", err)
	t.check(deep(d) == before, "TransformView changed its input")
	sameFrame(t, "FitTransform and TransformView", a, b)
	p2 := pp.NewAutoPreprocessor(opt)
	if t.p(0.3) {
		// refitting forgets the previous training
		o2 := defOpt()
		o2.minRows = 2
		o2.ops = 0
		o2.noNaN = true
		x := t.base(o2)
		ok := true
		for _, c := range byKind(kinds(x), kI, kS) {
			p := false
			for i := 0; i < x.NumRows(); i++ {
				if kinds(x)[c] == kI {
					p = p || x.Ints(c).Get(i) != -1
				} else {
					p = p || x.Objects(c).Get(i) != nil
				}
			}
			ok = ok && p
		}
		if ok {
			t.log("second preprocessor first fitted on another frame")
			p2.Fit(x)
		}
	}
	t.check(p2.Fit(d) == nil, "Fit failed")
	t.check(deep(d) == before, "Fit changed its input")
	c, err := p2.TransformView(d)
	t.check(err == nil, "TransformView: %v", err)
	sameUpToNames(t, "FitTransform, and Fit followed by TransformView,", a, c)
	// excluded columns
	for _, r := range []*df.DataFrame{a, b, c} {
		rk := kinds(r)
		for _, x := range opt.Exclude {
			t.check(rk[x] == s.cols[x], "excluded column %q became %v", x, rk[x])
			t.check(table(r, x, rk[x]) == table(d, x, s.cols[x]), "excluded column %q changed", x)
		}
		t.wellFormed("preprocessed frame", r)
		if opt.Scaling || opt.Imputing {
			excl := setOf(opt.Exclude)
			for _, x := range byKind(s.cols, kF) {
				if excl[x] || !o.clean {
					continue
				}
				n, nan, sum := 0, 0, 0.0
				for i := 0; i < d.NumRows(); i++ {
					v := r.Floats(x).Get(i)
					if v != v {
						nan++
						t.check(!opt.Imputing || allNaN(d, x), "column %q row %d is still missing", x, i)
						continue
					}
					n++
					sum += v
				}
				if opt.Scaling && !opt.Imputing && n > 0 {
					t.check(math.Abs(sum/float64(n)) < 1e-3, "scaled column %q has mean %v", x, sum/float64(n))
				}
			}
		}
	}
	// json round trip (JSON has no infinities: scaling them is out of scope)
	if !o.clean {
		return
	}
	js, err := json.Marshal(p1)
	t.check(err == nil, "json: %v", err)
	p3 := new(pp.AutoPreprocessor)
	t.check(json.Unmarshal(js, p3) == nil, "json: unmarshal failed")
	e := d
	if t.p(0.5) {
		e = d.IndexView(append(t.randIdx(d.NumRows()), 0))
	}
	e1, err1 := p1.TransformView(e)
	e3, err3 := p3.TransformView(e)
	t.check((err1 == nil) == (err3 == nil), "after the JSON round trip: %v, %v", err1, err3)
	if err1 == nil {
		sameFrame(t, "JSON round trip", e1, e3)
	}
	t.check(deep(d) == before, "transforming changed the input")
	t.check(fmt.Sprint(sorted(p1.TransformedColumns())) == fmt.Sprint(sorted(p3.TransformedColumns())), "transformed columns differ after the JSON round trip")
}

func allNaN(d *df.DataFrame, c string) bool {
	for i := 0; i < d.NumRows(); i++ {
		if x := d.Floats(c).Get(i); x == x {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- A19
func a19(t *T) {
	o := defOpt()
	o.clean = true
	o.cols = map[kind]int{kF: 3, kI: 1, kB: 2, kS: 1}
	o.minRows = 1
	o.minCols = 2
	d := t.frame(o)
	ks := kinds(d)
	n := d.NumRows()
	if t.p(0.3) {
		// metrics
		fs := byKind(ks, kF)
		if len(fs) == 0 || n == 0 {
			return
		}
		x, y := d.Floats(pick(t, fs)), d.ReverseView().Floats(pick(t, fs))
		se, ae := 0.0, 0.0
		for i := 0; i < n; i++ {
			e := x.Get(i) - y.Get(i)
			se += e * e
			ae += math.Abs(e)
		}
		t.log("metrics on %d rows", n)
		t.check(close9(alg.MSE(x, y), se/float64(n)), "MSE %v, expected %v", alg.MSE(x, y), se/float64(n))
		t.check(close9(alg.MAE(x, y), ae/float64(n)), "MAE %v, expected %v", alg.MAE(x, y), ae/float64(n))
		z := d.SliceView(0, n-1).Floats(pick(t, fs))
		for _, f := range []func(df.FloatAccess, df.FloatAccess) float64{alg.MSE, alg.MAE} {
			for _, p := range [][2]df.FloatAccess{{x, z}, {z, x}} {
				p := p
				ok := func() (ok bool) {
					defer func() { ok = recover() != nil }()
					f(p[0], p[1])
					return
				}()
				t.check(ok, "metrics on %d and %d values do not panic", p[0].Size(), p[1].Size())
			}
		}
		return
	}
	feats := byKind(ks, kF, kB)
	if t.p(0.4) {
		// training
		fs := byKind(ks, kF)
		if len(fs) == 0 || n == 0 || len(feats) < 2 {
			return
		}
		target := pick(t, fs)
		par := alg.LinRegTrainParams{Epochs: 1 + t.Intn(2), LR: 1e-4, BatchSize: 1 + t.Intn(n+2), LowMemory: t.p(0.5), Momentum: float64(t.Intn(2)) * 0.1, WeightDecay: float64(t.Intn(2)) * 0.01}
		t.log("Fit(target %q, %+v)", target, par)
		before := deep(d)
		reg := alg.NewLinearRegressor()
		t.check(reg.Fit(d, target, par) == nil, "Fit failed")
		t.check(deep(d) == before, "Fit changed the frame")
		var want []string
		for _, c := range feats {
			if c != target {
				want = append(want, c)
			}
		}
		t.check(sprint(sorted(reg.Features)) == sprint(sorted(want)), "features %q, expected %q", reg.Features, want)
		t.check(len(reg.Weights) == len(want), "%d weights for %d features", len(reg.Weights), len(want))
		e := d.View()
		if t.p(0.5) {
			e.Drop(target)
		}
		t.predict(reg, e)
		return
	}
	if len(feats) == 0 {
		return
	}
	reg := alg.NewLinearRegressor()
	t.Shuffle(len(feats), func(i, j int) { feats[i], feats[j] = feats[j], feats[i] })
	reg.Features = append([]string{}, feats[:1+t.Intn(len(feats))]...)
	for range reg.Features {
		reg.Weights = append(reg.Weights, float64(t.Intn(9)-4)/2)
	}
	reg.TargetScaler = pp.NewScaler(pp.ScalerOptions{Centering: true, Scaling: true})
	target := []string{"y", "f0", "_target", "b0"}[t.Intn(4)]
	reg.TargetScaler.Shift = map[string]float64{target: 3.5}
	reg.TargetScaler.Scale = map[string]float64{target: 0.25}
	if t.p(0.3) {
		b, err := json.Marshal(reg)
		t.check(err == nil, "json: %v", err)
		reg = alg.NewLinearRegressor()
		t.check(json.Unmarshal(b, reg) == nil, "json")
	}
	t.predict(reg, d)
}

func (t *T) predict(reg *alg.LinearRegressor, d *df.DataFrame) {
	name := []string{"pred", "y", "f0", "b0", "i0", "s0", "_target", "_pred"}[t.Intn(8)]
	t.log("Predict into %q, features %q", name, reg.Features)
	s := take(d)
	before := deep(d)
	r, err := reg.Predict(d, name)
	t.check(err == nil, "Predict: %v", err)
	t.check(deep(d) == before, "Predict changed the frame:\n%s\nto\n%s", before, deep(d))
	rs := take(r)
	want := map[string]kind{}
	for c, k := range s.cols {
		want[c] = k
	}
	want[name] = kF
	t.sameSchema("Predict", rs.cols, want)
	t.check(rs.rows == s.rows, "Predict: %d rows of %d", rs.rows, s.rows)
	// other columns: the same rows of the source in some order
	tgt := reg.TargetScaler.TransformedColumns()[0]
	rest := &snap{cols: map[string]kind{}, rows: rs.rows, cells: map[string][]cell{}, idx: rs.idx}
	srest := &snap{cols: map[string]kind{}, rows: s.rows, cells: map[string][]cell{}, idx: s.idx}
	for c, k := range s.cols {
		if c != name {
			rest.cols[c], rest.cells[c] = k, rs.cells[c]
			srest.cols[c], srest.cells[c] = k, s.cells[c]
		}
	}
	var sel []int
	if len(rest.cols) > 0 {
		sel = t.match("Predict", rest, srest)
	} else {
		// the only column was replaced: rows ascend by position
		sel = seq(0, s.rows)
		sort.SliceStable(sel, func(a, b int) bool { return s.idx[sel[a]] < s.idx[sel[b]] })
	}
	for j, i := range sel {
		x := 0.0
		mag := 0.0
		for k, f := range reg.Features {
			v := reg.Weights[k] * t.num(d, s.cols[f], f, i)
			x += v
			mag += math.Abs(v)
		}
		sc, ok := reg.TargetScaler.Scale[tgt]
		if !ok {
			sc = 1
		}
		w := x/sc - reg.TargetScaler.Shift[tgt]
		mag = mag/math.Abs(sc) + math.Abs(reg.TargetScaler.Shift[tgt])
		got := r.Floats(name).Get(j)
		t.check(close9(got, w) || math.Abs(got-w) <= 1e-9*mag, "prediction of row %d is %v, expected %v", j, got, w)
	}
	t.wellFormed("Predict", r)
}
