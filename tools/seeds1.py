import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
H='package %s\n\nimport (\n%s)\n\n'
def P(pkg,*imps): return 'package %s\n\nimport (\n%s)\n'%(pkg,''.join('\t%s\n'%(i if ' ' in i else '"%s"'%i) for i in imps))
DF='github.com/rom1mouret/ml-essentials/dataframe'
only=set(sys.argv[1:])
def S(id,*a):
    if only and id not in only: return
    mkseed(id,*a)

S('cut-last-bools','A01',[('dataframe/inplace.go','''      df.bools[col] = vals[from:to]
''','''      if to < len(vals) {
        df.bools[col] = vals[from:to]
      }
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	n := 100
	b := make([]bool, n)
	for i := range b {
		b[i] = i >= 50
	}
	df := DataBuilder{RawData: NewRawData()}.SetBools("b", b).ToDataFrame()
	v := df.SliceView(50, 100)
	for i := 0; i < v.NumRows(); i++ {
		if !v.Bools("b").Get(i) {
			t.Fatalf("row %d of the slice is not row %d of the source", i, i+50)
		}
	}
}
''','a slice of a contiguous frame that is long enough to reallocate the maps and that reaches the last row','the bool columns of the slice show the rows of the beginning of the frame')

S('group-size-rounding','A02',[('utils/group_indexer.go','''  indexer.groupSize = nElements / nGroups
  if nElements % nGroups != 0 {
    indexer.groupSize++
  }
''','''  indexer.groupSize = (nElements + nGroups/2) / nGroups
''')],'utils',P('utils','testing')+'''
func TestDemo(t *testing.T) {
	for n := 1; n < 12; n++ {
		for g := 1; g < 8; g++ {
			names := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}[:n]
			var all []string
			for _, x := range SplitStringSlice(names, g) {
				all = append(all, x...)
			}
			if len(all) != n {
				t.Fatalf("%d names in %d groups: %v", n, g, all)
			}
			for i := range all {
				if all[i] != names[i] {
					t.Fatalf("%d names in %d groups: %v", n, g, all)
				}
			}
		}
	}
}
''','a number of names and of groups whose remainder is below half of the group count','more groups than announced are produced')

S('sort-ints-float32','A03',[('dataframe/view.go','''        cpy[j] = float64(vals[i])
''','''        cpy[j] = float64(float32(vals[i]))
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	var vals []int
	for i := 0; i < 64; i++ {
		vals = append(vals, 1<<24+(i*37)%64)
	}
	df := DataBuilder{RawData: NewRawData()}.SetInts("x", vals).ToDataFrame()
	v := df.SortedView("x")
	for i := 1; i < v.NumRows(); i++ {
		if v.Ints("x").Get(i-1) > v.Ints("x").Get(i) {
			t.Fatalf("not sorted at %d", i)
		}
	}
}
''','int keys above 2^24 that differ by less than the float32 resolution','rows are not sorted')

S('booltofloats-shared','A04',[('dataframe/raw_data.go','''func (data *RawData) BoolToFloats(columns...string) {
  if data.sharedMaps {
''','''func (data *RawData) BoolToFloats(columns...string) {
  // columns already listed as shared live in maps of our own
  if data.sharedMaps && data.shared.Num() == 0 {
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddBools("b", true, false).AddInts("i", 1, 2).ToDataFrame()
	c := df.ColumnView("b", "i")
	v := c.View()
	v.BoolToFloats("b")
	if _, ok := c.bools["b"]; !ok {
		t.Fatal("converting a column of a view converted the column of its source")
	}
}
''','converting bool columns of a plain view of a frame that already lists shared columns','the conversion also happens in the source of the view')

S('columnview-shared-bools','A05',[('dataframe/view.go','''  result.shared.add(columns...)

''','''
'''),('dataframe/view.go','''      result.objects[col] = v
      if stringCols[col] {
''','''      result.objects[col] = v
      result.shared.add(col)
      if stringCols[col] {
'''),('dataframe/view.go','''      result.floats[col] = v
    }
''','''      result.floats[col] = v
      result.shared.add(col)
    }
'''),('dataframe/view.go','''    if colSet[col] {
      result.ints[col] = v
    }
''','''    if colSet[col] {
      result.ints[col] = v
      result.shared.add(col)
    }
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddBools("b", true, false).AddInts("i", 1, 2).ToDataFrame()
	v := df.ColumnView("b", "i").DetachedView("b")
	v.Bools("b").Set(0, false)
	if !df.Bools("b").Get(0) {
		t.Fatal("a detached column still shares its data")
	}
}
''','detaching a bool column of a column view, then writing to it','the write reaches the source')

S('reset-index-claims-contiguous','A06',[('dataframe/view.go','''  copy(result.indices, df.indices)
  sort.Ints(result.indices)

  return result
''','''  copy(result.indices, df.indices)
  sort.Ints(result.indices)
  // all the rows in order: back to the fast path
  result.indexViewed = len(result.indices) != result.NumAllocatedRows()

  return result
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddFloats("x", 1, 2, 3).ToDataFrame()
	v := df.IndexView([]int{2, 0, 2}).ResetIndexView()
	c := v.Copy()
	want := []float64{1, 3, 3}
	for i, w := range want {
		if c.Floats("x").Get(i) != w {
			t.Fatalf("row %d is %v, expected %v", i, c.Floats("x").Get(i), w)
		}
	}
}
''','resetting the index of a view that repeats rows and has as many rows as its source','the frame claims contiguous rows, so copies and matrices show other rows')

S('rowconcat-skip-empty','A07',[('dataframe/concat.go','''    // TODO: optimize this when !df.indexViewed
''','''    if df.NumRows() == 0 {
      continue  // nothing to copy
    }
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	a := DataBuilder{RawData: NewRawData()}.AddFloats("x", 1, 2, 3).ToDataFrame()
	b := DataBuilder{RawData: NewRawData()}.AddFloats("y", 1, 2, 3).ToDataFrame()
	if _, err := RowConcat(a, b.IndexView([]int{})); err == nil {
		t.Fatal("no error although a column is missing")
	}
}
''','a later frame without rows that lacks a column','no error is reported')

S('overwrite-objects-type','A08',[('dataframe/inplace.go','''    if objectType == 1 {
''','''    isString := true
    if len(values) > 0 {
      _, isString = values[0].(string)
    }
    if objectType == StringObject && isString {
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddFloats("x", 1, 2).ToDataFrame()
	df.OverwriteObjects("s", []interface{}{nil, "a"}, StringObject)
	if !df.StringHeader().contains("s") {
		t.Fatal("the new column is not a string column")
	}
}
''','creating a string column whose first value is missing','the column is not marked as a string column')

S('dense-bool-stale','A09',[('dataframe/dense_gonum_batching.go','''        subslice[i] = 1.0
      } else {
        subslice[i] = 0
      }
''','''        subslice[i] = 1.0
      }
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	b := NewDense64Batching([]string{"b"})
	x := DataBuilder{RawData: NewRawData()}.AddBools("b", true, true).ToDataFrame()
	y := DataBuilder{RawData: NewRawData()}.AddBools("b", false, true).ToDataFrame()
	b.DenseMatrix(x)
	if b.DenseMatrix(y).At(0, 0) != 0 {
		t.Fatal("false is not 0")
	}
}
''','a second batch with a false where an earlier batch left a non-zero number','a stale number is delivered')

S('hash-empty-string','A10',[('dataframe/view.go','''          hash.Reset()
          hash.Write([]byte(str))
''','''          if len(str) > 0 {
            hash.Reset()
            hash.Write([]byte(str))
          }
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddStrings("s", "", "a", "").ToDataFrame()
	h := df.HashStringsView("s").Ints("s")
	if h.Get(0) != h.Get(2) {
		t.Fatal("equal strings have different hashes")
	}
}
''','an empty string after a non-empty one','equal strings are given different numbers')

S('onehot-unknown-stale','A11',[('preprocessing/one_hot.go','''    if opt.UnknownPolicy != ReturnError {
      unkColumn = df.Bools(encoder.Fallback[catCol][1])
''','''    if opt.UnknownPolicy != ReturnError && unkColumn.Size() == 0 {
      unkColumn = df.Bools(encoder.Fallback[catCol][1])
''')],'preprocessing',P('preprocessing','testing',DF)+'''
func TestDemo(t *testing.T) {
	df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("a", 1, 2).AddInts("b", 1, 2).ToDataFrame()
	df.SetMaxCPU(1)
	e := NewOneHotEncoder(OneHotOptions{UnknownPolicy: SeparateCategory, MissingPolicy: SeparateCategory})
	e.Fit(df)
	x := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("a", 7).AddInts("b", 7).ToDataFrame()
	x.SetMaxCPU(1)
	y, err := e.TransformView(x)
	if err != nil {
		t.Fatal(err)
	}
	if !y.Bools("a_unk").Get(0) || !y.Bools("b_unk").Get(0) {
		t.Fatal("no unknown category is set")
	}
}
''','two encoded columns handled by the same worker, both with unknown values','the unknown value of the second column is recorded in the column of the first one')

S('minmax-else-if','A12',[('preprocessing/scaler.go','''          max = val
        }
        if val < min {
''','''          max = val
        } else if val < min {
''')],'preprocessing',P('preprocessing','testing',DF)+'''
func TestDemo(t *testing.T) {
	df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddFloats("a", 1, 2, 3).ToDataFrame()
	s := NewScaler(ScalerOptions{MinMax: true})
	s.Fit(df)
	s.TransformInplace(df)
	if df.Floats("a").Get(0) != 0 || df.Floats("a").Get(2) != 1 {
		t.Fatal("min-max scaling is wrong: ", df.Floats("a").Get(0), df.Floats("a").Get(2))
	}
}
''','training values in increasing order, so that the smallest one comes first','the minimum is missed')

S('csv-missing-leak','A13',[('dataframe/csv_parsing.go','''          missing[i] = missingVals[records[i][col]]
''','''          missing[i] = missing[i] || missingVals[records[i][col]]
''')],'dataframe',P('dataframe','strings','testing')+'''
func TestDemo(t *testing.T) {
	raw, err := FromCSV(strings.NewReader("a,b\\nNA,y\\nx,NA\\n"), CSVReadingSpec{MaxCPU: 1, MissingValues: []string{"NA"}})
	if err != nil {
		t.Fatal(err)
	}
	df := raw.ToDataFrame()
	if df.Objects("a").Get(1) == nil || df.Objects("b").Get(0) == nil {
		t.Fatal("a present value was read as missing")
	}
}
''','two non-bool columns parsed by the same worker, the first one with a missing value where the second one has a value','the value is lost')

S('csv-stale-missing','A14',[('dataframe/csv_writing.go','''        if val == nil {
          batch[i][col] = options.StringMissingMarker
        } else {
''','''        if val == nil {
          if options.StringMissingMarker != "" {
            batch[i][col] = options.StringMissingMarker
          }
        } else {
''')],'dataframe',P('dataframe','bytes','strings','testing')+'''
func TestDemo(t *testing.T) {
	vals := make([]interface{}, 300)
	for i := 0; i < 256; i++ {
		vals[i] = "x"
	}
	df := DataBuilder{RawData: NewRawData()}.SetObjects("s", vals).MarkAsString("s").SetFloats("f", make([]float64, 300)).ToDataFrame()
	var b bytes.Buffer
	if err := df.To1CSV(&b, CSVWritingSpec{}); err != nil {
		t.Fatal(err)
	}
	if n := strings.Count(b.String(), "x"); n != 256 {
		t.Fatalf("%d values instead of 256", n)
	}
}
''','more than 256 rows, a missing string in a later batch and the default (empty) missing marker','the value of an earlier row is written for the missing string')

S('queue-notice-room','A15',[('utils/string_q.go','''      Errors:  make(chan ProcessedJob, len(keys)),
''','''      Errors:  make(chan ProcessedJob, maxWorkers),
''')],'utils',P('utils','testing','time')+'''
func TestDemo(t *testing.T) {
	q := CreateStringQueue([]string{"a", "b", "c"}, 1)
	done := make(chan bool)
	go func() {
		for k := range q.Keys {
			q.Notify(ProcessedJob{Key: k})
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("notifying blocks")
	}
}
''','fewer workers than jobs, and no one collecting yet','a worker that notifies is blocked')

S('encode-replace-unsupported','A16',[('dataframe/inplace.go','''        v, err = encoder.String(v)
''','''        v, err = encoding.ReplaceUnsupported(encoder).String(v)
''')],'dataframe',P('dataframe','testing','golang.org/x/text/encoding/charmap')+'''
func TestDemo(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddStrings("s", "a", "日本").ToDataFrame()
	err := df.Encode(charmap.ISO8859_1)
	if err == nil {
		t.Fatal("no error although a string cannot be converted")
	}
	if df.Strings("s").Get(1) != "日本" {
		t.Fatal("a cell has changed")
	}
}
''','a string that has no representation in the new encoding','no error, the string is damaged')

S('stringheader-aliased','A17',[('dataframe/column_header.go','''  return data.stringHeader.Copy()
''','''  return ColumnHeader{data.stringHeader.columns}
''')],'dataframe',P('dataframe','testing')+'''
func TestDemo(t *testing.T) {
	df := DataBuilder{RawData: NewRawData()}.AddStrings("s", "a").AddStrings("u", "b").ToDataFrame()
	df.StringHeader().Except("s")
	if !df.stringHeader.contains("s") {
		t.Fatal("altering the header altered the frame")
	}
}
''','set operations applied to the header of the string columns','the frame loses a string mark')

S('autopreproc-scaling-only','A18',[('preprocessing/auto_preprocessor.go','''    df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
  } else if preproc.Scaler != nil {
    df = df.DetachedView(preproc.Scaler.TransformedColumns()...)
  }
''','''    df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
  }
''')],'preprocessing',P('preprocessing','testing',DF)+'''
func TestDemo(t *testing.T) {
	df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddFloats("a", 1, 2, 6).AddInts("i", 1, 2, 3).ToDataFrame()
	p := NewAutoPreprocessor(AutoPreprocOptions{Scaling: true})
	p.Fit(df)
	p.TransformView(df)
	if df.Floats("a").Get(2) != 6 {
		t.Fatal("transforming changed the input")
	}
}
''','scaling without imputing','the input of TransformView is scaled in place')

S('predict-row-order','A19',[('algorithms/linear_regression.go','''  df = df.ResetIndexView() // makes batching.DenseMatrix faster
''','''  sorted := df.ResetIndexView() // makes batching.DenseMatrix faster
'''),('algorithms/linear_regression.go','''  for i, batch := range df.SplitView(batchSize) {
''','''  for i, batch := range sorted.SplitView(batchSize) {
''')],'algorithms',P('algorithms','testing',DF)+'''
func TestDemo(t *testing.T) {
	df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddFloats("x", 1, 2, 3, 4).AddFloats("y", 2, 4, 6, 8).ToDataFrame()
	reg := NewLinearRegressor()
	reg.Fit(df, "y", LinRegTrainParams{Epochs: 2, LR: 0.01, BatchSize: 2})
	v := df.ReverseView()
	p, err := reg.Predict(v, "p")
	if err != nil {
		t.Fatal(err)
	}
	q, _ := reg.Predict(df, "p")
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			if p.Floats("x").Get(i) == q.Floats("x").Get(j) && p.Floats("p").Get(i) != q.Floats("p").Get(j) {
				t.Fatalf("the prediction for x=%v depends on the row order", p.Floats("x").Get(i))
			}
		}
	}
}
''','a frame whose rows are not in backing order','predictions are attached to other rows')
