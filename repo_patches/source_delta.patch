From 19019ef48b5da08e6199229855b8e7f316447365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 01/28] fix: To1CSV/ToCSVs wrote the first allocated row for
 every row of an index view

---
 dataframe/csv_writing.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 0cbbb79..d665621 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -197,6 +197,7 @@ func (df *DataFrame) sortIfNeeded(options CSVWritingSpec) *DataFrame {
   if df.indexViewed && !options.MaintainOrder {
     result := df.View()
     result.indices = make([]int, len(df.indices))
+    copy(result.indices, df.indices)
     sort.Ints(result.indices)
     return result
   }
-- 
2.43.0


From 18f9361529bc0e2b9b464f1f5c777e91e6a484f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 02/28] fix: SplitNView returns exactly n parts with the
 columns of the frame, also without rows

---
 dataframe/view.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index d9c57fb..be1f242 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -170,7 +170,7 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if n == 0 {
     return nil
   }
-  if n == 1 || df.NumRows() == 0 {
+  if n == 1 {
     return []*DataFrame{df.View()}
   }
   // batchSize for the first n-1 batches
@@ -179,14 +179,16 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if nRows % n != 0 {
     batchSize++
   }
+  if batchSize == 0 {
+    batchSize = 1  // no rows
+  }
   result := df.SplitView(batchSize)
   missing := n - len(result)
   if missing > 0 {  // expected to happen when batchSize = 1
-    // fill up the rest with empty DataFrames
-    emptyDF := EmptyDataFrame(0, df.maxCPU)
+    // fill up the rest with empty views
     emptyDFs := make([]*DataFrame, missing)
     for i := 0; i < missing; i++ {
-      emptyDFs[i] = emptyDF
+      emptyDFs[i] = df.View().cut(nRows, nRows)
     }
     result = append(result, emptyDFs...)
   }
-- 
2.43.0


From fedb9b4f6883057334018130e3c5bc1692fb7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 03/28] fix: copies and concatenations keep the text encoding

---
 dataframe/concat.go    | 1 +
 dataframe/dataframe.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f81064c..8dd8617 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -21,6 +21,7 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
+  result.textEncoding = dfs[0].textEncoding
   for col := range dfs[0].floats {
     result.floats[col] = make([]float64, nRows)
   }
diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 434f9b2..3931fe5 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -113,6 +113,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.indices = df.indices
   result.mask = df.mask
   result.indexViewed = df.indexViewed
+  result.textEncoding = df.textEncoding
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
@@ -128,6 +129,7 @@ func (df *DataFrame) Copy() *DataFrame {
   result := EmptyDataFrame(len(df.indices), df.maxCPU)
   result.mThreadSafe = df.mThreadSafe
   result.debug = df.debug
+  result.textEncoding = df.textEncoding
   result.stringHeader = df.stringHeader.Copy()
 
   if df.indexViewed {
-- 
2.43.0


From dca83eb84fd11c1cb06a5895eefb63d8d039d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 04/28] fix: restructuring a view no longer changes the string
 marks of its parent

---
 dataframe/raw_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a77c159..93af714 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -482,6 +482,7 @@ func (data *RawData) reallocateMaps() {
   data.floats = tmp.floats
   data.objects = tmp.objects
   data.shared = tmp.shared  // all columns
+  data.stringHeader = tmp.stringHeader
   data.sharedMaps = false
 }
 
-- 
2.43.0


From 11cd47ee10a8d420b29491621cd1bb93738aa27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 05/28] fix: dropping columns of a view no longer drops them
 from its parent

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 93af714..e89ca56 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -229,6 +229,9 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
+  if data.sharedMaps {
+    data.reallocateMaps()
+  }
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
-- 
2.43.0


From e394bd56bd3b1f70deff382fc1e4fbc1bdae5753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 06/28] fix: ColumnView has its own record of shared columns

---
 dataframe/raw_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index e89ca56..6bc8fec 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -496,6 +496,7 @@ func (data *RawData) allocateEmptyMaps() {
   data.ints = make(map[string][]int)
   data.dataUID = generateDataUID()
   data.sharedMaps = false
+  data.shared = ColumnHeader{}
   data.stringHeader = ColumnHeader{}
   data.resetStructureUID()
 }
-- 
2.43.0


From 918f483d2cb308decfa42748adf825069851a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 07/28] fix: HashStringsView of all the columns no longer
 writes into its parent

---
 dataframe/view.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index be1f242..2d7b339 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -367,6 +367,10 @@ func (df *DataFrame) HashStringsView(columns ...string) *DataFrame {
   // allocate the new columns and exclude the string columns
   otherColumns := df.Header().Except(columns...).NameList()
   result := df.ColumnView(otherColumns...)
+  if len(otherColumns) == 0 {
+    // ColumnView() without arguments selects all the columns
+    result.allocateEmptyMaps()
+  }
   nRows := df.NumAllocatedRows()
   for _, colName := range columns {
     result.ints[colName] = make([]int, nRows)
-- 
2.43.0


From 0cee207aa7f5c2da80ce780c824a9590b3ed9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 08/28] fix: ColumnConcatView checks the row counts and
 positions and keeps the string marks

---
 dataframe/concat.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 8dd8617..94c1355 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -2,7 +2,6 @@ package dataframe
 
 import (
    "fmt"
-   "github.com/rom1mouret/ml-essentials/utils"
 )
 
 // RowConcat concatenates the rows of the given dataframes.
@@ -120,11 +119,19 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       break
     }
   }
-  if views {
-    ref := utils.HashIntSlice(dfs[0].indices)
-    for _, df := range dfs[1:] {
-      if utils.HashIntSlice(df.indices) != ref {
-        return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+  for _, df := range dfs[1:] {
+    if df.NumRows() != dfs[0].NumRows() {
+      return nil, fmt.Errorf("cannot col-wise concatenate df(rows=%d) with df(rows=%d)",
+                             dfs[0].NumRows(), df.NumRows())
+    }
+    if df.NumColumns() > 0 && dfs[0].NumColumns() > 0 && df.NumAllocatedRows() != dfs[0].NumAllocatedRows() {
+      return nil, fmt.Errorf("allocation mismatch between dataframes. Use ColumnCopyConcat instead")
+    }
+    if views {
+      for j, index := range df.indices {
+        if index != dfs[0].indices[j] {
+          return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnCopyConcat instead")
+        }
       }
     }
   }
@@ -147,7 +154,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       result.bools[col] = values
       result.shared.add(col)
     }
-    result.stringHeader.And(df.stringHeader)
+    result.stringHeader = result.stringHeader.And(df.stringHeader)
   }
   return result, nil
 }
-- 
2.43.0


From 5cd2d20e0e0d254f0d45be22fd91875df92f3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 09/28] fix: BoolToFloats removes the converted bool column

---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 6bc8fec..cf91375 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -462,7 +462,7 @@ func (data *RawData) BoolToFloats(columns...string) {
         newdata[i] = 1.0
       }
     }
-    delete(data.ints, col)
+    delete(data.bools, col)
     data.floats[col] = newdata
   }
 }
-- 
2.43.0


From 5492a179c945ae0504a787993396f5dae6208f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 10/28] fix: renaming a column to its own name no longer
 deletes it

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index cf91375..47c1b22 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -248,6 +248,9 @@ func (data *RawData) Drop(columns ...string) {
 //  df.View().Rename("apples", "oranges").Ints("oranges").Set(0, 42)
 // It will change df's number of apples to 42 at index=0.
 func (data *RawData) Rename(oldName string, newName string) {
+  if oldName == newName && data.Header().contains(oldName) {
+    return
+  }
   if data.sharedMaps {
     data.reallocateMaps()
   }
-- 
2.43.0


From 0612bb5437b8801ef2f525514a592357113c39f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 11/28] fix: MergeRawDataRows keeps the string marks, the
 encoding and the CPU limit

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 47c1b22..9aa8df8 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -394,6 +394,8 @@ func MergeRawDataRows(list []*RawData) *RawData {
   if len(list) == 0 {
     return result
   }
+  result.textEncoding = list[0].textEncoding
+  result.maxCPU = list[0].maxCPU
   // pre-allocate the rows to avoid new allocations by append(arr, ...values)
   size := 0
   for _, data := range list {
@@ -414,6 +416,7 @@ func MergeRawDataRows(list []*RawData) *RawData {
   // copy the data with append()
   // (https://gist.github.com/xogeny/b819af6a0cf8ba1caaef)
   for _, data := range list {
+    result.stringHeader = result.stringHeader.And(data.stringHeader)
     for col, vals := range data.floats {
       result.floats[col] = append(result.floats[col], vals...)
     }
-- 
2.43.0


From 1540989500d4b086ed042b9580442e72afefc29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 12/28] fix: queues and empty frames always have at least one
 worker

---
 dataframe/dataframe.go | 2 +-
 utils/string_q.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 3931fe5..f0d6148 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -26,7 +26,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   result.floats = make(map[string][]float64)
   result.bools = make(map[string][]bool)
   result.ints = make(map[string][]int)
-  result.maxCPU = maxCPU
+  result.SetMaxCPU(maxCPU)
   result.dataUID = generateDataUID()
   result.resetStructureUID()
   // stringHeader is not pre-allocated
diff --git a/utils/string_q.go b/utils/string_q.go
index 382b70c..95f53bf 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -16,7 +16,7 @@ type StringQ struct {
 }
 
 func CreateStringQueue(keys []string, maxWorkers int) StringQ {
-  if len(keys) == 0 {
+  if maxWorkers <= 0 || len(keys) == 0 {
     maxWorkers = 1
   } else if len(keys) < maxWorkers {
     maxWorkers = len(keys)
-- 
2.43.0


From d282a0b778d294a85e6726856bd1193350bdfd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 13/28] fix: workers no longer stop at a column whose name is
 empty

---
 dataframe/csv_parsing.go       | 4 ++--
 dataframe/view.go              | 2 +-
 preprocessing/float_imputer.go | 2 +-
 preprocessing/one_hot.go       | 4 ++--
 preprocessing/scaler.go        | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d584fbe..2d0a5d5 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -132,7 +132,7 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
                    missingVals map[string]bool, spec CSVReadingSpec,
                    q utils.StringQ) {
   missing := make([]bool, len(records))
-  for colName := q.Next(); len(colName) > 0; colName = q.Next() {
+  for colName := range q.Keys {
     col := utils.IndexOfString(colName, header)
     if !spec.BinaryAsFloat && isBinary(records, col) {
       data.bools[colName] = toBool(records, col)
@@ -309,7 +309,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-  for path := q.Next(); len(path) > 0; path = q.Next() {
+  for path := range q.Keys {
     data, err := FromCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
diff --git a/dataframe/view.go b/dataframe/view.go
index 2d7b339..db0ee46 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -332,7 +332,7 @@ const maxInt = uint64(^uint(0) >> 1)
 
 func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
   hash := fnv.New64a()  // TODO: benchmark this algorithm
-  for col := columnQ.Next(); len(col) > 0; col = columnQ.Next() {
+  for col := range columnQ.Keys {
     defer columnQ.Notify(utils.ProcessedJob{Key: col})
     inputCol := inputDF.objects[col]
     outputCol := outputDF.ints[col]
diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 3c9fb2e..b84d8ad 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -49,7 +49,7 @@ func (imputer *FloatImputer) TransformedColumns() []string {
 }
 
 func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col := range q.Keys {
     access := df.Floats(col)
     sum := 0.0
     n := 0
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 96a25a0..4598e23 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,7 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col := range q.Keys {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
     access := df.Ints(col)
@@ -164,7 +164,7 @@ func (encoder *OneHotEncoder) workerTransforms(df *dataframe.DataFrame, q utils.
   var unkColumn dataframe.BoolAccess
   opt := encoder.Options
 
-  for catCol := q.Next(); len(catCol) > 0; catCol = q.Next() {
+  for catCol := range q.Keys {
     notif := utils.ProcessedJob{Key: catCol}
     access := df.Ints(catCol)
     categoryToNewCol := encoder.Categories[catCol]
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index f8890d6..1155ce3 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -37,7 +37,7 @@ type fittingResult struct {
 }
 
 func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col := range q.Keys {
     access := df.Floats(col)
     result := fittingResult{}
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &result})
@@ -114,7 +114,7 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   return nil
 }
 func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col := range q.Keys {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
     var scale float64
-- 
2.43.0


From 6f09c8e95e038d7cf2a5667cacca66f8a2fc826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 14/28] fix: reading several files respects the CPU limit

---
 dataframe/csv_parsing.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 2d0a5d5..a12d84e 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -292,7 +292,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     cpuPerFile = 1
   }
   options.MaxCPU = cpuPerFile
-  maxWorkers := len(paths) / cpuPerFile
+  maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
@@ -305,7 +305,9 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     data[i] = result.Result.(*RawData)
   }
   // concatenate everything
-  return MergeRawDataRows(data), nil
+  result := MergeRawDataRows(data)
+  result.SetMaxCPU(cpu)
+  return result, nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-- 
2.43.0


From 9fe5f3f807cdb281900567f20f59a1a09ebd122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 15/28] fix: a CSV header longer than the records is reported
 as an error

---
 dataframe/csv_parsing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index a12d84e..4fe7e12 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -209,6 +209,9 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   if err != nil {
     return nil, err
   }
+  if len(records) > 0 && len(records[0]) < len(header) {
+    return nil, csv.ErrFieldCount
+  }
   // column queue for the worker pool
   colsToParse := Columns(header...).Except(options.Exclude...)
   tmp := RawData{} // only to get a col q
-- 
2.43.0


From 8f212a62dba6b2a9dabc10b534671eb5edc7cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 16/28] fix: BoolAsFloat and BinaryAsFloat read bools as floats

---
 dataframe/csv_parsing.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 4fe7e12..4209910 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -134,10 +134,11 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
   missing := make([]bool, len(records))
   for colName := range q.Keys {
     col := utils.IndexOfString(colName, header)
-    if !spec.BinaryAsFloat && isBinary(records, col) {
-      data.bools[colName] = toBool(records, col)
-    } else if !spec.BoolAsFloat && !spec.BinaryAsFloat && isBool(records, col) {
+    if isBool(records, col) {
       data.bools[colName] = toBool(records, col)
+      if spec.BoolAsFloat || (spec.BinaryAsFloat && isBinary(records, col)) {
+        data.BoolToFloats(colName)
+      }
     } else {
       if len(missingVals) > 0 {
         for i := range missing {
-- 
2.43.0


From 7820a5b30efbadcd57da8ed6cb943665d4de9f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 17/28] fix: DenseMatrix allocates enough room for batches of
 growing size

---
 dataframe/dense_gonum_batching.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4146ba8..4a40098 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -35,7 +35,7 @@ func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   // allocate more data if necessary
   dim := len(bat.columns)
   nRows := df.NumRows()
-  missing := dim * (nRows - len(bat.data))
+  missing := dim * nRows - len(bat.data)
   if missing > 0 {
     bat.data = append(bat.data, make([]float64, missing)...)
   }
-- 
2.43.0


From 46a604fe1ae56eb19258612d87d0eaeb504b4a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 18/28] fix: min-max scaling divides by the range

---
 preprocessing/scaler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 1155ce3..d604bfb 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -55,7 +55,10 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
         }
       }
       shift := -min
-      scale := max - min
+      scale := 1.0
+      if max > min {
+        scale = 1 / (max - min)
+      }
       result.shift = &shift
       result.scale = &scale
     } else if opt.Scaling || opt.Centering {
-- 
2.43.0


From 7e9d9879d445f14e2b5c11f7dca7096bdd18a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 19/28] fix: the scaler transforms repeated rows only once

---
 preprocessing/scaler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index d604bfb..c2c0d19 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -126,8 +126,13 @@ func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ)
       scale = 1  // default scale
     }
     access := df.Floats(col)
-    for i := 0; i < access.Size(); i++ {
-      access.Set(i, (access.Get(i) + shift) * scale)
+    // rows can be repeated, so don't write before everything is read
+    scaled := make([]float64, access.Size())
+    for i := range scaled {
+      scaled[i] = (access.Get(i) + shift) * scale
+    }
+    for i, val := range scaled {
+      access.Set(i, val)
     }
   }
 }
-- 
2.43.0


From 4ab6681717898e7f4b33316a9eebf55bb3bfa743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 20/28] fix: Encode converts repeated rows once and changes
 nothing upon errors

---
 dataframe/inplace.go | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 334bb1d..0ce1a1e 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -4,8 +4,9 @@ import (
   "golang.org/x/text/encoding"
 )
 
-func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
-                     encoder *encoding.Encoder) (error, int) {
+func convertEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
+                     encoder *encoding.Encoder) ([]interface{}, error) {
+  result := make([]interface{}, len(indices))
   for j, i := range indices {  // others are left to nil
     if values[i] != nil {
       var err error
@@ -14,21 +15,21 @@ func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Deco
       if decoder != nil {
         v, err = decoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 2. convert from UTF-8 to new encoding
       if encoder != nil {
         v, err = encoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 3. set the new value
-      values[i] = v
+      result[j] = v
     }
   }
-  return nil, -1
+  return result, nil
 }
 
 // Encode changes the encoding of all all the string columns.
@@ -49,28 +50,21 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
   if newEncoding != nil {
     encoder = newEncoding.NewEncoder()
   }
+  // nothing is written until everything has been successfully converted
   colNames := df.stringHeader.NameList()
-  for i, col := range colNames {
-    values := df.objects[col]
-    err, where := inplaceEncoding(values, df.indices, decoder, encoder)
+  converted := make([][]interface{}, len(colNames))
+  for k, col := range colNames {
+    newValues, err := convertEncoding(df.objects[col], df.indices, decoder, encoder)
     if err != nil {
-      // we need to revert our changes
-      if newEncoding == nil {
-        decoder = nil
-      } else {
-        decoder = newEncoding.NewDecoder()
-      }
-      if df.textEncoding == nil {
-        encoder = nil
-      } else {
-        encoder = df.textEncoding.NewEncoder()
-      }
-      inplaceEncoding(values, df.indices[:where], decoder, encoder)
-      for _, previous := range colNames[:i] {
-          inplaceEncoding(df.objects[previous], df.indices, decoder, encoder)
-      }
       return err
     }
+    converted[k] = newValues
+  }
+  for k, col := range colNames {
+    values := df.objects[col]
+    for j, i := range df.indices {
+      values[i] = converted[k][j]
+    }
   }
   df.textEncoding = newEncoding
 
-- 
2.43.0


From 65f415166362970c8ac4d16e8a9191f0b38b3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 21/28] fix: MakeRange accepts intervals that do not divide the
 range

---
 utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index aa8c630..0021b4f 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -7,7 +7,7 @@ import (
 )
 
 func MakeRange(from int, to int, interval int) []int {
-  result := make([]int, (to - from) / interval)
+  result := make([]int, (to - from + interval - 1) / interval)
   for n, j := from, 0; n < to; n, j = n + interval, j+1 {
     result[j] = n
   }
-- 
2.43.0


From a0352ce96ff055e583ad427c86b547d8abd66a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 22/28] fix: GroupIndexer accepts zero elements and zero groups

---
 utils/group_indexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index 71c0a09..27b89f6 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -24,6 +24,9 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
     nGroups = nElements
   }
   indexer.NGroups = nGroups
+  if nGroups == 0 {
+    return
+  }
   indexer.groupSize = nElements / nGroups
   if nElements % nGroups != 0 {
     indexer.groupSize++
-- 
2.43.0


From c8f5d99065e37fca740011eee1dbefc9227e652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 23/28] fix: one-hot encoding supports ReturnError along with
 SharedSeparateCategory

---
 preprocessing/one_hot.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 4598e23..6b0cc8d 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -231,7 +231,10 @@ func (encoder *OneHotEncoder) TransformedColumns() []string {
 func (opt* OneHotOptions) fix() {
   // make sure MissingPolicy == Shared never happen
   if opt.MissingPolicy == SharedSeparateCategory {
-    if opt.UnknownPolicy != SharedSeparateCategory {
+    if opt.UnknownPolicy == ReturnError {
+      // nothing to share with
+      opt.MissingPolicy = SeparateCategory
+    } else if opt.UnknownPolicy != SharedSeparateCategory {
       // swap MissingPolicy and UnknownPolicy
       opt.MissingPolicy = opt.UnknownPolicy
       opt.UnknownPolicy = SharedSeparateCategory
@@ -240,6 +243,10 @@ func (opt* OneHotOptions) fix() {
       opt.MissingPolicy = SeparateCategoryIfSeen
     }
   }
+  if opt.UnknownPolicy == SharedSeparateCategory && opt.MissingPolicy == ReturnError {
+    // nothing to share with
+    opt.UnknownPolicy = SeparateCategory
+  }
   if opt.UnknownPolicy == SeparateCategoryIfSeen {
     // unknown categories are never seen, by definition
     opt.UnknownPolicy = SeparateCategory
-- 
2.43.0


From 473fa9e44d28e6e431219cbc70b85a488b84344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 24/28] fix: AutoPreprocessor works without imputer or scaler
 and can be refitted

---
 preprocessing/auto_preprocessor.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index cb58328..64b5823 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -38,8 +38,16 @@ func NewAutoPreprocessor(opt AutoPreprocOptions) *AutoPreprocessor {
 
 // TransformedColumns implements PreprocTraining and Transform interfaces.
 func (preproc *AutoPreprocessor) TransformedColumns() []string {
-  cols := preproc.Imputer.TransformedColumns()  // can be safely changed
-  cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  var cols []string
+  if preproc.Imputer != nil {
+    cols = preproc.Imputer.TransformedColumns()  // can be safely changed
+  } else if preproc.Scaler != nil {
+    cols = preproc.Scaler.TransformedColumns()  // can be safely changed
+  }
+  // the hashed strings, if any, are categories
+  if preproc.IntToBool != nil {
+    cols = append(cols, preproc.IntToBool.TransformedColumns()...)
+  }
   return cols
 }
 
@@ -66,6 +74,11 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
+  // forget what was learned from previous calls
+  preproc.StringToInt = nil
+  preproc.IntToBool = nil
+  preproc.Imputer = nil
+  preproc.Scaler = nil
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
   if opt.Imputing || opt.Scaling {
     start := time.Now()
@@ -130,8 +143,12 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   start := time.Now()
   df = df.View()
   df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
-  preproc.Imputer.TransformInplace(df)
-  preproc.Scaler.TransformInplace(df)
+  if preproc.Imputer != nil {
+    preproc.Imputer.TransformInplace(df)
+  }
+  if preproc.Scaler != nil {
+    preproc.Scaler.TransformInplace(df)
+  }
   if opt.Verbose {
     log.Printf("running Imputer+Scaler took %s with cpu=%d",
                time.Since(start), df.ActualMaxCPU())
-- 
2.43.0


From 1516bd547ba18258778287743d49a5e19276127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 25/28] fix: AutoPreprocessor excludes string and int columns
 too

---
 preprocessing/auto_preprocessor.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 64b5823..7ad4066 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -80,7 +80,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   preproc.Imputer = nil
   preproc.Scaler = nil
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
-  if opt.Imputing || opt.Scaling {
+  if (opt.Imputing || opt.Scaling) && len(floatCols) > 0 {
     start := time.Now()
     floatsOnly := df.ColumnView(floatCols...)
     if opt.Imputing {
@@ -98,10 +98,11 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   }
   // category encoding
   var categorical []string
-  if df.StringHeader().Num() > 0 {
+  stringCols := df.StringHeader().Except(opt.Exclude...).NameList()
+  if len(stringCols) > 0 {
     start := time.Now()
     preproc.StringToInt = NewHashEncoder(HashEncoderOptions{})
-    preproc.StringToInt.Fit(df)
+    preproc.StringToInt.Fit(df.ColumnView(stringCols...))
     view, err := preproc.StringToInt.TransformView(df)
     df = view
     if err != nil {
@@ -112,7 +113,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       log.Printf("running Hash Encoder took %s with cpu=%d", time.Since(start), df.ActualMaxCPU())
     }
   } else {
-    categorical = df.IntHeader().NameList()
+    categorical = df.IntHeader().Except(opt.Exclude...).NameList()
   }
   if len(categorical) > 0 {
     start := time.Now()
-- 
2.43.0


From 1769f45fa8b04b0eacc38c4bda4d030bfd547c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 26/28] fix: Predict accepts dataframes without rows

---
 algorithms/linear_regression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 8efb696..cc317ef 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -158,6 +158,9 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
   // prediction
   batching := dataframe.NewDense64Batching(reg.Features)
   for i, batch := range df.SplitView(batchSize) {
+    if batch.NumRows() == 0 {
+      continue
+    }
     rows := batching.DenseMatrix(batch)
     offset := i * batchSize
     yData := pred[offset:offset+batch.NumRows()]
-- 
2.43.0


From 2bec3f808160928cf73533176f5734b3c0fe72b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 27/28] fix: Predict never writes into the columns of the given
 dataframe

---
 algorithms/linear_regression.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index cc317ef..a566b80 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -135,6 +135,15 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
   return nil
 }
 
+// unusedName prepends underscores to the given name until it is not a column.
+func unusedName(header dataframe.ColumnHeader, name string) string {
+  columns := header.NameSet()
+  for columns[name] {
+    name = "_" + name
+  }
+  return name
+}
+
 // Predict predicts the target and stores the result in a new dataframe in a new
 // float column identified by "resultColumn" argument.
 // The new dataframe is a view on the original dataframe, so they share most
@@ -168,11 +177,20 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
     yVec.MulVec(rows, weights)
   }
 
-  // write the result in the dataframe
+  // un-scale the predictions
+  target := reg.TargetScaler.TransformedColumns()[0]
+  builder := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
+  predDF := builder.SetFloats(target, pred).ToDataFrame()
+  reg.TargetScaler.InverseTransformInplace(predDF)
+  // write the result in the dataframe, without writing in any existing column
+  tmpColumn := unusedName(df.Header(), resultColumn)
   result := df.View()
-  result.OverwriteFloats64("_target", pred)
-  reg.TargetScaler.InverseTransformInplace(result)
-  result.Rename("_target", resultColumn)
+  result.AllocFloats(tmpColumn)
+  result.OverwriteFloats64(tmpColumn, pred)
+  if tmpColumn != resultColumn {
+    result.Drop(resultColumn)
+    result.Rename(tmpColumn, resultColumn)
+  }
 
   return result, nil
 }
-- 
2.43.0


From f8bc3fc67667612018aa2ba9de2059dd78d8b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 28/28] fix: Fit never uses the target as a feature named
 _target

---
 algorithms/linear_regression.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index a566b80..57925ba 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -62,9 +62,11 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
   // copy the target to another column before scaling it in-place
   start := time.Now()
   df = df.DetachedView(targetColumn)
-  df.Rename(targetColumn, "_target")
+  features := df.Header().Except(targetColumn)
+  internalTarget := unusedName(features, "_target")
+  df.Rename(targetColumn, internalTarget)
   opt := preprocessing.ScalerOptions{Centering: true, Scaling: true}
-  targetDF := df.ColumnView("_target")
+  targetDF := df.ColumnView(internalTarget)
   reg.TargetScaler = preprocessing.NewScaler(opt)
   reg.TargetScaler.Fit(targetDF)
   reg.TargetScaler.TransformInplace(df)
@@ -105,7 +107,7 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
     for _, batch := range batches {
       batchSize := batch.NumRows()
       diffVec := mat.NewVecDense(batchSize, diff[:batchSize])
-      y := batch.Floats("_target").VecDense()
+      y := batch.Floats(internalTarget).VecDense()
       rows := batching.DenseMatrix(batch)
       // diff = rows x weights - y  [dim: batch size]
       diffVec.MulVec(rows, weights)
-- 
2.43.0

