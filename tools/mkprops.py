import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
D="dataframe/"
p("A01","Row and column views show exactly the selected rows",
 "For any well-formed dataframe, however many views it is already made of, an index, reverse, mask, ascending slice, reset-index or column view has exactly the selected rows in the selected order (reset-index: the same rows, ordered by position in the backing data), and in every retained column of every type each row shows the very cell that the corresponding row of the source shows. Selections may repeat or reorder rows, be empty, or be longer than the source; a slice counts a negative bound from the end (-1 is one past the last row) and a slice whose first bound exceeds the second has as many rows, in contiguous descending order. A column view keeps exactly the named existing columns (all columns when none is named) with their types and string marks.",
 ["inputs","histories"],"all frames reachable by chaining view operations, all selections",
 "Tests sample a few selections on 10-row frames; the claim is for every selection over every chain of earlier views, including contiguous and non-contiguous representations.",
 [D+"view.go",D+"inplace.go",D+"dataframe.go"],[("indirection through a per-frame row index list",D+"view.go"),("re-slicing of the columns instead of the index list",D+"inplace.go")],["NumRows, Floats/Ints/Bools/Objects(...).Get on the view"],
 [("row index list","position of each row in the backing columns",D+"dataframe.go"),("contiguity flag","index list is 0..n-1",D+"dataframe.go")])
p("A02","Splits partition the rows in order",
 "Splitting a frame by batch size, into n parts, or into train and test yields parts whose rows, concatenated in order, are exactly the rows of the frame, each once and in order. A split by batch size b gives parts of exactly b rows except a last part of 1..b rows (one empty part for an empty frame); a split into n > 0 gives exactly n parts of which the non-empty ones come first and all but the last non-empty one have equal sizes; with ratio r in [0,1] the test part holds the last floor(rows*r) rows. Dividing a list of names into groups likewise gives contiguous groups that concatenate to the list.",
 ["inputs"],"all frames, all batch sizes > 0, all n >= 0, all ratios in [0,1], all lists and group counts",
 "Tests try three sizes; off-by-one errors depend on divisibility and on empty or tiny frames.",
 [D+"view.go","utils/group_indexer.go","utils/utils.go"],[("batch arithmetic",D+"view.go"),("group iterator","utils/group_indexer.go")],["SplitView, SplitNView, SplitTrainTestViews, utils.SplitStringSlice"])
p("A03","Shuffling, sampling, sorting and top-n rearrange whole rows",
 "A shuffled view has every row of the source exactly once; a sample of n rows without replacement has n distinct rows of the source. A view sorted by a float column without NaN, an int column (magnitudes up to 2^53) or a bool column has every row exactly once with non-decreasing keys, and the top n rows by such a column are n distinct source rows such that no row left out is strictly better, ordered as requested when sorted output is asked for (all rows when n exceeds their number). In every case the cells of a row stay together across all columns.",
 ["inputs"],"all frames, all keys, all n, every outcome of the random generator",
 "Random shuffles can only be sampled; ties, negative keys, repeated rows and n at the boundaries are not all tried.",
 [D+"view.go","utils/utils.go"],[("argsort / swap shuffle of a local index range, then index view",D+"view.go")],["ShuffleView, SampleView, SortedView, TopView"])
p("A04","Working on a view never restructures or rewrites its source",
 "Creating any view, shallow copy, deep copy, split, concatenation or detached view changes nothing in the frames it is made from. Afterwards renaming, dropping, adding, marking or converting columns of the derived frame leaves the source's set of columns, their types, string marks, data and rows as they were. Only writing cell values of a column that the derived frame still shares is visible in the source.",
 ["inputs","histories"],"all frames and all sequences of structural operations on derived frames",
 "Tests check one rename and one detach; aliasing of internal tables shows only for particular sequences on particular kinds of columns.",
 [D+"view.go",D+"raw_data.go",D+"column_header.go",D+"concat.go"],[("copy-on-write of the column tables",D+"raw_data.go"),("string-mark table",D+"raw_data.go")],["Header, StringHeader, Strings, Floats ... on the source after operating on the view"],
 [("shared-tables flag","tables may be referenced by another frame",D+"raw_data.go"),("shared-columns set","columns whose data may be referenced by another frame",D+"raw_data.go")])
p("A05","Views share cells; copies and detached columns do not",
 "View-producing operations never copy column data: a cell written through a view is the cell of the corresponding source row. A deep copy, a row concatenation, a copying column concatenation, a row-merged raw data, and the columns named in a detach (all columns when none is named) hold the same values as their source but share no column storage with any frame that existed before, so writes to them are never seen elsewhere.",
 ["inputs","histories"],"all frames, columns, chains of views, and subsequent writes",
 "Sharing is a relation between all cells of two frames; tests write one cell of one column.",
 [D+"view.go",D+"dataframe.go",D+"raw_data.go",D+"concat.go"],[("Unshare consults the shared set",D+"raw_data.go"),("Copy allocates every column",D+"dataframe.go")],["Set on one frame, Get on the other"])
p("A06","Every public operation keeps frames well-formed and in bounds",
 "A frame obtained from well-formed frames or raw data by any documented operation with valid arguments is well-formed: all its columns have the same number of allocated rows, every row position lies inside them, its reusable mask covers its rows, its string marks name object columns, and a frame that claims contiguous rows has positions 0..n-1 over exactly n allocated rows. No such operation panics on valid arguments, and mask buffers obtained from it have exactly as many entries as rows (all false for a zero mask).",
 ["inputs","histories"],"all well-formed frames and valid arguments, hence by induction all histories of public operations",
 "Tests call a consistency helper after a few operations; an invariant over all histories cannot be sampled.",
 [D+"dataframe.go",D+"view.go",D+"inplace.go",D+"raw_data.go",D+"concat.go"],[("bounds carried by index list and mask",D+"view.go")],["absence of panics, CheckConsistency, len(ZeroMask()), len(EmptyMask())"])
p("A07","Concatenation joins the right rows and rejects mismatches",
 "Concatenating frames by rows yields the rows of each frame in order, with every cell equal to its source cell and the string marks kept, and reports an error instead when a later frame lacks one of the first frame's columns with the same type. Concatenating by columns yields, at every row, the cells of each input at that same row, with types and string marks kept, and reports an error when names overlap or row counts differ; the sharing variant also reports an error unless all inputs select the same backing positions. No error is reported otherwise.",
 ["inputs"],"all lists of well-formed frames, contiguous or not",
 "Tests join two 3-row frames; wrong joins need particular index patterns, row counts or frames without strings.",
 [D+"concat.go",D+"checks.go","utils/utils.go"],[("offset copy loop",D+"concat.go"),("congruence test of index lists",D+"concat.go")],["RowConcat, ColumnConcatView, ColumnCopyConcat, ColumnSmartConcat"])
p("A08","Reading back cells and overwritten columns",
 "Random access reads and writes exactly the addressed row of the addressed column, and leaves every cell stored elsewhere untouched. Overwriting a column makes each row read back the given value (the last one given, when several rows of a view are the same cell), converts 32-bit floats exactly, creates the column with the right type and string mark when it did not exist (the frame having at least one column or no rows), and changes no column stored elsewhere. Copying a column out yields its rows' values in order whatever its type.",
 ["inputs"],"all well-formed frames with at least one column, all columns, rows and values",
 "Tests read a few cells; frame conditions quantify over all other cells.",
 [D+"column_access.go",D+"inplace.go",D+"conversions.go",D+"dataframe_internals.go"],[("index indirection on access",D+"column_access.go")],["Get/Set, Overwrite*, CopyValuesToInterfaces, VecDense"])
p("A09","Numeric batches and row iterators deliver the frame's cells",
 "For any sequence of non-empty frames in which the requested columns exist with the same bool, int or float types, the dense matrix of a batch has one row per frame row and one column per requested column in the requested order, each entry being the frame's value (false/true as 0/1), whatever batches came before. The row iterator delivers every row exactly once in order with its view and backing positions and then reports the end, also after being reset to another frame.",
 ["inputs","histories"],"all frames, column lists, batch sequences with growing or shrinking sizes, row counts around the internal buffer size",
 "The test iterates one 1000-row frame; recycled buffers fail only for particular size sequences.",
 [D+"dense_gonum_batching.go",D+"row_iterators.go",D+"float_batching.go",D+"column_access.go"],[("recycled data buffer",D+"dense_gonum_batching.go"),("128-row block buffer",D+"row_iterators.go")],["DenseMatrix(...).At, NextRow, Reset"])
p("A10","String hashing and labelling respect equality and missingness",
 "After hashing string columns every such column of the result is an int column where a missing string is -1, any present string is a non-negative number that depends on the string only (not on row, column, frame, row order or CPU count), and all other columns are those of the source, which is unchanged. Labelling a string column yields -1 exactly for missing strings and otherwise the number the returned mapping assigns to the string, the mapping being a one-to-one correspondence between the present strings and 0..k-1 in order of first appearance.",
 ["inputs","schedules"],"all frames, column subsets, strings (also empty ones) and worker schedules",
 "Tests hash a handful of strings.",
 [D+"view.go",D+"conversions.go"],[("FNV hash modulo the largest int",D+"view.go"),("first-seen ordinal map",D+"conversions.go")],["HashStringsView, LabelToInt"])
p("A11","One-hot encoding sets exactly one category column per value",
 "After fitting, transforming a frame gives, for every row and every encoded column, exactly one true among that column's category columns: the one of the row's value when it was seen in training, otherwise the column selected by the missing policy (value -1) or unknown policy, while distinct trained values get distinct columns. Where a policy asks for errors, transforming reports an error if and only if a row has such a value. The source frame is unchanged and its other columns are kept, with the encoded columns dropped unless asked to be kept.",
 ["inputs","schedules"],"all training and transformed frames, option combinations and worker schedules",
 "Tests cover five option combinations on tiny frames.",
 ["preprocessing/one_hot.go"],[("per-column category tables and fallbacks","preprocessing/one_hot.go")],["OneHotEncoder.Fit/TransformView"])
p("A12","Imputing and scaling transform each row once with the fitted constants",
 "An imputer replaces exactly the NaN rows of its fitted columns by the fitted constant (0, 1, or the mean of the non-NaN training rows) and changes nothing else. A scaler maps each row x of its fitted columns to (x+shift)*scale exactly once, where, over the non-NaN training rows, min-max uses -min and 1/(max-min) (1 for a constant column), centering uses -mean and scaling uses the inverse standard deviation (a finite positive factor for a constant column); the inverse transform restores x up to rounding. Columns that were not fitted are untouched and the result does not depend on the CPU count.",
 ["inputs","schedules"],"all frames (also with repeated rows), option combinations and worker schedules",
 "Tests use one 5-row column where max-min is 1 and no row is repeated.",
 ["preprocessing/scaler.go","preprocessing/float_imputer.go"],[("per-column worker loops","preprocessing/scaler.go")],["FloatImputer, Scaler: Fit, TransformInplace, InverseTransformInplace"])
p("A13","CSV reading infers column types and values cell by cell",
 "With default options, a CSV column whose cells all parse as booleans becomes a bool column with those values; otherwise, if all cells parse as integers or are missing markers it becomes an int column with -1 for missing; otherwise, if all parse as floats or are missing it becomes a float column with NaN for missing; otherwise a string column with nil for missing. Every non-excluded named column, whatever its name, appears exactly once with one row per record in record order, whatever the CPU limit, and reading several files gives the rows of all of them with the same column types and string marks.",
 ["inputs","configurations","schedules"],"all record tables, headers, missing markers and CPU limits",
 "The test reads one 4-row file.",
 [D+"csv_parsing.go",D+"raw_data.go","utils/string_q.go"],[("type probes per column",D+"csv_parsing.go"),("merge of per-worker fragments",D+"raw_data.go")],["FromCSV, FromCSVFile, FromCSVFilePattern"])
p("A14","CSV writing emits every row once under its own header",
 "Writing a frame to one CSV emits a header naming each bool, int, float and string column once and then one record per row, each field being the text of that row's cell in the column named above it (the missing marker for a missing string), in row order when order is to be maintained or the rows are contiguous, otherwise in backing order. Writing to several CSVs distributes the rows so that together every row is written exactly once, also when there are more writers than rows.",
 ["inputs","schedules"],"all frames, views with reordered or repeated rows, options, writer counts",
 "The test writes one 3-row contiguous frame and does not compare the output.",
 [D+"csv_writing.go",D+"view.go"],[("256-row batches",D+"csv_writing.go"),("index sorting",D+"csv_writing.go")],["To1CSV, ToCSVs, ToCSVFiles, ToCSVDir"])
p("A15","The column work queue hands out each job once and never stalls",
 "A work queue made from any list of names and any worker limit has at least one worker and no more workers than jobs (one if there are none), delivers each name to exactly one worker, then reports exhaustion, and has room for every completion notice so that neither making the queue nor notifying ever blocks. Collecting returns after exactly one notice per job. A frame's CPU limit is always positive, whatever limit was asked for, so multi-threaded operations always have a worker.",
 ["inputs","schedules"],"all name lists (also empty names), worker limits (also zero and negative), and schedules",
 "Stalls need particular limits, names or file counts and hang rather than fail.",
 ["utils/string_q.go",D+"raw_data.go",D+"dataframe.go",D+"csv_parsing.go"],[("buffered channels sized by the number of jobs","utils/string_q.go"),("CPU limit normalisation",D+"raw_data.go")],["CreateStringQueue, Next, Notify, Wait, Results, SetMaxCPU, EmptyDataFrame"])
p("A16","Changing the text encoding is all-or-nothing and cell-exact",
 "When re-encoding a frame's text succeeds, every row of every string column holds the conversion of its former text, applied once even if several rows are the same cell, missing strings stay missing, and the frame records the new encoding. When any string cannot be converted an error is returned and every cell and the recorded encoding are exactly as before. Other columns are never touched, and copies, views and concatenations carry the recorded encoding of the frame (the first frame) they come from.",
 ["inputs","fault_sequences"],"all frames, views with repeated rows, encodings, and failing positions",
 "The test fails on one particular string in a contiguous frame.",
 [D+"inplace.go",D+"dataframe.go",D+"concat.go"],[("in-place conversion with rollback",D+"inplace.go")],["Encode, Copy, ShallowCopy, RowConcat, ColumnConcatView"])
p("A17","Column headers, construction and type conversion are faithful",
 "Headers returned by a frame list exactly its columns of that kind, are independent of the frame, and union, difference and listing behave as set operations. A builder's frame has exactly the added columns, types, values in order and string marks; renaming moves one column's data, type and mark to the new name (renaming to itself changes nothing), dropping removes exactly the named columns, and allocating adds zero-valued columns of the frame's allocated length. Converting int or bool columns to float turns exactly those columns into float columns with the numeric value of each cell.",
 ["inputs"],"all frames, names and name sets",
 "Tests compare two header lists and one drop.",
 [D+"column_header.go",D+"raw_data.go",D+"builder.go"],[("name sets backed by maps",D+"column_header.go")],["Header, And, Except, Rename, Drop, Alloc*, IntToFloats, BoolToFloats, DataBuilder"])
p("A18","The automatic preprocessor is consistent and leaves its input alone",
 "Fitting and transforming in one step gives the same frame as fitting and then transforming the same data, for every combination of imputing, scaling and kinds of columns. Excluded columns are passed through unchanged, the frame given to fit or transform is never modified, and fitted preprocessors transform identically after a JSON round trip.",
 ["inputs","configurations"],"all frames, options and exclusion lists",
 "One test trains one configuration end to end.",
 ["preprocessing/auto_preprocessor.go","preprocessing/scaler.go","preprocessing/float_imputer.go","preprocessing/one_hot.go","preprocessing/hash_encoder.go"],[("composition of the four components","preprocessing/auto_preprocessor.go")],["AutoPreprocessor.Fit, FitTransform, TransformView"])
p("A19","Predictions and error metrics are aligned row by row",
 "Prediction adds to a view of the input one float column whose value at each row is the target-unscaled linear combination of that same row's features with the learned weights, whatever the row order, batch size or other columns, and leaves the input frame unchanged. Mean squared and mean absolute error are the means of the squared and absolute differences of same-position values and panic on different lengths. Training on a float target never changes the frame it is given and never uses the target as a feature.",
 ["inputs"],"all models, frames (contiguous or not) and vectors",
 "One end-to-end test with a loose error threshold on contiguous data.",
 ["algorithms/linear_regression.go","algorithms/evaluation.go"],[("reset-index view and batch offsets","algorithms/linear_regression.go")],["LinearRegressor.Fit/Predict, MSE, MAE"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
