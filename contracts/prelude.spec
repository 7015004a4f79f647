// ghost N: the number of allocated rows of every column
ghost dataframe.RawData N int

pred maps(d) = d.floats != nil && d.ints != nil && d.bools != nil && d.objects != nil
pred collen(d) = d.$N >= 0 && forallk(k, d.floats, len(d.floats[k]) == d.$N) && forallk(k, d.ints, len(d.ints[k]) == d.$N) && forallk(k, d.bools, len(d.bools[k]) == d.$N) && forallk(k, d.objects, len(d.objects[k]) == d.$N)
pred strdom(d) = d.stringHeader.columns != nil ==> forallk(k, d.stringHeader.columns, d.stringHeader.columns[k] && in(k, d.objects))
pred strset(d, k) = d.stringHeader.columns != nil && in(k, d.stringHeader.columns)
pred sepsets(d) = d.shared.columns != nil ==> d.shared.columns != d.stringHeader.columns
pred idxok(df) = forall(j, 0, len(df.indices), 0 <= df.indices[j] && df.indices[j] < df.$N)
pred idxid(df) = !df.indexViewed ==> len(df.indices) == df.$N && forall(j, 0, len(df.indices), df.indices[j] == j)
pred masksep(df) = forallk(k, df.bools, ref(df.bools[k]) != ref(df.mask) || len(df.bools[k]) == 0)
pred idxsep(df) = forallk(k, df.ints, ref(df.ints[k]) != ref(df.indices) || len(df.ints[k]) == 0)
pred raw(d) = maps(d) && collen(d) && strdom(d) && sepsets(d) && d.maxCPU >= 1
pred wf(df) = raw(df) && idxok(df) && idxid(df) && len(df.mask) >= len(df.indices) && masksep(df) && idxsep(df)

// same columns, same kinds, same string marks
pred strsame(r, df) = foralls(k, strset(r, k) == strset(df, k))
pred schema(r, df) = samedom(r.floats, df.floats) && samedom(r.ints, df.ints) && samedom(r.bools, df.bools) && samedom(r.objects, df.objects) && strsame(r, df) && r.textEncoding == df.textEncoding && r.maxCPU == df.maxCPU
// row j of r is row i of df: every cell is the same storage cell
pred cellK(r, j, c, df, i, d) = ref(c) == ref(d) && off(c) + r.indices[j] == off(d) + df.indices[i]
pred rowis(r, j, df, i) = forallk(k, df.floats, cellK(r, j, r.floats[k], df, i, df.floats[k])) && forallk(k, df.ints, cellK(r, j, r.ints[k], df, i, df.ints[k])) && forallk(k, df.bools, cellK(r, j, r.bools[k], df, i, df.bools[k])) && forallk(k, df.objects, cellK(r, j, r.objects[k], df, i, df.objects[k]))

// number of true entries of a bool row between two positions
fun cnt([]bool, int, int) int
axiom all(v(a,rowof(bool)), v(lo,int), v(hi,int), trig(cnt(a,lo,hi)), 0 <= cnt(a,lo,hi) && (hi <= lo ==> cnt(a,lo,hi) == 0) && (lo <= hi ==> cnt(a,lo,hi) <= hi - lo))
axiom all(v(a,rowof(bool)), v(lo,int), v(hi,int), trig(cnt(a,lo,hi), at(a,hi)), lo <= hi ==> cnt(a,lo,hi+1) == cnt(a,lo,hi) + ite(at(a,hi), 1, 0))
pred ntrue(mask, j) = cnt(row(mask), off(mask), off(mask) + j)

// a permutation of 0..n-1
pred perm(p, n) = forall(a, 0, n, 0 <= at(p,a) && at(p,a) < n) && forall(a, 0, n, forall(b, 0, n, a < b ==> at(p,a) != at(p,b)))
