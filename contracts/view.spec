func dataframe.(*DataFrame).NumRows
  props A01 A06
  ensures result == len(df.indices)

func dataframe.(*DataFrame).View
  props A01 A04 A05 A06
  requires wf(df)
  ensures fresh(result) && wf(result)
  ensures result.sharedMaps
  ensures result.floats == df.floats && result.ints == df.ints && result.bools == df.bools && result.objects == df.objects && result.indices == df.indices && result.mask == df.mask && result.stringHeader.columns == df.stringHeader.columns && result.shared.columns == df.shared.columns
  ensures result.$N == df.$N && result.indexViewed == df.indexViewed && result.maxCPU == df.maxCPU && result.textEncoding == df.textEncoding && result.mThreadSafe == df.mThreadSafe && result.debug == df.debug && result.dataUID == df.dataUID

func dataframe.(*DataFrame).IndexView
  props A01 A04 A06
  requires wf(df)
  requires forall(j, 0, len(indices), 0 <= indices[j] && indices[j] < len(df.indices))
  modifies elems(df.mask)
  ensures fresh(result) && wf(result)
  ensures schema(result, df)
  ensures len(result.indices) == len(indices)
  ensures forall(j, 0, len(indices), rowis(result, j, df, indices[j]))
  ensures result.sharedMaps

func dataframe.(*DataFrame).MaskView
  props A01 A04 A06
  requires wf(df)
  requires len(mask) <= len(df.indices)
  ensures fresh(result) && wf(result)
  ensures len(result.indices) == ntrue(mask, len(mask))
  ensures forall(j, 0, len(mask), mask[j] ==> rowis(result, ntrue(mask, j), df, j))
  loop mask
    inv len(result.indices) == len(mask)
    inv newSize == ntrue(mask, $i)
    inv forall(j, 0, $i, mask[j] ==> ntrue(mask, j) < newSize && result.indices[ntrue(mask, j)] == df.indices[j])
    inv forall(j, 0, newSize, 0 <= result.indices[j] && result.indices[j] < df.$N)
  ensures schema(result, df)
  ensures result.sharedMaps

func dataframe.(*DataFrame).ReverseView
  props A01 A04 A06
  requires wf(df)
  ensures fresh(result) && wf(result)
  ensures schema(result, df)
  ensures len(result.indices) == len(df.indices)
  ensures forall(j, 0, len(df.indices), rowis(result, j, df, len(df.indices) - 1 - j))
  ensures result.sharedMaps

