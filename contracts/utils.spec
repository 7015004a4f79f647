func utils.MakeRange
  requires interval > 0 && to >= from
  ensures len(result) == (to - from + interval - 1) / interval && forall(j, 0, len(result), result[j] == from + j * interval)
  ensures fresh(result)

func utils.ToStringSet
  ensures result != nil && fresh(result)
  ensures foralls(k, in(k, result) == exists(j, 0, len(strings), strings[j] == k))
  ensures forallk(k, result, result[k])
  loop #1
    inv foralls(k, in(k, result) == exists(j, 0, $i, strings[j] == k))
    inv forallk(k, result, result[k])

