------------------------------- MODULE TedsKv -------------------------------
(***************************************************************************)
(* Key-value iterables: a sequence of <<key, value>> pairs in which keys   *)
(* of any type may repeat.                                                 *)
(***************************************************************************)
EXTENDS TedsMap

KvClasses == {"MutableIterable", "ImmutableIterable", "CachedIterable"}

KvOp(c, op, d, a) ==
  LET n == Len(d)
      o == Offset(V[a[1]].n)
      bad == o < 0 \/ o >= n
  IN
  CASE op = "keys" -> Ok(d, ListR(Keys(d)))
    [] op \in {"values", "foreach"} -> Ok(d, ListR(Vals(d)))
    [] op \in {"toPairs", "jsonSerialize", "(array)", "foreachkv"} -> Ok(d, PairsR(d))
    [] op \in {"toArray", "iterator_to_array"} -> ToArrayOf(d, d)
    [] op \in {"count", "count()"} -> Ok(d, IntR(n))
    [] op = "isEmpty" -> Ok(d, BoolR(n = 0))
    [] op = "keyAt" -> IF bad THEN Thr(d, "OutOfBoundsException") ELSE Ok(d, Val(d[o + 1][1]))
    [] op = "valueAt" -> IF bad THEN Thr(d, "OutOfBoundsException") ELSE Ok(d, Val(d[o + 1][2]))
    [] op = "indexOfKey" -> Ok(d, IndexR(Keys(d), a[1]))
    [] op = "indexOfValue" -> Ok(d, IndexR(Vals(d), a[1]))
    [] op = "containsKey" -> Ok(d, HasR(Keys(d), a[1]))
    [] op \in {"contains", "containsValue"} -> Ok(d, HasR(Vals(d), a[1]))
    [] op = "capacity" -> Ok(d, IntIn(n, FAR))
    [] c # "MutableIterable" -> Thr(d, "Teds\\UnsupportedOperationException")
    [] op = "clear" -> Ok(<<>>, NullR)
    [] op = "push" -> Ok(Append(d, <<a[1], a[2]>>), NullR)
    [] op = "pop" -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(Front(d), ListR(d[n]))
    [] op = "setKeyAt" -> IF bad THEN Thr(d, "OutOfBoundsException") ELSE Ok([d EXCEPT ![o + 1][1] = a[2]], NullR)
    [] op = "setValueAt" -> IF bad THEN Thr(d, "OutOfBoundsException") ELSE Ok([d EXCEPT ![o + 1][2] = a[2]], NullR)
    [] op = "setSize" -> IF o < 0 THEN Thr(d, "ValueError")
                         ELSE IF o <= n THEN Ok(SubSeq(d, 1, o), NullR)
                         ELSE Ok(d \o Rep(<<NullIdx, NullIdx>>, o - n), NullR)
    [] op = "shrinkToFit" -> Ok(d, NullR)
=============================================================================
