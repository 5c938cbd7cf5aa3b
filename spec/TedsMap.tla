------------------------------ MODULE TedsMap -------------------------------
(***************************************************************************)
(* Teds\Map: contents are a sequence of <<key, value>> pairs with distinct *)
(* keys.  StrictHashMap: insertion order, keys told apart by               *)
(* strict_equals.  StrictTreeMap, StrictSortedVectorMap: ascending         *)
(* stable_compare order.  EmptyMap: always empty.                          *)
(***************************************************************************)
EXTENDS TedsResult

SortedMaps == {"StrictTreeMap", "StrictSortedVectorMap"}
MutMaps == SortedMaps \cup {"StrictHashMap"}
MapClasses == MutMaps \cup {"EmptyMap"}

Keys(d) == [k \in 1..Len(d) |-> d[k][1]]
Vals(d) == [k \in 1..Len(d) |-> d[k][2]]

(* number of elements of the ascending sequence s (through key K) below v *)
Below(s, v, K(_)) ==
  LET RECURSIVE f(_, _)
      f(lo, hi) == IF lo >= hi THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN
                        IF StableCmp(K(s[m + 1]), v) < 0 THEN f(m + 1, hi) ELSE f(lo, m)
  IN f(0, Len(s))
Fst(p) == p[1]
Self(x) == x

(* position of a key (0 if absent) *)
MapFind(c, d, k) ==
  IF c \in SortedMaps
  THEN LET b == Below(d, k, Fst) IN IF b < Len(d) /\ StableCmp(d[b + 1][1], k) = 0 THEN b + 1 ELSE 0
  ELSE FirstWhere(d, LAMBDA p : StrictEq(p[1], k))
MapSet(c, d, k, v) ==
  LET p == MapFind(c, d, k) IN
  IF p # 0 THEN [d EXCEPT ![p][2] = v]
  ELSE IF c \in SortedMaps THEN Put(d, Below(d, k, Fst), << <<k, v>> >>)
  ELSE Append(d, <<k, v>>)
RECURSIVE MapFill(_, _, _, _)
MapFill(c, d, kv, n) == IF n > Len(kv) THEN d ELSE MapFill(c, MapSet(c, d, kv[n][1], kv[n][2]), kv, n + 1)
MapOf(c, kv) ==
  IF AllApart(Keys(kv)) THEN (IF c \in SortedMaps THEN Sorted(kv, LAMBDA x, y : StableCmp(x[1], y[1]) < 0) ELSE kv)
  ELSE MapFill(c, <<>>, kv, 1)

MapReads == {"get", "offsetGet", "[]get", "offsetExists", "[]isset", "[]empty", "[]??", "containsKey", "contains", "containsValue", "keys", "values",
             "toPairs", "jsonSerialize", "(array)", "toArray", "iterator_to_array", "count", "count()", "isEmpty", "first", "bottom", "last", "top", "firstKey", "bottomKey",
             "lastKey", "topKey", "foreach", "foreachkv"}
MapOp(c, op, d, a) ==
  LET n == Len(d) IN
  CASE op \in {"get", "offsetGet", "[]get"} ->
         LET p == MapFind(c, d, a[1]) IN
         IF p # 0 THEN Ok(d, Val(d[p][2]))
         ELSE IF Len(a) > 1 THEN Ok(d, Val(a[2])) ELSE Thr(d, "OutOfBoundsException")
    [] op = "containsKey" -> Ok(d, BoolR(MapFind(c, d, a[1]) # 0))
    [] op \in {"offsetExists", "[]isset", "[]empty", "[]??"} ->
         LET p == MapFind(c, d, a[1])
             there == p # 0 /\ (IF p # 0 THEN Ty(d[p][2]) # "n" ELSE FALSE)
         IN CASE op = "[]empty" -> Ok(d, BoolR(IF there THEN ~Truthy(d[p][2]) ELSE TRUE))
              [] op = "[]??" -> Ok(d, IF there THEN Val(d[p][2]) ELSE Val(a[2]))
              [] OTHER -> Ok(d, BoolR(there))
    [] op \in {"contains", "containsValue"} -> Ok(d, HasR(Vals(d), a[1]))
    [] op = "keys" -> Ok(d, ListR(Keys(d)))
    [] op \in {"values", "foreach"} -> Ok(d, ListR(Vals(d)))
    [] op \in {"toPairs", "jsonSerialize", "(array)", "foreachkv"} -> Ok(d, PairsR(d))
    [] op \in {"toArray", "iterator_to_array"} -> ToArrayOf(d, d)
    [] op \in {"count", "count()"} -> Ok(d, IntR(n))
    [] op = "isEmpty" -> Ok(d, BoolR(n = 0))
    [] op \in {"first", "bottom"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(d, Val(d[1][2]))
    [] op \in {"last", "top"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(d, Val(d[n][2]))
    [] op \in {"firstKey", "bottomKey"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(d, Val(d[1][1]))
    [] op \in {"lastKey", "topKey"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(d, Val(d[n][1]))
    [] c = "EmptyMap" -> IF op \in {"clear", "offsetUnset", "[]unset"} THEN Ok(d, NullR) ELSE Thr(d, "Teds\\UnsupportedOperationException")
    [] op \in {"offsetSet", "[]set"} -> Ok(MapSet(c, d, a[1], a[2]), NullR)
    [] op = "[]push" -> Thr(d, "RuntimeException")
    [] op \in {"offsetUnset", "[]unset"} -> LET p == MapFind(c, d, a[1]) IN Ok(IF p = 0 THEN d ELSE Cut(d, p), NullR)
    [] op = "pop" -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(Front(d), ListR(d[n]))
    [] op \in {"popFront", "shift"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(Tail(d), ListR(d[1]))
    [] op = "clear" -> Ok(<<>>, NullR)
=============================================================================
