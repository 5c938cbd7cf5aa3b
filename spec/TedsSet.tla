------------------------------ MODULE TedsSet -------------------------------
(***************************************************************************)
(* Teds\Set: contents are a sequence of distinct values, in insertion      *)
(* order (StrictHashSet) or ascending (all the others).                    *)
(***************************************************************************)
EXTENDS TedsMap

IntSets == {"SortedIntVectorSet", "ImmutableSortedIntSet"}
SortedSets == {"StrictTreeSet", "StrictSortedVectorSet", "ImmutableSortedStringSet"} \cup IntSets
MutSets == {"StrictHashSet", "StrictTreeSet", "StrictSortedVectorSet", "SortedIntVectorSet"}
SetClasses == MutSets \cup SortedSets \cup {"EmptySet"}

InSet(c, v) == CASE c \in IntSets -> Ty(v) = "i" [] c = "ImmutableSortedStringSet" -> Ty(v) = "s" [] OTHER -> TRUE
SetFind(c, d, v) ==
  IF ~InSet(c, v) THEN 0
  ELSE IF c \in SortedSets
  THEN LET b == Below(d, v, Self) IN IF b < Len(d) /\ StableCmp(d[b + 1], v) = 0 THEN b + 1 ELSE 0
  ELSE FindEq(d, v)
SetAdd(c, d, v) ==
  IF SetFind(c, d, v) # 0 THEN d
  ELSE IF c \in SortedSets THEN Put(d, Below(d, v, Self), <<v>>) ELSE Append(d, v)
RECURSIVE SetFill(_, _, _, _)
SetFill(c, d, vs, n) == IF n > Len(vs) THEN d ELSE SetFill(c, SetAdd(c, d, vs[n]), vs, n + 1)
SetOf(c, vs) ==
  IF AllApart(vs) THEN (IF c \in SortedSets THEN Sorted(vs, LAMBDA x, y : StableCmp(x, y) < 0) ELSE vs)
  ELSE SetFill(c, <<>>, vs, 1)

SetOp(c, op, d, a) ==
  LET n == Len(d)
      self == [k \in 1..n |-> <<d[k], d[k]>>]
  IN
  CASE op = "contains" -> Ok(d, BoolR(SetFind(c, d, a[1]) # 0))
    [] op \in {"values", "foreach", "jsonSerialize", "(array)"} -> Ok(d, ListR(d))
    [] op = "toArray" -> IF c \in IntSets \cup {"ImmutableSortedStringSet", "EmptySet"} THEN Ok(d, ListR(d)) ELSE ToArrayOf(self, d)
    [] op = "foreachkv" -> Ok(d, IF c \in IntSets \cup {"ImmutableSortedStringSet"} THEN IPairsR(d) ELSE PairsR(self))
    [] op \in {"count", "count()"} -> Ok(d, IntR(n))
    [] op = "isEmpty" -> Ok(d, BoolR(n = 0))
    [] op \in {"first", "bottom"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(d, Val(d[1]))
    [] op \in {"last", "top"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(d, Val(d[n]))
    [] op = "get" -> LET o == Offset(V[a[1]].n) IN
         IF o < 0 \/ o >= n THEN Thr(d, "OutOfBoundsException") ELSE Ok(d, Val(d[o + 1]))
    [] op = "indexOf" -> LET p == SetFind(c, d, a[1]) IN Ok(d, IF p = 0 THEN NullR ELSE IntR(p - 1))
    [] op = "capacity" -> Ok(d, IntIn(n, FAR))
    [] c = "EmptySet" -> CASE op = "clear" -> Ok(d, NullR) [] op = "remove" -> Ok(d, BoolR(FALSE))
                           [] OTHER -> Thr(d, "Teds\\UnsupportedOperationException")
    [] c \notin MutSets -> Thr(d, "Teds\\UnsupportedOperationException")
    [] op = "add" -> IF ~InSet(c, a[1]) THEN Thr(d, "TypeError")
                     ELSE Ok(SetAdd(c, d, a[1]), BoolR(SetFind(c, d, a[1]) = 0))
    [] op = "remove" ->
         IF ~InSet(c, a[1]) THEN Thr(d, "TypeError")
         ELSE LET p == SetFind(c, d, a[1]) IN
              IF p = 0 THEN Ok(d, BoolR(FALSE))
              ELSE IF c = "SortedIntVectorSet" THEN OkKnown(Cut(d, p), BoolR(TRUE), "KF-SIVS-REMOVE", BoolR(FALSE))
              ELSE Ok(Cut(d, p), BoolR(TRUE))
    [] op = "pop" -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(Front(d), Val(d[n]))
    [] op \in {"popFront", "shift"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(Tail(d), Val(d[1]))
    [] op = "clear" -> Ok(<<>>, NullR)
=============================================================================
