------------------------------ MODULE TedsSeq -------------------------------
(***************************************************************************)
(* Teds\Sequence: Vector, Deque, IntVector, LowMemoryVector, BitVector,    *)
(* ImmutableSequence and EmptySequence are lists of values.  SeqOp says    *)
(* what each public operation does to the list and returns.                *)
(***************************************************************************)
EXTENDS TedsResult

MutSeq == {"Vector", "Deque", "IntVector", "LowMemoryVector", "BitVector"}
SeqClasses == MutSeq \cup {"ImmutableSequence", "EmptySequence"}

(* values a class can hold *)
Storable(c, v) == CASE c = "IntVector" -> Ty(v) = "i"
                    [] c = "BitVector" -> Ty(v) \in {"t", "f"}
                    [] OTHER -> TRUE
AllStorable(c, a) == \A k \in 1..Len(a) : Storable(c, a[k])
(* the values before the first one that cannot be stored *)
GoodPrefix(c, a) ==
  LET k == FirstWhere(a, LAMBDA v : ~Storable(c, v)) IN IF k = 0 THEN a ELSE SubSeq(a, 1, k - 1)

SeqMutators == {"push", "pushInts", "pushBits", "pushFront", "unshift", "insert", "pop", "popFront", "shift",
                "set", "setInt", "setBit", "offsetSet", "offsetUnset", "[]set", "[]push", "[]unset", "clear"}

(* failing writes: a bad value is noticed before a bad offset by the typed vectors *)
SeqWrite(c, d, o, v, oob) ==
  IF ~Storable(c, v) THEN Thr(d, "TypeError")
  ELSE IF ~CanOffset(o) THEN Thr(d, "TypeError")
  ELSE IF AsOffset(o) < 0 \/ AsOffset(o) >= Len(d) THEN Thr(d, oob)
  ELSE Ok([d EXCEPT ![AsOffset(o) + 1] = v], NullR)

(* a: argument values (indices of V) *)
MutSeqOp(c, op, d, a) ==
  LET n == Len(d) IN
  CASE op \in {"push", "pushInts", "pushBits"} ->
         IF AllStorable(c, a) THEN Ok(d \o a, NullR) ELSE Thr(d \o GoodPrefix(c, a), "TypeError")
    [] op \in {"pushFront", "unshift"} ->
         IF AllStorable(c, a) THEN Ok(Rev(a) \o d, NullR)
         ELSE Thr(IF c = "BitVector" THEN Rev(GoodPrefix(c, a)) \o d ELSE d, "TypeError")
    [] op = "insert" ->
         LET o == Offset(V[a[1]].n)
             vs == Tail(a)
         IN IF o < 0 \/ o > n THEN Thr(d, "OutOfBoundsException")
            ELSE IF AllStorable(c, vs) THEN Ok(Put(d, o, vs), NullR)
            ELSE Thr(IF c = "BitVector" THEN Put(d, o, GoodPrefix(c, vs)) ELSE d, "TypeError")
    [] op = "pop" -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(Front(d), Val(Last(d)))
    [] op \in {"popFront", "shift"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(Tail(d), Val(Head(d)))
    [] op \in {"set", "setInt", "setBit"} -> SeqWrite(c, d, a[1], a[2], "OutOfBoundsException")
    [] op = "offsetSet" -> SeqWrite(c, d, a[1], a[2], "OutOfBoundsException")
    [] op = "[]set" -> SeqWrite(c, d, a[1], a[2], IF c = "Deque" THEN "RuntimeException" ELSE "OutOfBoundsException")
    [] op = "[]push" -> IF Storable(c, a[1]) THEN Ok(Append(d, a[1]), NullR) ELSE Thr(d, "TypeError")
    [] op \in {"offsetUnset", "[]unset"} ->
         IF ~CanOffset(a[1]) THEN Thr(d, "TypeError")
         ELSE LET o == AsOffset(a[1]) IN
              IF o < 0 \/ o >= n THEN Thr(d, "OutOfBoundsException") ELSE Ok(Cut(d, o + 1), NullR)
    [] op = "clear" -> Ok(<<>>, NullR)
    [] op = "setSize" ->
         LET s == Offset(V[a[1]].n) IN
         IF s < 0 THEN Thr(d, "ValueError")
         ELSE IF s <= n THEN Ok(SubSeq(d, 1, s), NullR)
         ELSE Ok(d \o Rep(IF Len(a) > 1 THEN a[2] ELSE IF c = "BitVector" THEN FalseIdx ELSE NullIdx, s - n), NullR)
    [] op \in {"reserve", "shrinkToFit"} -> Ok(d, NullR)

(* operations that only read *)
SeqReads == {"get", "offsetGet", "[]get", "first", "last", "bottom", "top", "count", "count()", "isEmpty", "toArray", "values", "jsonSerialize",
             "indexOf", "contains", "containsKey", "offsetExists", "[]isset", "[]empty", "[]??", "capacity", "(array)", "foreach", "foreachkv", "iterator_to_array"}
SeqRead(c, op, d, a) ==
  LET n == Len(d) IN
  CASE op = "get" -> LET o == Offset(V[a[1]].n) IN
         IF o < 0 \/ o >= n THEN Thr(d, "OutOfBoundsException") ELSE Ok(d, Val(d[o + 1]))
    [] op \in {"offsetGet", "[]get"} ->
         IF ~CanOffset(a[1]) THEN Thr(d, "TypeError")
         ELSE LET o == AsOffset(a[1]) IN
              IF o < 0 \/ o >= n THEN Thr(d, "OutOfBoundsException") ELSE Ok(d, Val(d[o + 1]))
    [] op \in {"first", "bottom"} -> IF n = 0 THEN Thr(d, IF c = "EmptySequence" THEN "OutOfBoundsException" ELSE "UnderflowException") ELSE Ok(d, Val(d[1]))
    [] op \in {"last", "top"}  -> IF n = 0 THEN Thr(d, IF c = "EmptySequence" THEN "OutOfBoundsException" ELSE "UnderflowException") ELSE Ok(d, Val(d[n]))
    [] op \in {"count", "count()"} -> Ok(d, IntR(n))
    [] op = "isEmpty" -> Ok(d, BoolR(n = 0))
    [] op \in {"toArray", "values", "jsonSerialize", "(array)", "foreach", "iterator_to_array"} -> Ok(d, ListR(d))
    [] op = "foreachkv" -> Ok(d, IPairsR(d))
    [] op = "indexOf" -> IF c = "BitVector"
         THEN OkKnown(d, IndexR(d, a[1]), "KF-BITVECTOR-INDEXOF", PosR(FindIdent(d, BoolIdx(Ty(a[1]) = "f"))))
         ELSE Ok(d, IndexR(d, a[1]))
    [] op = "contains" -> IF c = "BitVector" /\ Ty(a[1]) \in {"t", "f"}
         THEN OkKnown(d, HasR(d, a[1]), "KF-BITVECTOR-CONTAINS", BoolR(FindIdent(d, BoolIdx(Ty(a[1]) = "f")) # 0))
         ELSE Ok(d, HasR(d, a[1]))
    [] op = "containsKey" -> Ok(d, BoolR(Ty(a[1]) = "i" /\ Offset(V[a[1]].n) >= 0 /\ Offset(V[a[1]].n) < n))
    [] op \in {"offsetExists", "[]isset", "[]empty", "[]??"} ->
         IF ~CanOffset(a[1]) THEN Thr(d, "TypeError")
         ELSE LET o == AsOffset(a[1])
                  in == o >= 0 /\ o < n
                  there == in /\ (IF in THEN Ty(d[o + 1]) # "n" ELSE FALSE)
              IN CASE op = "[]empty" -> Ok(d, BoolR(IF there THEN ~Truthy(d[o + 1]) ELSE TRUE))
                   [] op = "[]??" -> Ok(d, IF there THEN Val(d[o + 1]) ELSE Val(a[2]))
                   [] OTHER -> Ok(d, BoolR(there))
    [] op = "capacity" -> Ok(d, IntIn(n, FAR))

SeqOp(c, op, d, a) ==
  IF op \in SeqReads THEN SeqRead(c, op, d, a)
  ELSE IF c \in MutSeq THEN MutSeqOp(c, op, d, a)
  ELSE IF c = "EmptySequence" /\ op = "clear" THEN Ok(d, NullR)
  ELSE Thr(d, "Teds\\UnsupportedOperationException")
=============================================================================
