----------------------------- MODULE TedsDecode -----------------------------
(***************************************************************************)
(* Serialized forms.  Encoded(c, how, i) says whether the value i is a     *)
(* well-formed encoding of a collection of class c; DecodesTo(c, how, i,   *)
(* m) whether that collection has the contents m.  Anything else may be    *)
(* refused with an exception, or accepted as some collection that          *)
(* satisfies the invariant of its class.                                   *)
(*   how = "un" the array __unserialize() takes, "na" the string the       *)
(*   static unserialize() takes, "st" the array __set_state() takes,       *)
(*   "or" a string PHP's unserialize() was given (meaning not modelled),   *)
(*   "raw" an object no constructor has run for, "ref" __unserialize()     *)
(*   given an array whose values are references.                           *)
(***************************************************************************)
EXTENDS TedsAny

Bytes4(b, k) == b[k] + 256 * b[k + 1] + 65536 * b[k + 2] + 16777216 * b[k + 3]
Le16(b, k) == b[k] + 256 * b[k + 1]
(* the little-endian signed int of w bytes whose first byte is b[k] *)
LeInt(b, k, w) ==
  CASE w = 1 -> W(IF b[k] >= 128 THEN b[k] - 256 ELSE b[k])
    [] w = 2 -> LET c == Le16(b, k) IN W(IF c >= 32768 THEN c - 65536 ELSE c)
    [] w = 4 -> LET m == Le16(b, k + 2) IN << IF m >= 32768 THEN 0 - 1 ELSE 0, m, Le16(b, k) >>
    [] w = 8 -> LET h == Le16(b, k + 6) IN << (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + Le16(b, k + 4), Le16(b, k + 2), Le16(b, k) >>
Ints(b, w) == [k \in 1..(Len(b) \div w) |-> LeInt(b, w * (k - 1) + 1, w)]
IntsFit(ns, m) == Len(ns) = Len(m) /\ \A k \in 1..Len(m) : Ty(m[k]) = "i" /\ V[m[k]].n = ns[k]
Increasing(ns) == \A k \in 1..(Len(ns) - 1) : LtN(ns[k], ns[k + 1])
TagWidth(t) == IF t = 1 THEN 1 ELSE IF t = 2 THEN 2 ELSE IF t = 3 THEN 4 ELSE 8

(* the double with these eight bytes: q and s of its row *)
Minus(n) == LET lo == (65536 - n[3]) % 65536
                bl == IF n[3] = 0 THEN 0 ELSE 1
                mi == (65536 - n[2] - bl) % 65536
                bm == IF n[2] + bl = 0 THEN 0 ELSE 1
            IN << 0 - n[1] - bm, mi, lo >>
DoubleFits(b, k, i) ==
  LET n == LeInt(b, k, 8)
      mag == IF n[1] < 0 THEN << n[1] + 2147483647 + 1, n[2], n[3] >> ELSE n
      nan == mag[1] > 2146435072 \/ (mag[1] = 2146435072 /\ (mag[2] # 0 \/ mag[3] # 0))
  IN /\ Ty(i) = "d"
     /\ IF nan THEN V[i].q = "nan" ELSE V[i].q # "nan" /\ V[i].s = (IF n[1] < 0 THEN Minus(mag) ELSE mag)

(* the strings of the binary form of an ImmutableSortedStringSet; <<FALSE>> if it is malformed *)
RECURSIVE Strings(_, _, _, _)
Strings(b, k, n, acc) ==
  IF n = 0 THEN (IF k = Len(b) + 1 THEN <<TRUE, acc>> ELSE <<FALSE>>)
  ELSE IF k > Len(b) THEN <<FALSE>>
  ELSE LET t == b[k]
           h == IF t <= 252 THEN 1 ELSE IF t = 253 THEN 3 ELSE IF t = 254 THEN 5 ELSE 0
       IN IF h = 0 \/ k + h - 1 > Len(b) THEN <<FALSE>>
          ELSE IF h = 5 /\ b[k + 4] > 0 THEN <<FALSE>>
          ELSE LET len == IF h = 1 THEN t ELSE IF h = 3 THEN Le16(b, k + 1) ELSE Bytes4(b, k + 1)
               IN IF k + h + len - 1 > Len(b) \/ (h = 3 /\ len <= 252) \/ (h = 5 /\ len <= 65535) THEN <<FALSE>>
                  ELSE LET s == SubSeq(b, k + h, k + h + len - 1)
                       IN IF acc # <<>> /\ CmpStr(acc[Len(acc)], s) >= 0 THEN <<FALSE>>
                          ELSE Strings(b, k + h + len, n - 1, Append(acc, s))
StringSet(b) == IF Len(b) <= 4 THEN <<FALSE>> ELSE IF b[4] > 0 THEN <<FALSE>> ELSE Strings(b, 5, Bytes4(b, 1), <<>>)

(* arrays given to a decoder *)
Entries(i) == V[i].e
IntKeys(i) == \A k \in 1..Len(Entries(i)) : Ty(Entries(i)[k][1]) = "i"
ListKeys(i) == \A k \in 1..Len(Entries(i)) : IntIs(Entries(i)[k][1], k - 1)
ValuesIn(i) == [k \in 1..Len(Entries(i)) |-> Entries(i)[k][2]]
FlatPairs(i) == LET v == ValuesIn(i) IN [k \in 1..(Len(v) \div 2) |-> <<v[2 * k - 1], v[2 * k]>>]
IsPair(i) == Ty(i) = "a" /\ (IF Ty(i) = "a" THEN Len(Entries(i)) = 2 /\ ListKeys(i) ELSE FALSE)
TagOf(i) == IF Len(Entries(i)) # 2 \/ ~ListKeys(i) THEN 0 - 1
            ELSE LET t == Entries(i)[1][2] IN IF Ty(t) # "i" THEN 0 - 1 ELSE IF IsSmall(V[t].n) THEN ToSmall(V[t].n) ELSE 0 - 1
DataOf(i) == Entries(i)[2][2]
ListClasses == {"Vector", "Deque", "ImmutableSequence", "StrictHashSet", "StrictTreeSet", "StrictSortedVectorSet", "StrictMinHeap", "StrictMaxHeap"}
IntClasses == {"IntVector"} \cup IntSets
BitsOk(b) == Len(b) >= 2 /\ b[Len(b)] <= 7

Encoded(c, how, i) ==
  CASE how \in {"or", "raw", "ref"} -> FALSE
    [] how = "na" -> LET b == V[i].b
                         n == Len(b)
                     IN (CASE c = "BitVector" -> BitsOk(b)
                           [] c = "IntVector" -> IF n < 2 THEN n = 0 ELSE b[n] \in 1..4 /\ (n - 1) % TagWidth(b[n]) = 0
                           [] c = "ImmutableSortedStringSet" -> StringSet(b)[1])
    [] how = "st" -> /\ ListKeys(i)
                     /\ \A k \in 1..Len(Entries(i)) :
                          LET v == Entries(i)[k][2] IN
                          IF c \in MapClasses \cup KvClasses THEN IsPair(v) ELSE IF c \in SeqClasses THEN Storable(c, v) ELSE IF c \in SetClasses THEN InSet(c, v) ELSE TRUE
    [] how = "un" ->
      (CASE c \in ListClasses -> IntKeys(i)
         [] c \in MapClasses \cup KvClasses -> IntKeys(i) /\ Len(Entries(i)) % 2 = 0
         [] Entries(i) = <<>> -> TRUE
         [] c \in IntClasses -> LET t == TagOf(i) IN
              /\ t \in 1..4 /\ (IF t \in 1..4 THEN Ty(DataOf(i)) = "s" ELSE FALSE)
              /\ LET b == V[DataOf(i)].b IN Len(b) > 0 /\ Len(b) % TagWidth(t) = 0 /\ (c \in IntSets => Increasing(Ints(b, TagWidth(t))))
         [] c \in {"BitVector", "ImmutableSortedStringSet"} ->
              /\ Len(Entries(i)) = 1 /\ ListKeys(i) /\ Ty(Entries(i)[1][2]) = "s"
              /\ LET b == V[Entries(i)[1][2]].b IN IF c = "BitVector" THEN BitsOk(b) ELSE StringSet(b)[1]
         [] c = "LowMemoryVector" ->
              LET t == TagOf(i) IN
              IF t \notin 0..7 THEN FALSE
              ELSE IF t = 7 THEN Ty(DataOf(i)) = "a" /\ (IF Ty(DataOf(i)) = "a" THEN ListKeys(DataOf(i)) ELSE FALSE)
              ELSE IF Ty(DataOf(i)) # "s" THEN FALSE
              ELSE LET b == V[DataOf(i)].b
                       n == Len(b)
                   IN CASE t = 0 -> BitsOk(b) [] t = 1 -> n >= 2 /\ b[n] <= 3
                        [] t = 6 -> n > 0 /\ n % 8 = 0 [] OTHER -> n > 0 /\ n % TagWidth(t - 1) = 0)

BitsFit(b, m) == /\ Len(m) = 8 * (Len(b) - 1) - b[Len(b)]
                 /\ \A k \in 1..Len(m) : BoolIs(m[k], (b[(k - 1) \div 8 + 1] \div 2^((k - 1) % 8)) % 2 = 1)
PairsFit(b, m) == /\ Len(m) = 4 * (Len(b) - 1) - b[Len(b)]
                  /\ \A k \in 1..Len(m) : LET p == (b[(k - 1) \div 4 + 1] \div 4^((k - 1) % 4)) % 4
                                          IN Ty(m[k]) = (IF p <= 1 THEN "n" ELSE IF p = 2 THEN "f" ELSE "t")
StringsFit(b, m) == LET s == StringSet(b)[2] IN Len(s) = Len(m) /\ \A k \in 1..Len(m) : Ty(m[k]) = "s" /\ V[m[k]].b = s[k]

(* contents of a collection of class c built from an iterable: values vs for *)
(* sequences, sets and heaps, pairs for maps and key-value iterables          *)
Built(c, vs) ==
  CASE c \in SeqClasses -> vs
    [] c \in MapClasses -> MapOf(c, vs)
    [] c \in SetClasses -> SetOf(c, vs)
    [] c \in HeapClasses -> BagOf(vs)
    [] c \in KvClasses -> vs

DecodesTo(c, how, i, m) ==
  CASE how = "na" -> LET b == V[i].b
                         n == Len(b)
                     IN (CASE c = "BitVector" -> BitsFit(b, m)
                           [] c = "IntVector" -> IF n = 0 THEN m = <<>> ELSE IntsFit(Ints(SubSeq(b, 1, n - 1), TagWidth(b[n])), m)
                           [] c = "ImmutableSortedStringSet" -> StringsFit(b, m))
    [] how = "st" -> m = Built(c, IF c \in MapClasses \cup KvClasses THEN [k \in 1..Len(Entries(i)) |-> ValuesIn(Entries(i)[k][2])] ELSE ValuesIn(i))
    [] how = "un" ->
       CASE c \in ListClasses -> m = Built(c, ValuesIn(i))
         [] c \in MapClasses \cup KvClasses -> m = Built(c, FlatPairs(i))
         [] Entries(i) = <<>> -> m = <<>>
         [] c \in IntClasses -> IntsFit(Ints(V[DataOf(i)].b, TagWidth(TagOf(i))), m)
         [] c = "BitVector" -> BitsFit(V[Entries(i)[1][2]].b, m)
         [] c = "ImmutableSortedStringSet" -> StringsFit(V[Entries(i)[1][2]].b, m)
         [] c = "LowMemoryVector" ->
              LET t == TagOf(i) IN
              IF t = 7 THEN m = ValuesIn(DataOf(i))
              ELSE LET b == V[DataOf(i)].b IN
                   CASE t = 0 -> BitsFit(b, m) [] t = 1 -> PairsFit(b, m)
                     [] t = 6 -> Len(m) = Len(b) \div 8 /\ \A k \in 1..Len(m) : DoubleFits(b, 8 * (k - 1) + 1, m[k])
                     [] OTHER -> IntsFit(Ints(b, TagWidth(t - 1)), m)

(* what every collection of a class satisfies *)
HashKeyed == {"StrictHashMap", "StrictHashSet"}
ClassInv(c, d) ==
  LET ks == IF c \in MapClasses THEN [k \in 1..Len(d) |-> d[k][1]] ELSE d IN
  CASE c \in SeqClasses -> \A k \in 1..Len(d) : Storable(c, d[k])
    [] c \in HashKeyed -> \A j, k \in 1..Len(ks) : j < k => ~StrictEq(ks[j], ks[k])
    [] c \in MapClasses \cup SetClasses -> /\ (c \in SetClasses => \A k \in 1..Len(ks) : InSet(c, ks[k]))
                                           /\ \A k \in 1..(Len(ks) - 1) : StableCmp(ks[k], ks[k + 1]) < 0
    [] OTHER -> TRUE
=============================================================================
