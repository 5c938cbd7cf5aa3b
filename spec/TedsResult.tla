----------------------------- MODULE TedsResult -----------------------------
(***************************************************************************)
(* What an operation is expected to do: the new contents d, the class x of *)
(* the exception it throws ("" for none) and a description r of the value  *)
(* it returns; and when a recorded return value (an index of V) fits.      *)
(***************************************************************************)
EXTENDS TedsValues

Val(i)    == [t |-> "val", i |-> i]       \* exactly this value
IntR(n)   == [t |-> "int", n |-> n]       \* this (small) int
WordR(w)  == [t |-> "word", w |-> w]      \* this 64-bit int
BoolR(b)  == [t |-> "bool", b |-> b]
NullR     == [t |-> "null"]
ListR(s)  == [t |-> "list", s |-> s]      \* array with keys 0..n-1, these values
PairsR(s) == [t |-> "pairs", s |-> s]     \* array of [key, value] arrays
IPairsR(s) == [t |-> "ipairs", s |-> s]   \* array of [0-based position, value] arrays
BagR(s)   == [t |-> "bag", s |-> s]       \* array with keys 0..n-1, these values in some order
KArrR(s)  == [t |-> "karr", s |-> s]      \* array whose keys, as array keys, are s[k][1] and values s[k][2]
ArrR(s)   == [t |-> "arr", s |-> s]       \* array with exactly these entries in this order
StrR(b)   == [t |-> "str", b |-> b]
OneOf(S)  == [t |-> "oneof", S |-> S]     \* any of these values
IntIn(lo, hi) == [t |-> "intin", lo |-> lo, hi |-> hi]
AnyR      == [t |-> "any"]

PosR(k) == IF k = 0 THEN NullR ELSE IntR(k - 1)
(* where, or whether, a value identical (===) to v occurs in s *)
IndexR(s, v) == IF Murky(v) THEN AnyR ELSE PosR(FindIdent(s, v))
HasR(s, v)   == IF Murky(v) THEN AnyR ELSE BoolR(FindIdent(s, v) # 0)

(* kf: a listed known finding ("" for none) and the wrong result kr it gives instead *)
Ok(d, r)  == [d |-> d, x |-> "", r |-> r, kf |-> ""]
Thr(d, c) == [d |-> d, x |-> c, r |-> AnyR, kf |-> ""]
OkKnown(d, r, id, wrong) == [d |-> d, x |-> "", r |-> r, kf |-> id, kr |-> wrong]

IsList(i, s) ==
  /\ Ty(i) = "a"
  /\ LET e == V[i].e IN
     /\ Len(e) = Len(s)
     /\ \A k \in 1..Len(s) : e[k][2] = s[k] /\ IntIs(e[k][1], k - 1)

IsPairs(i, s) ==
  /\ Ty(i) = "a"
  /\ LET e == V[i].e IN
     /\ Len(e) = Len(s)
     /\ \A k \in 1..Len(s) : IntIs(e[k][1], k - 1) /\ IsList(e[k][2], s[k])

IsIPairs(i, s) ==
  /\ Ty(i) = "a"
  /\ LET e == V[i].e IN
     /\ Len(e) = Len(s)
     /\ \A k \in 1..Len(s) :
          LET p == V[e[k][2]].e IN Len(p) = 2 /\ IntIs(p[1][2], k - 1) /\ p[2][2] = s[k]

Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
IsBag(i, s) ==
  /\ Ty(i) = "a"
  /\ LET e == V[i].e
         t == [k \in 1..Len(e) |-> e[k][2]]
     IN /\ Len(e) = Len(s)
        /\ \A k \in 1..Len(s) : IntIs(e[k][1], k - 1)
        /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])

(* what PHP makes of a value used as an array key *)
CanKey(i) == Ty(i) \notin {"a", "o"}
KeyId(i) ==
  LET v == V[i] IN
  CASE v.t = "i" -> <<"i", v.n>>
    [] v.t = "n" -> <<"s", <<>>>>
    [] v.t = "f" -> <<"i", <<0, 0, 0>>>>
    [] v.t = "t" -> <<"i", <<0, 0, 1>>>>
    [] v.t = "r" -> <<"i", W(v.h)>>
    [] v.t = "s" -> IF "z" \in DOMAIN v THEN <<"i", v.z>> ELSE <<"s", v.b>>
    [] v.t = "d" -> IF v.q = "nan" THEN <<"i", <<0, 0, 0>>>>
                    ELSE IF v.q = "huge" THEN <<"i", v.tr>>   \* PHP's own (wrapping) conversion to int
                    ELSE IF v.fr = 1 /\ v.fl[1] < 0 THEN <<"i", IF v.fl[3] = 65535 THEN <<v.fl[1] + 1, 0, 0>> ELSE <<v.fl[1], v.fl[2], v.fl[3] + 1>>>>
                    ELSE <<"i", v.fl>>
(* the PHP array built by assigning the pairs one after another *)
RECURSIVE Assign(_, _, _)
Assign(kv, k, acc) ==
  IF k > Len(kv) THEN acc
  ELSE LET id == KeyId(kv[k][1])
           p == FirstWhere(acc, LAMBDA x : x[1] = id)
       IN Assign(kv, k + 1, IF p = 0 THEN Append(acc, <<id, kv[k][2]>>) ELSE [acc EXCEPT ![p][2] = kv[k][2]])
ToArrayOf(kv, d) ==
  IF \E k \in 1..Len(kv) : ~CanKey(kv[k][1]) THEN Thr(d, "TypeError")
  ELSE Ok(d, KArrR(Assign(kv, 1, <<>>)))
IsKArr(i, s) ==
  /\ Ty(i) = "a"
  /\ LET e == V[i].e IN
     /\ Len(e) = Len(s)
     /\ \A k \in 1..Len(s) : KeyId(e[k][1]) = s[k][1] /\ e[k][2] = s[k][2]

(* ------------------------------- bits ------------------------------- *)
Bit(d, p) == IF Ty(d[p + 1]) = "t" THEN 1 ELSE 0
RECURSIVE Chunk(_, _, _)
Chunk(d, p, n) == IF n = 0 THEN 0 ELSE Bit(d, p) + 2 * Chunk(d, p + 1, n - 1)
BytesOf(d) == [k \in 1..(Len(d) \div 8) |-> Chunk(d, 8 * (k - 1), 8)]
(* the bytes of the list; what the unused bits of the last byte hold is not specified *)
BitsR(d) == [t |-> "bits", d |-> d]
FitsBits(d, r) ==
  /\ Ty(r) = "s"
  /\ LET b == V[r].b
         n == Len(d)
         q == n \div 8
     IN /\ Len(b) = (n + 7) \div 8
        /\ SubSeq(b, 1, q) = BytesOf(d)
        /\ (n % 8 # 0 => b[q + 1] % 2^(n % 8) = Chunk(d, 8 * q, n % 8))

Fits(d, r) ==
  CASE d.t = "any"   -> TRUE
    [] d.t = "val"   -> r = d.i
    [] d.t = "int"   -> IntIs(r, d.n)
    [] d.t = "word"  -> Ty(r) = "i" /\ V[r].n = d.w
    [] d.t = "bool"  -> BoolIs(r, d.b)
    [] d.t = "null"  -> Ty(r) = "n"
    [] d.t = "list"  -> IsList(r, d.s)
    [] d.t = "pairs" -> IsPairs(r, d.s)
    [] d.t = "ipairs" -> IsIPairs(r, d.s)
    [] d.t = "bag"   -> IsBag(r, d.s)
    [] d.t = "karr"  -> IsKArr(r, d.s)
    [] d.t = "arr"   -> Ty(r) = "a" /\ V[r].e = d.s
    [] d.t = "str"   -> Ty(r) = "s" /\ V[r].b = d.b
    [] d.t = "oneof" -> r \in d.S
    [] d.t = "bits"  -> FitsBits(d.d, r)
    [] d.t = "intin" -> /\ Ty(r) = "i" /\ IsSmall(V[r].n)
                        /\ ToSmall(V[r].n) >= d.lo /\ ToSmall(V[r].n) <= d.hi


(* the offset a value converts to in $seq[value]; FALSE if it is no offset *)
CanOffset(i) == \/ Ty(i) \in {"i", "t", "f", "r"}
                \/ Ty(i) = "d"
                \/ Ty(i) = "s" /\ "z" \in DOMAIN V[i]
AsOffset(i) ==
  LET v == V[i] IN
  CASE v.t = "i" -> Offset(v.n)
    [] v.t = "t" -> 1
    [] v.t = "f" -> 0
    [] v.t = "r" -> v.h
    [] v.t = "s" -> Offset(v.z)      \* strings that spell an int in canonical form carry it in z
    [] v.t = "d" -> IF v.q = "nan" THEN 0
                    ELSE IF v.q = "huge" THEN Offset(v.tr)
                    ELSE IF v.fr = 1 /\ v.fl[1] < 0 THEN Offset(v.fl) + 1 ELSE Offset(v.fl)

Cut(s, k)       == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Put(s, k, t)    == SubSeq(s, 1, k) \o t \o SubSeq(s, k + 1, Len(s))  \* t after the first k
Rep(v, n)       == [k \in 1..n |-> v]
Rev(s)          == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
NullIdx         == CHOOSE i \in 1..Len(V) : V[i].t = "n"
FalseIdx        == CHOOSE i \in 1..Len(V) : V[i].t = "f"
TrueIdx         == CHOOSE i \in 1..Len(V) : V[i].t = "t"
BoolIdx(b)      == IF b THEN TrueIdx ELSE FalseIdx
=============================================================================
