----------------------------- MODULE TedsValues -----------------------------
(***************************************************************************)
(* PHP values as Teds sees them.                                           *)
(*                                                                         *)
(* A value is named by its index in the value table V (one row per         *)
(* distinct value; scalars and strings are interned by exact type and      *)
(* bits, arrays by ordered content, objects and resources by identity).    *)
(* So  i = j  means "the very same value"; the coarser relations PHP and   *)
(* Teds use (===, strict_equals, stable_compare) are defined below over    *)
(* the structure of the rows.                                              *)
(*                                                                         *)
(* Rows: [t|->"n"] null, [t|->"f"] false, [t|->"t"] true,                  *)
(*   [t|->"i", n|-><<hi,mid,lo>>]  64-bit int, hi signed 32 bits, mid/lo   *)
(*                                 16 bits each (TLC ints have 32 bits),   *)
(*   [t|->"d", q, s, fl, fr]  float: q = "nan"/"fin"/"huge", s = its place *)
(*        in the order of the floats as a 64-bit int, for q = "fin" also   *)
(*        fl = its floor as an int and fr = 1 iff it is not integral,      *)
(*   [t|->"s", b|-><<bytes>>], [t|->"a", e|-><< <<key,value>>, ... >>],    *)
(*   [t|->"o", c|-><<bytes of the class name>>, h|->handle],               *)
(*   [t|->"r", h|->handle].                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

V == ndJsonDeserialize(IOEnv.TEDS_VALS)

Sgn(b) == IF b THEN 1 ELSE 0 - 1

(* ---------------------------- 64-bit integers -------------------------- *)
LtN(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
CmpN(a, b) == IF a = b THEN 0 ELSE IF LtN(a, b) THEN 0 - 1 ELSE 1
(* the words of a small TLC integer *)
W(n) == << IF n < 0 THEN 0 - 1 ELSE 0, (n \div 65536) % 65536, n % 65536 >>
IsSmall(w) == (w[1] = 0 /\ w[2] < 16384) \/ (w[1] = 0 - 1 /\ w[2] >= 49152)
ToSmall(w) == IF w[1] = 0 THEN w[2] * 65536 + w[3] ELSE (w[2] - 65536) * 65536 + w[3]
(* an int used as an offset: anything far away is just "far away" *)
FAR == 1000000000
Offset(w) == IF IsSmall(w) THEN ToSmall(w) ELSE IF w[1] < 0 THEN 0 - FAR ELSE FAR

Ty(i)     == V[i].t
IsInt(i)  == Ty(i) = "i"
IsBoolV(i) == Ty(i) \in {"t", "f"}
IntIs(i, n) == Ty(i) = "i" /\ V[i].n = W(n)
BoolIs(i, b) == Ty(i) = (IF b THEN "t" ELSE "f")

(* ------------------- lexicographic order of byte strings ---------------- *)
CmpStr(a, b) ==
  IF a = b THEN 0
  ELSE LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
       IF \E k \in 1..n : a[k] # b[k]
       THEN LET k == CHOOSE k \in 1..n : a[k] # b[k] /\ \A j \in 1..k - 1 : a[j] = b[j] IN Sgn(a[k] > b[k])
       ELSE Sgn(Len(a) > Len(b))

(* --------------------- ints and floats compared exactly ----------------- *)
(* sign of float - int; the int comes first when they are equal *)
CmpFloatInt(f, n) ==
  CASE f.q = "nan"  -> 1
    [] f.q = "huge" -> IF f.s[1] < 0 THEN 0 - 1 ELSE 1
    [] OTHER -> IF f.fl = n THEN 1 ELSE CmpN(f.fl, n)

CmpFloat(f, g) ==
  IF f.q = "nan" THEN (IF g.q = "nan" THEN 0 ELSE 1)
  ELSE IF g.q = "nan" THEN 0 - 1 ELSE CmpN(f.s, g.s)

(* order of the array keys of two arrays at the same place: ints by their  *)
(* unsigned value, then strings by length, then by content                 *)
CmpU(a, b) == IF a = b THEN 0
              ELSE IF (a[1] < 0) # (b[1] < 0) THEN Sgn(a[1] < 0) ELSE CmpN(a, b)
CmpKey(i, j) ==
  IF i = j THEN 0
  ELSE IF Ty(i) # Ty(j) THEN Sgn(Ty(i) = "s")
  ELSE IF Ty(i) = "i" THEN CmpU(V[i].n, V[j].n)
  ELSE IF Len(V[i].b) # Len(V[j].b) THEN Sgn(Len(V[i].b) > Len(V[j].b))
  ELSE CmpStr(V[i].b, V[j].b)

Rank(t) == CASE t = "n" -> 1 [] t = "f" -> 2 [] t = "t" -> 3 [] t = "i" -> 4 [] t = "d" -> 4
             [] t = "s" -> 6 [] t = "a" -> 7 [] t = "o" -> 8 [] t = "r" -> 9

RECURSIVE StableCmp(_, _)
RECURSIVE CmpEntries(_, _, _)
CmpEntries(x, y, k) ==
  IF k > Len(x) THEN 0
  ELSE LET ck == CmpKey(x[k][1], y[k][1]) IN
       IF ck # 0 THEN ck
       ELSE LET cv == StableCmp(x[k][2], y[k][2]) IN
            IF cv # 0 THEN cv ELSE CmpEntries(x, y, k + 1)
StableCmp(i, j) ==
  IF i = j THEN 0
  ELSE LET a == V[i]
           b == V[j]
       IN IF Rank(a.t) # Rank(b.t) THEN Sgn(Rank(a.t) > Rank(b.t))
          ELSE CASE a.t = "i" /\ b.t = "i" -> CmpN(a.n, b.n)
                 [] a.t = "d" /\ b.t = "d" -> CmpFloat(a, b)
                 [] a.t = "d" /\ b.t = "i" -> CmpFloatInt(a, b.n)
                 [] a.t = "i" /\ b.t = "d" -> 0 - CmpFloatInt(b, a.n)
                 [] a.t = "s" -> CmpStr(a.b, b.b)
                 [] a.t = "a" -> IF Len(a.e) # Len(b.e) THEN Sgn(Len(a.e) > Len(b.e))
                                 ELSE CmpEntries(a.e, b.e, 1)
                 [] a.t = "o" -> LET c == CmpStr(a.c, b.c) IN
                                 IF c # 0 THEN c ELSE IF a.h = b.h THEN 0 ELSE Sgn(a.h > b.h)
                 [] a.t = "r" -> IF a.h = b.h THEN 0 ELSE Sgn(a.h > b.h)
                 [] OTHER -> 0

(* PHP's === *)
RECURSIVE Ident(_, _)
Ident(i, j) ==
  LET a == V[i]
      b == V[j]
  IN CASE a.t # b.t -> FALSE
       [] a.t = "d" -> a.q # "nan" /\ b.q # "nan" /\ a.s = b.s
       [] a.t = "a" -> /\ Len(a.e) = Len(b.e)
                       /\ \A k \in 1..Len(a.e) : a.e[k][1] = b.e[k][1] /\ Ident(a.e[k][2], b.e[k][2])
       [] OTHER -> i = j

(* [NAN] === [NAN] holds iff both are the same array in memory, which is not modelled *)
RECURSIVE Murky(_)
Murky(i) == IF V[i].t # "a" THEN FALSE ELSE \E k \in 1..Len(V[i].e) :
              LET v == V[i].e[k][2] IN (IF V[v].t = "d" THEN V[v].q = "nan" ELSE FALSE) \/ Murky(v)

(* Teds\strict_equals: === except that NAN equals NAN *)
RECURSIVE StrictEq(_, _)
StrictEq(i, j) ==
  IF i = j THEN TRUE
  ELSE LET a == V[i]
           b == V[j]
       IN CASE a.t # b.t -> FALSE
            [] a.t = "d" -> IF a.q = "nan" \/ b.q = "nan" THEN a.q = b.q ELSE a.s = b.s
            [] a.t = "a" -> /\ Len(a.e) = Len(b.e)
                            /\ \A k \in 1..Len(a.e) : a.e[k][1] = b.e[k][1] /\ StrictEq(a.e[k][2], b.e[k][2])
            [] OTHER -> FALSE

(* PHP's conversion to bool *)
Truthy(i) ==
  LET a == V[i] IN
  CASE a.t \in {"n", "f"} -> FALSE
    [] a.t = "i" -> a.n # <<0, 0, 0>>
    [] a.t = "d" -> ~(a.q = "fin" /\ a.s = <<0, 0, 0>>)
    [] a.t = "s" -> a.b # <<>> /\ a.b # <<48>>
    [] a.t = "a" -> a.e # <<>>
    [] OTHER -> TRUE

(* positions of a sequence of values equal to v under eq; 0 if there is none *)
FirstWhere(s, P(_)) ==
  IF \E k \in 1..Len(s) : P(s[k])
  THEN CHOOSE k \in 1..Len(s) : P(s[k]) /\ \A j \in 1..k - 1 : ~P(s[j])
  ELSE 0
(* all are ints or strings, and all different: nothing to be found equal (a shortcut for long sequences) *)
AllApart(s) == /\ Len(s) > 50
               /\ \A k \in 1..Len(s) : V[s[k]].t \in {"i", "s"}
               /\ Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
(* s in ascending order (a shortcut for long sequences that are in order already) *)
Sorted(s, LT(_, _)) == IF \A k \in 1..Len(s) - 1 : ~LT(s[k + 1], s[k]) THEN s ELSE SortSeq(s, LT)
FindIdent(s, v) == FirstWhere(s, LAMBDA x : Ident(x, v))
FindEq(s, v)    == FirstWhere(s, LAMBDA x : StrictEq(x, v))
=============================================================================
