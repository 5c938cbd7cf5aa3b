------------------------------- MODULE TedsFn -------------------------------
(***************************************************************************)
(* The functions of the extension.                                         *)
(***************************************************************************)
EXTENDS TedsResult

(* the first of every class of equal values, in order *)
RECURSIVE Firsts(_, _, _)
Firsts(a, k, acc) == IF k > Len(a) THEN acc
                     ELSE Firsts(a, k + 1, IF FindEq(acc, a[k]) = 0 THEN Append(acc, a[k]) ELSE acc)

(* any, all, none, find, fold, includes_value over the values s: the callback is  *)
(* called once per element in order up to the one that decides; then nothing more *)
(* is read.  The source throws at element e.fail (0: never).                      *)
FnCalls(e) == Len(e.cb)
StopTruth(f) == CASE f \in {"any", "none", "find"} -> TRUE [] f = "all" -> FALSE
(* the verdict on the k-th element: does it decide the result? *)
Decides(e, k) ==
  CASE e.f = "fold" -> FALSE
    [] e.f = "includes_value" -> Ident(e.s[k], e.a[1])
    [] e.use = 1 -> Truthy(e.cb[k].r) = StopTruth(e.f)
    [] OTHER -> Truthy(e.s[k]) = StopTruth(e.f)
FnCase(e) ==
  LET n == Len(e.s)
      m == Len(e.cb)
      reach == IF e.fail # 0 THEN e.fail - 1 ELSE n     \* elements the source can deliver
      threw == m > 0 /\ (IF m > 0 THEN e.cb[m].x # "" ELSE FALSE)
      \* the elements looked at: all up to the deciding one
      known == IF e.use = 1 THEN (IF threw THEN m - 1 ELSE m) ELSE reach
      dec == FirstWhere([k \in 1..(IF known > n THEN n ELSE known) |-> k], LAMBDA k : Decides(e, k))
      acc(k) == IF k = 1 THEN e.a[1] ELSE e.cb[k - 1].r
      callsOk == /\ m <= reach
                 /\ \A k \in 1..m : e.cb[k].a = (IF e.f = "fold" THEN <<acc(k), e.s[k]>> ELSE <<e.s[k]>>)
                 /\ \A k \in 1..(m - 1) : e.cb[k].x = ""
      done == threw \/ dec # 0
      read == IF threw THEN m ELSE IF dec # 0 THEN dec ELSE reach
      x == IF threw THEN e.cb[m].x ELSE IF dec # 0 THEN "" ELSE IF e.fail # 0 THEN "DomainException" ELSE ""
      res == CASE e.f = "fold" -> Val(IF m = 0 THEN e.a[1] ELSE e.cb[m].r)
               [] e.f = "find" -> IF dec # 0 THEN Val(e.s[dec]) ELSE Val(e.a[1])
               [] e.f = "includes_value" -> BoolR(dec # 0)
               [] e.f = "any" -> BoolR(dec # 0)
               [] OTHER -> BoolR(dec = 0)
  IN IF e.f = "includes_value" /\ Murky(e.a[1]) THEN [x |-> e.x, r |-> AnyR]
     ELSE IF e.use = 0 /\ m # 0 THEN [x |-> "no callback was given", r |-> AnyR]
     ELSE IF e.use = 1 /\ (~callsOk \/ m # read) THEN [x |-> "callback calls differ", r |-> AnyR]
     ELSE IF e.got # 0 - 1 /\ e.got # read THEN [x |-> "other elements were read", r |-> AnyR]
     ELSE IF e.nx # 0 - 1 /\ done /\ e.nx # read - 1 THEN [x |-> "moved past the deciding element", r |-> AnyR]
     ELSE [x |-> x, r |-> res]

(* binary_search in the entries s, ascending for sign(k) = comparison of the target with the k-th entry *)
SearchBad(e, sign) ==
  LET n == Len(e.s)
      eq == {k \in 1..n : sign[k] = 0}
      below == {k \in 1..n : sign[k] > 0}
      is(f, k) == BoolIs(e.m[1], f) /\ e.m[2] = e.s[k][1] /\ e.m[3] = e.s[k][2]
  IN IF Len(e.m) # 3 THEN "not a result"
     ELSE IF eq # {} THEN (IF \E k \in eq : is(TRUE, k) THEN "" ELSE "an equal entry was not found")
     ELSE IF below # {} THEN (IF is(FALSE, CHOOSE k \in below : \A j \in below : j <= k) THEN "" ELSE "not the largest smaller entry")
     ELSE IF BoolIs(e.m[1], FALSE) /\ Ty(e.m[2]) = "n" /\ Ty(e.m[3]) = "n" THEN "" ELSE "found something"
(* entries that are numbers (n), in whatever notation: their order is that of the numbers *)
NSearchBad(e) == SearchBad(e, [k \in 1..Len(e.s) |-> e.a[1] - e.n[k]])
BSearchBad(e) ==
  LET n == Len(e.s)
      part == IF e.bykey = 1 THEN 1 ELSE 2
      sign == [k \in 1..n |-> e.dir * StableCmp(e.a[1], e.s[k][part])]
      callsOk == \A k \in 1..Len(e.cb) : e.cb[k][1] = e.a[1] /\ \E j \in 1..n : e.s[j][part] = e.cb[k][2]
  IN IF e.usecb = 1 /\ ~callsOk THEN "the comparer was given something else"
     ELSE IF e.t # 0 /\ Len(e.cb) >= e.t THEN (IF Len(e.cb) = e.t THEN "LengthException" ELSE "called after an exception")
     ELSE SearchBad(e, sign)

FnBad(e) ==
  LET a == e.a
      n == Len(a)
      D == 1..n
  IN CASE e.op = "cmpmat" -> IF \A i, j \in D : e.m[i][j] = StableCmp(a[i], a[j]) THEN "" ELSE "order differs"
       [] e.op = "eqmat"  -> IF \A i, j \in D : e.m[i][j] = (IF StrictEq(a[i], a[j]) THEN 1 ELSE 0) THEN "" ELSE "equality differs"
       [] e.op = "hashes" -> IF \A i, j \in D : StrictEq(a[i], a[j]) => e.m[i] = e.m[j] THEN "" ELSE "equal values with different hashes"
       [] e.op = "uniq"   -> IF e.keys = 1 /\ e.m = Firsts(a, 1, <<>>) THEN "" ELSE "not the first of each class of values"
       [] e.op = "bsearch" -> BSearchBad(e)
       [] e.op = "nsearch" -> NSearchBad(e)
FnRes(e) ==
  CASE e.op = "fn" -> FnCase(e)
    [] e.op = "edge" -> [x |-> "", r |-> IF e.s = <<>> THEN NullR ELSE Val(IF e.f = "array_value_first" THEN Head(e.s) ELSE Last(e.s))]
    [] e.op = "same" -> [x |-> "", r |-> BoolR(e.s = <<1>>)]
    [] OTHER -> [x |-> FnBad(e), r |-> AnyR]
FnOps == {"cmpmat", "eqmat", "hashes", "uniq", "bsearch", "nsearch", "fn", "edge", "same"}
=============================================================================
