----------------------------- MODULE TedsCached -----------------------------
(***************************************************************************)
(* CachedIterable over a source that is read lazily.  The state of such a  *)
(* collection is                                                           *)
(*   src   the pairs the source would deliver, all in all,                 *)
(*   f     the number of pairs after which it throws (-1: it does not),    *)
(*   d     the pairs read so far, a prefix of src,                         *)
(*   st    "open" (there may be more), "done" or "failed".                 *)
(* Each operation needs a number of elements and reads exactly the missing *)
(* ones; the number of elements the source has delivered is recorded.      *)
(***************************************************************************)
EXTENDS TedsIter

LazyObj(m, f, s) == [c |-> "CachedIterable", src |-> m, f |-> f, s |-> s, d |-> <<>>, st |-> "open"]
IsLazy(o) == "src" \in DOMAIN o
SourceError == "DomainException"
Avail(o) == IF o.f >= 0 THEN o.f ELSE Len(o.src)
AllOf(o) == Len(o.src) + 1          \* more than there are: read to the end

(* reading until there are k pairs; busy: the source is being asked for an element already *)
Fetch(o, k, busy) ==
  IF k <= Len(o.d) \/ o.st # "open" THEN [o |-> o, x |-> ""]
  ELSE IF busy THEN [o |-> o, x |-> "RuntimeException"]
  ELSE IF k <= Avail(o) THEN [o |-> [o EXCEPT !.d = SubSeq(o.src, 1, k)], x |-> ""]
  ELSE [o |-> [o EXCEPT !.d = SubSeq(o.src, 1, Avail(o)), !.st = IF o.f >= 0 THEN "failed" ELSE "done"],
        x |-> IF o.f >= 0 THEN SourceError ELSE ""]

FullReads == {"count", "count()", "toArray", "keys", "values", "toPairs", "jsonSerialize", "(array)", "foreach", "foreachkv"}
KeySearch == {"indexOfKey", "containsKey"}
ValSearch == {"indexOfValue", "contains", "containsValue"}
Searches == KeySearch \cup ValSearch
(* how many elements an operation needs *)
Need(o, w, a) ==
  CASE w \in FullReads -> AllOf(o)
    [] w = "isEmpty" -> 1
    [] w \in {"keyAt", "valueAt"} -> Offset(V[a[1]].n) + 1
    [] w \in Searches ->
         LET all == SubSeq(o.src, 1, Avail(o))
             p == FindIdent(IF w \in KeySearch THEN Keys(all) ELSE Vals(all), a[1])
         IN IF p = 0 THEN AllOf(o) ELSE p
    [] w \in {"gc", "clear"} -> 0
LazyOp(o, w, a, busy) ==
  LET k == Need(o, w, a)
      z == Fetch(o, k, busy)
      d == z.o.d
      n == Len(d)
      q(out) == [o |-> z.o, x |-> out.x, r |-> out.r]
  IN IF z.x # "" THEN q(Thr(d, z.x))
     ELSE IF w = "gc" THEN q(Ok(d, AnyR))
     ELSE IF o.st = "failed" /\ k > Len(o.d)      \* the rest will never be known
          THEN q(CASE w \in {"keyAt", "valueAt"} -> Thr(d, "OutOfBoundsException")
                   [] w = "(array)" -> Ok(d, AnyR)
                   [] OTHER -> Thr(d, "RuntimeException"))
     ELSE IF w = "isEmpty" THEN q(Ok(d, BoolR(n = 0)))
     ELSE q(KvOp("CachedIterable", w, d, a))

(* iterators of it: at a position, whatever has been read *)
LazyIt(o, p, w, busy) ==
  LET z == Fetch(o, IF w \in {"next", "rewind"} THEN 0 ELSE p + 1, busy)
      d == z.o.d
      have == p < Len(d)
      q(x, r) == [o |-> z.o, x |-> x, r |-> r, p |-> IF w = "next" THEN p + 1 ELSE IF w = "rewind" THEN 0 ELSE p]
  IN CASE w \in {"next", "rewind"} -> q("", NullR)
       [] z.x # "" -> q(z.x, AnyR)
       [] w = "valid" -> IF have THEN q("", BoolR(TRUE)) ELSE IF o.st = "failed" THEN q("RuntimeException", AnyR) ELSE q("", BoolR(FALSE))
       [] w = "current" -> IF have THEN q("", Val(d[p + 1][2])) ELSE q("OutOfBoundsException", AnyR)
       [] w = "key" -> IF have THEN q("", Val(d[p + 1][1])) ELSE q("OutOfBoundsException", AnyR)

(* how many elements the source has delivered: e.pu for an Iterator; a generator is at its first element from the start *)
Delivered(o, e) ==
  LET n == Len(o.d) IN
  IF o.s = "it" THEN e.pu = n
  ELSE e.pu = IF n > 0 THEN n ELSE IF Avail(o) > 0 THEN 1 ELSE 0
=============================================================================
