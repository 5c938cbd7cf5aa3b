------------------------------ MODULE TedsIter ------------------------------
(***************************************************************************)
(* Iterators over collections that change.  An iterator is in one of the   *)
(* states                                                                  *)
(*   new     not started,                                                  *)
(*   at p    at the element with offset p,                                 *)
(*   gap g   the element it was at is gone; the next step delivers the     *)
(*           element that now has offset g,                                *)
(*   lost    everything from the element it was at on is gone,             *)
(*   end     past the last element,                                        *)
(*   any     changed after the end was reached: not specified until rewind *)
(* A change of the collection is an edit: n elements inserted at an        *)
(* offset, the element at an offset deleted, all elements from an offset   *)
(* on cut off, or all of them cleared.                                     *)
(***************************************************************************)
EXTENDS TedsBits, TedsSet, TedsHeap, TedsKv

ItState(s, p) == [s |-> s, p |-> p]
Trees == {"StrictTreeMap", "StrictTreeSet"}

EditNone == [t |-> "none", o |-> 0, n |-> 0]
FirstDiff(d, e) == LET m == IF Len(d) < Len(e) THEN Len(d) ELSE Len(e)
                       k == FirstWhere([j \in 1..m |-> j], LAMBDA j : d[j] # e[j])
                   IN IF k = 0 THEN m ELSE k - 1
(* the edit that operation op with arguments a made of the contents d, giving e *)
EditOf(c, op, a, d, e) ==
  LET n == Len(d)
      m == Len(e)
  IN IF n = m THEN EditNone
     ELSE IF op = "clear" THEN [t |-> "clr", o |-> 0, n |-> 0]
     ELSE IF op = "setSize" THEN (IF m > n THEN [t |-> "ins", o |-> n, n |-> m - n] ELSE [t |-> "cut", o |-> m, n |-> 0])
     ELSE IF c \in MapClasses \cup SetClasses
          THEN (IF m > n THEN [t |-> "ins", o |-> FirstDiff(d, e), n |-> 1] ELSE [t |-> "del", o |-> FirstDiff(d, e), n |-> 1])
     ELSE CASE op \in {"push", "pushInts", "pushBits", "[]push"} -> [t |-> "ins", o |-> n, n |-> m - n]
            [] op \in {"pushFront", "unshift"} -> [t |-> "ins", o |-> 0, n |-> m - n]
            [] op = "insert" -> [t |-> "ins", o |-> Offset(V[a[1]].n), n |-> m - n]
            [] op = "pop" -> [t |-> "del", o |-> n - 1, n |-> 1]
            [] op \in {"popFront", "shift"} -> [t |-> "del", o |-> 0, n |-> 1]
            [] op \in {"offsetUnset", "[]unset"} -> [t |-> "del", o |-> AsOffset(a[1]), n |-> 1]

(* g: the iterator belongs to a foreach loop, which does not go on once it has ended *)
Adjust(c, g, s, ed) ==
  IF ed.t = "none" THEN s
  ELSE CASE s.s \in {"new", "any"} -> s
    [] s.s = "end" -> IF g \/ c \in Trees THEN s ELSE ItState("any", 0)
    [] s.s = "lost" -> ItState("any", 0)
    [] s.s = "at" -> (CASE ed.t = "ins" -> IF ed.o <= s.p THEN ItState("at", s.p + ed.n) ELSE s
                       [] ed.t = "del" -> IF ed.o < s.p THEN ItState("at", s.p - 1) ELSE IF ed.o = s.p THEN ItState("gap", s.p) ELSE s
                       [] ed.t = "cut" -> IF s.p < ed.o THEN s ELSE ItState("lost", 0)
                       [] ed.t = "clr" -> IF c \in Trees THEN ItState("gap", 0) ELSE ItState("lost", 0))
    [] s.s = "gap" -> (CASE ed.t = "ins" -> IF ed.o < s.p THEN ItState("gap", s.p + ed.n) ELSE s
                        [] ed.t = "del" -> IF ed.o < s.p THEN ItState("gap", s.p - 1) ELSE s
                        [] ed.t = "cut" -> IF s.p <= ed.o THEN s ELSE ItState("lost", 0)
                        [] ed.t = "clr" -> IF c \in Trees THEN ItState("gap", 0) ELSE ItState("lost", 0))

(* an iterator started on an empty collection may still see what is added later *)
Landed(g, n, p) == IF p < n THEN ItState("at", p) ELSE IF n = 0 /\ ~g THEN ItState("any", 0) ELSE ItState("end", 0)
Started(g, n, s) == IF s.s = "new" THEN Landed(g, n, 0) ELSE s
ItMove(g, n, s0) ==
  LET s == Started(g, n, s0) IN
  CASE s.s = "at" -> Landed(g, n, s.p + 1)
    [] s.s = "gap" -> Landed(g, n, s.p)
    [] s.s = "lost" -> ItState("end", 0)
    [] OTHER -> s

(* reading an iterator of a hash table whose element is gone may already move it on *)
HashClasses == {"StrictHashMap", "StrictHashSet"}

(* what key and value an iterator at offset p reports *)
KeyFits(c, d, p, k) == CASE c \in MapClasses \cup KvClasses -> k = d[p + 1][1]
                         [] c \in SeqClasses \cup IntSets \cup {"ImmutableSortedStringSet"} -> IntIs(k, p)
                         [] OTHER -> k = d[p + 1]
ValueAt(c, d, p) == IF c \in MapClasses \cup KvClasses THEN d[p + 1][2] ELSE d[p + 1]
Peek(g, c, d, s0, m) ==
  LET s == Started(g, Len(d), s0) IN
  IF c \notin HashClasses \/ s.s # "gap" \/ m[1] = 0 THEN s
  ELSE IF m[2] = 0 THEN ItState("end", 0)
  ELSE IF s.p < Len(d) THEN (IF KeyFits(c, d, s.p, m[2]) /\ m[3] = ValueAt(c, d, s.p) THEN ItState("at", s.p) ELSE s) ELSE s
(* m = <<valid, key, value>> as reported (key and value only if valid) *)
ItReads(c, d, s, m) ==
  CASE s.s = "at" -> m[1] = 1 /\ KeyFits(c, d, s.p, m[2]) /\ m[3] = ValueAt(c, d, s.p)
    [] s.s = "end" -> m[1] = 0 \/ (c \in HashClasses /\ m[2] = 0)
    [] OTHER -> (d = <<>> => m[1] = 0)
=============================================================================
