------------------------------- MODULE MCTeds -------------------------------
(***************************************************************************)
(* Bounded model of one class: at most two collections (the second a copy  *)
(* of the first), at most one iterator, contents no longer than MC_MAX,    *)
(* and the calls listed in MC_CALLS.  TLC explores every reachable state,  *)
(* checks the invariants below on it, and prints every transition with its *)
(* expected outcome; harness/php/replay.php then walks the printed graph   *)
(* with the real code.                                                     *)
(***************************************************************************)
EXTENDS Teds

Cls      == IOEnv.MC_CLASS
Cap      == atoi(IOEnv.MC_MAX)
Calls    == ndJsonDeserialize(IOEnv.MC_CALLS)     \* [op, a]
Inits    == ndJsonDeserialize(IOEnv.MC_INITS)     \* [m]: what the collection is made from
WithIter == IOEnv.MC_ITER = "1"
WithCopy == IOEnv.MC_COPY = "1"

VARIABLE objs
It == ItHandle(1)
Live == {h \in {1, 2} : h \in DOMAIN objs}
ContentsIn(o, h) == IF h \in DOMAIN o THEN <<o[h].d>> ELSE <<>>
Image(o) == << ContentsIn(o, 1), ContentsIn(o, 2), IF It \in DOMAIN o THEN <<o[It].g, o[It].st.s, o[It].st.p>> ELSE <<>> >>

(* e: the call, m: what is observed when several outcomes are allowed *)
Emit(e, m, out) ==
  PrintT("@T " \o ToJson([f |-> Image(objs), e |-> e, m |-> m, x |-> out.x, r |-> out.r, kf |-> out.kf,
                          kr |-> IF out.kf = "" THEN AnyR ELSE out.kr, t |-> Image(out.objs)]))

(* the values a heap may choose among *)
Chosen(o, op) == IF o.c \in HeapClasses /\ op \in {"extract", "next"} /\ o.d # <<>> THEN Tops(o.c, o.d) ELSE {1}
Call ==
  \E h \in Live : \E k \in 1..Len(Calls) :
    LET o == objs[h] IN
    \E v \in Chosen(o, Calls[k].op) :
      LET e == [op |-> Calls[k].op, o |-> h, a |-> Calls[k].a, r |-> v, h |-> v, n |-> 0]
          out == Step(objs, e)
      IN /\ Emit([op |-> e.op, o |-> h, a |-> e.a], v, out)
         /\ objs' = out.objs
Copy ==
  /\ WithCopy
  /\ IF 2 \in DOMAIN objs
     THEN LET out == Step(objs, [op |-> "drop", o |-> 2]) IN Emit([op |-> "drop", o |-> 2, a |-> <<>>], 1, out) /\ objs' = out.objs
     ELSE LET out == Step(objs, [op |-> "clone", o |-> 1, n |-> 2]) IN Emit([op |-> "clone", o |-> 1, a |-> <<>>], 1, out) /\ objs' = out.objs

(* what an iterator can be seen to report: nothing, the key and value of some entry, *)
(* or, where the specification leaves it open, <<9, 0, 0>>: anything else            *)
IntIdx(n) == n + 6
ASSUME \A n \in 0..9 : IntIs(IntIdx(n), n)
KeyOf(c, d, p) == IF c \in MapClasses \cup KvClasses THEN d[p + 1][1]
                  ELSE IF c \in SeqClasses \cup IntSets \cup {"ImmutableSortedStringSet"} THEN IntIdx(p) ELSE d[p + 1]
Reports(o) == {<<0, 1, 1>>} \cup (IF o.c \in HashClasses THEN {<<1, 0, 0>>} ELSE {})
              \cup {<<1, KeyOf(o.c, o.d, p), ValueAt(o.c, o.d, p)>> : p \in 0..(Len(o.d) - 1)}
Else == <<9, 0, 0>>
ItCalls(st) == IF st.g = 1 THEN (IF st.st.s = "new" THEN {"itread", "itnext"} ELSE {"itnext"}) ELSE {"itread", "itnext", "itrewind"}
Iterate ==
  /\ WithIter /\ It \in DOMAIN objs
  /\ \E op \in ItCalls(objs[It]) :
     LET o == objs[objs[It].of]
         g == objs[It].g = 1
         s == CASE op = "itrewind" -> Landed(g, Len(o.d), 0) [] op = "itnext" -> ItMove(g, Len(o.d), objs[It].st)
                [] op = "itread" -> Started(g, Len(o.d), objs[It].st)
     IN \/ \E m \in Reports(o) :
             LET out == Step(objs, [op |-> op, i |-> 1, m |-> m])
             IN /\ out.x = "" /\ Emit([op |-> op, o |-> 1, a |-> <<>>], m, out) /\ objs' = out.objs
        \/ /\ s.s \notin {"at", "end"} /\ o.d # <<>>
           /\ LET out == Out([objs EXCEPT ![It].st = s], "", AnyR)
              IN Emit([op |-> op, o |-> 1, a |-> <<>>], Else, out) /\ objs' = out.objs
IterNewDrop ==
  /\ WithIter
  /\ IF It \in DOMAIN objs
     THEN LET out == Step(objs, [op |-> "itdrop", i |-> 1]) IN Emit([op |-> "itdrop", o |-> 1, a |-> <<>>], 1, out) /\ objs' = out.objs
     ELSE \E g \in {0, 1} : LET out == Step(objs, [op |-> "itnew", i |-> 1, o |-> 1, g |-> g])
                            IN Emit([op |-> IF g = 1 THEN "itnewg" ELSE "itnew", o |-> 1, a |-> <<>>], 1, out) /\ objs' = out.objs

Init == \E k \in 1..Len(Inits) :
          LET out == Step(<<>>, [op |-> "make", c |-> Cls, n |-> 1, m |-> Inits[k].m])
          IN PrintT("@I " \o ToJson([k |-> k, t |-> Image(out.objs)])) /\ objs = out.objs
Next == Call \/ Copy \/ Iterate \/ IterNewDrop
Spec == Init /\ [][Next]_objs

Small == \A h \in Live : Len(objs[h].d) <= Cap

(* every state: each collection satisfies the invariant of its class, and an iterator is somewhere *)
Sound == \A h \in Live : ClassInv(objs[h].c, objs[h].d)
Somewhere == It \in DOMAIN objs =>
  LET st == objs[It].st IN CASE st.s = "at" -> st.p < Len(objs[1].d) [] st.s = "gap" -> st.p <= Len(objs[1].d) [] OTHER -> TRUE
(* every step: one collection at most changes, and immutable ones never do *)
Changes == {h \in Live : h \in DOMAIN objs' /\ objs'[h] # objs[h]}
OneAtATime == [][Cardinality(Changes) <= 1]_objs
Immutable == Cls \in {"ImmutableSequence", "ImmutableIterable", "ImmutableSortedIntSet", "ImmutableSortedStringSet"}
NeverChanges == [][Immutable => Changes = {}]_objs
=============================================================================
