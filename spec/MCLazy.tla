------------------------------- MODULE MCLazy -------------------------------
(***************************************************************************)
(* Bounded model of a CachedIterable over a source that is read lazily:    *)
(* one collection, two iterators over it, sources that end or fail after   *)
(* any number of elements (MC_INITS), and the calls listed in MC_CALLS.    *)
(* TLC explores every reachable state, checks the invariants below and     *)
(* prints every transition with its expected outcome and the number of     *)
(* elements the source must have delivered by then; harness/php/replay.php *)
(* walks the printed graph with the real code.                             *)
(***************************************************************************)
EXTENDS Teds

Calls == ndJsonDeserialize(IOEnv.MC_CALLS)
Inits == ndJsonDeserialize(IOEnv.MC_INITS)     \* [m, f, s]: pairs, where it fails, kind of source

VARIABLES objs, from
Its == {ItHandle(1), ItHandle(2)}
Image(o) == <<from, Len(o[1].d), o[1].st, [i \in 1..2 |-> IF ItHandle(i) \in DOMAIN o THEN o[ItHandle(i)].p ELSE -1]>>
Due(o) == LET n == Len(o.d) IN IF o.s = "it" \/ n > 0 THEN n ELSE IF Avail(o) > 0 THEN 1 ELSE 0
Emit(e, out) ==
  PrintT("@T " \o ToJson([f |-> Image(objs), e |-> e, m |-> 1, x |-> out.x, r |-> out.r, kf |-> "", kr |-> AnyR,
                          pu |-> Due(out.objs[1]), t |-> Image(out.objs)]))
(* the outcome of an event in which the source delivers exactly what it must *)
Outcome(e) == LET n == Due(Step(objs, e @@ [pu |-> -1]).objs[1]) IN Step(objs, e @@ [pu |-> n])
Do(e, op, h, a) == LET out == Outcome(e) IN Emit([op |-> op, o |-> h, a |-> a], out) /\ objs' = out.objs /\ UNCHANGED from

Call == \E k \in 1..Len(Calls) : Do([op |-> "lz", o |-> 1, w |-> Calls[k].op, a |-> Calls[k].a, k |-> -1, dup |-> 0], Calls[k].op, 1, Calls[k].a)
Iterate == \E i \in 1..2 : ItHandle(i) \in DOMAIN objs /\
  \E w \in {"valid", "current", "key", "next", "rewind"} :
    Do([op |-> "lzit", o |-> 1, i |-> i, w |-> w, k |-> -1, dup |-> 0], "it" \o w, i, <<>>)
NewIt == \E i \in 1..2 : ItHandle(i) \notin DOMAIN objs /\ (i = 1 \/ ItHandle(1) \in DOMAIN objs) /\
  LET out == Step(objs, [op |-> "lzitnew", i |-> i, o |-> 1]) IN Emit([op |-> "itnew", o |-> i, a |-> <<>>], out) /\ objs' = out.objs /\ UNCHANGED from

Init == \E k \in 1..Len(Inits) :
          /\ from = k
          /\ objs = Step(<<>>, [op |-> "lznew", n |-> 1, m |-> Inits[k].m, f |-> Inits[k].f, s |-> Inits[k].s, z |-> 0]).objs
          /\ PrintT("@I " \o ToJson([k |-> k, t |-> Image(objs)]))
Next == Call \/ Iterate \/ NewIt
Spec == Init /\ [][Next]_<<objs, from>>

Small == \A i \in 1..2 : ItHandle(i) \in DOMAIN objs => objs[ItHandle(i)].p <= Len(objs[1].src) + 1

O == objs[1]
(* what has been read is what the source delivered first, in its order *)
Prefix == O.d = SubSeq(O.src, 1, Len(O.d)) /\ Len(O.d) <= Avail(O)
(* the end is known only when everything has been read *)
Ended == /\ O.st = "done" => O.f < 0 /\ Len(O.d) = Len(O.src)
         /\ O.st = "failed" => O.f >= 0 /\ Len(O.d) = O.f
(* nothing that was read is forgotten, and what has ended stays as it is *)
Grows == [][/\ Len(objs'[1].d) >= Len(O.d) /\ SubSeq(objs'[1].d, 1, Len(O.d)) = O.d
            /\ O.st # "open" => objs'[1] = O]_<<objs, from>>
=============================================================================
