-------------------------------- MODULE Teds --------------------------------
(***************************************************************************)
(* The system: a heap of collections (handle -> class and contents) and    *)
(* the operations that act on it.  Step gives the expected outcome of an   *)
(* event: new heap, exception and result.                                  *)
(***************************************************************************)
EXTENDS TedsDecode, TedsTree, TedsFn, TedsCached

Obj(c, d) == [c |-> c, d |-> d]
Out(objs, x, r) == [objs |-> objs, x |-> x, r |-> r, kf |-> ""]
OutK(objs, z) == IF z.kf = "" THEN Out(objs, z.x, z.r) ELSE [objs |-> objs, x |-> z.x, r |-> z.r, kf |-> z.kf, kr |-> z.kr]
Set1(objs, h, o) == IF h \in DOMAIN objs THEN [objs EXCEPT ![h] = o] ELSE (h :> o) @@ objs
Drop1(objs, h) == [k \in DOMAIN objs \ {h} |-> objs[k]]

(* what the callback calls of an event say: arguments, results, exception *)
CbArgs(e) == [k \in 1..Len(e.cb) |-> e.cb[k].a]
CbThrew(e) == e.cb # <<>> /\ e.cb[Len(e.cb)].x # ""
SeqMapFilter(c, op, d, e) ==
  LET n == Len(d)
      m == Len(e.cb)
      calls == \A k \in 1..m : k <= n /\ e.cb[k].a = <<d[k]>> /\ (k < m => e.cb[k].x = "")
  IN IF Ty(e.a[1]) = "n" /\ op = "filter"
     THEN [ok |-> e.cb = <<>>, x |-> "", d |-> SelectSeq(d, Truthy)]
     ELSE IF CbThrew(e) THEN [ok |-> calls, x |-> e.cb[m].x, d |-> <<>>]
     ELSE [ok |-> calls /\ m = n, x |-> "",
           d |-> IF op = "map" THEN [k \in 1..m |-> e.cb[k].r]
                 ELSE LET keep == {k \in 1..m : Truthy(e.cb[k].r)}
                          idx == SetToSortSeq(keep, <) IN [j \in 1..Len(idx) |-> d[idx[j]]]]

ClassOp(c, op, d, a, h) ==
  CASE op \in BracketOps /\ c \notin ArrayAccess -> Thr(d, "Error")
    [] op \in AnyOps -> AnyOp(c, op, d, a)
    [] c = "BitVector" /\ op \in BitOps -> BitOp(op, d, a)
    [] c \in SeqClasses -> SeqOp(c, op, d, a)
    [] c \in MapClasses -> MapOp(c, op, d, a)
    [] c \in SetClasses -> SetOp(c, op, d, a)
    [] c \in HeapClasses -> HeapOp(c, op, d, a, h)
    [] c \in KvClasses -> KvOp(c, op, d, a)

(* iterators live in the heap too, under handles of their own *)
ItHandle(i) == 1000000 + i
ItersOf(objs, h) == {k \in DOMAIN objs : k > 1000000 /\ k < 2000000 /\ (IF k > 1000000 /\ k < 2000000 THEN objs[k].of = h ELSE FALSE)}
ItStep(objs, e) ==
  LET h == ItHandle(e.i)
      it == objs[h]
      o == objs[it.of]
      g == it.g = 1
      s == CASE e.op = "itrewind" -> Landed(g, Len(o.d), 0)
             [] e.op = "itnext" -> ItMove(g, Len(o.d), it.st)
             [] e.op = "itread" -> Peek(g, o.c, o.d, it.st, e.m)
  IN Out([objs EXCEPT ![h].st = s], IF ItReads(o.c, o.d, s, e.m) THEN "" ELSE "the iterator is not where it should be", AnyR)
(* the iterators of an object after its contents were changed by op *)
Moved(objs, h, op, a, d) ==
  LET its == ItersOf(objs, h)
      ed == EditOf(objs[h].c, op, a, objs[h].d, d)
  IN IF its = {} \/ ed.t = "none" THEN [objs EXCEPT ![h].d = d]
     ELSE [k \in DOMAIN objs |-> IF k = h THEN [objs[h] EXCEPT !.d = d]
                                 ELSE IF k \in its THEN [objs[k] EXCEPT !.st = Adjust(objs[h].c, objs[k].g = 1, @, ed)] ELSE objs[k]]

(* lazily read collections: e.k >= 0 means the call was made by the source itself while element k (0-based) was asked for *)
LazyStep(objs, e) ==
  LET o0 == objs[e.o]
      o == IF e.k < 0 THEN o0 ELSE [o0 EXCEPT !.d = SubSeq(o0.src, 1, e.k)]
      it == IF e.op = "lzit" THEN objs[ItHandle(e.i)] ELSE [p |-> 0]
      z == IF e.op = "lz" THEN LazyOp(o, e.w, e.a, e.k >= 0) ELSE LazyIt(o, it.p, e.w, e.k >= 0)
      new == [objs EXCEPT ![e.o] = z.o]
  IN Out(IF e.op = "lz" THEN new ELSE [new EXCEPT ![ItHandle(e.i)].p = z.p],
         IF e.k >= 0 /\ (o0.st # "open" \/ e.k < Len(o0.d) \/ e.k > Avail(o0)) THEN "the source was asked for an element again"
         ELSE IF e.dup # 0 THEN "an element was read twice"
         ELSE IF e.k < 0 /\ ~Delivered(z.o, e) THEN "the source was not read as far as needed and no further" ELSE z.x, z.r)

(* ------------------------------ lifetimes ------------------------------ *)
(* A recorded object (probe) lives exactly as long as something holds it.   *)
RECURSIVE ProbesIn(_)
ProbesIn(i) == LET v == V[i] IN
  CASE v.t = "o" -> IF v.p > 0 THEN {v.p} ELSE {}
    [] v.t = "a" -> UNION {ProbesIn(v.e[k][2]) : k \in 1..Len(v.e)}
    [] OTHER -> {}
HeldBy(o) == IF "d" \notin DOMAIN o THEN {}
             ELSE IF o.c \in MapClasses \cup KvClasses THEN UNION {ProbesIn(o.d[k][1]) \cup ProbesIn(o.d[k][2]) : k \in 1..Len(o.d)}
             ELSE UNION {ProbesIn(o.d[k]) : k \in 1..Len(o.d)}
Held(objs) == UNION {HeldBy(objs[h]) : h \in DOMAIN objs}
Range1(s) == {s[k] : k \in 1..Len(s)}
(* nw: probes the event created, dd: probes that died during it *)
Deaths(before, after, e) ==
  /\ Len(e.dd) = Cardinality(Range1(e.dd))
  /\ Range1(e.dd) = (Held(before) \cup Range1(e.nw)) \ Held(after)
(* A collection no variable names any more lives on while something that is still there refers to it. *)
ZombieHandle(h) == 2000000 + h
Zombies(objs) == {h \in DOMAIN objs : h > 2000000}
RECURSIVE RefsIn(_)
RefsIn(i) == LET v == V[i] IN
  CASE v.t = "o" -> IF v.k > 0 THEN {v.k} ELSE {}
    [] v.t = "a" -> UNION {RefsIn(v.e[k][2]) : k \in 1..Len(v.e)}
    [] OTHER -> {}
RefsOf(o) == IF "d" \notin DOMAIN o THEN {}
             ELSE IF o.c \in MapClasses \cup KvClasses THEN UNION {RefsIn(o.d[k][1]) \cup RefsIn(o.d[k][2]) : k \in 1..Len(o.d)}
             ELSE UNION {RefsIn(o.d[k]) : k \in 1..Len(o.d)}
(* without a collection of cycles: what nothing refers to is gone, and with it what it held *)
RECURSIVE Settle(_)
Settle(objs) ==
  LET refs == UNION {RefsOf(objs[h]) : h \in DOMAIN objs}
      gone == {z \in Zombies(objs) : z - 2000000 \notin refs}
  IN IF gone = {} THEN objs ELSE Settle([h \in DOMAIN objs \ gone |-> objs[h]])
(* with one: what cannot be reached from a collection that is still named is gone *)
RECURSIVE ReachFrom(_, _)
ReachFrom(objs, known) ==
  LET next == known \cup {z \in Zombies(objs) : \E h \in known : z - 2000000 \in RefsOf(objs[h])}
  IN IF next = known THEN known ELSE ReachFrom(objs, next)
Collected(objs) == LET keep == ReachFrom(objs, DOMAIN objs \ Zombies(objs)) IN [h \in keep |-> objs[h]]

Step(objs, e) ==
  LET op == e.op IN
  CASE op = "reset" -> Out(<<>>, "", AnyR)
    [] op = "drop"  -> Out(Drop1(objs, e.o), "", AnyR)
    [] op = "make"  -> Out(Set1(objs, e.n, Obj(e.c, Built(e.c, e.m))), "", AnyR)
    [] op = "fromBinaryString" -> Out(Set1(objs, e.n, Obj(e.c, BitsOf(V[e.a[1]].b))), "", AnyR)
    [] op = "shape" -> LET o == objs[e.o] IN
         Out(objs, IF InOrder(e.t) # (IF o.c \in MapClasses THEN Keys(o.d) ELSE o.d) THEN "tree does not hold the entries in order"
                   ELSE IF ~RedBlack(e.t) THEN "not a red-black tree" ELSE "", BoolR(TRUE))
    (* building from an iterable that throws, or holds a value the class cannot hold (at 1-based position f) *)
    [] op = "newfail" -> Out(objs, e.t, AnyR)
    [] op = "newbad" -> Out(objs, IF \A k \in 1..Len(e.a) : (IF e.c \in SeqClasses THEN Storable(e.c, e.a[k]) ELSE InSet(e.c, e.a[k])) THEN "" ELSE "TypeError", AnyR)
    [] op = "ldrop" -> Out(Settle(Set1(Drop1(objs, e.o), ZombieHandle(e.o), objs[e.o])), "", AnyR)
    [] op = "gc" -> Out(Collected(objs), "", AnyR)
    (* what became of data given to a decoder; m: the contents of the object there is afterwards, if any (n > 0) *)
    [] op = "decode" -> LET i == e.a[1] IN
         Out(IF e.n > 0 THEN Set1(objs, e.n, Obj(e.c, e.m)) ELSE objs,
             IF Encoded(e.c, e.w, i) /\ (e.x # "" \/ e.n = 0) THEN "a valid encoding was refused"
             ELSE IF e.n > 0 /\ ~ClassInv(e.c, e.m) THEN "a broken collection"
             ELSE IF e.n > 0 /\ e.x # "" /\ e.m # <<>> THEN "something is left of data that was refused"
             ELSE IF Encoded(e.c, e.w, i) THEN (IF DecodesTo(e.c, e.w, i, e.m) THEN "" ELSE "decoded to something else")
             ELSE e.x, AnyR)
    [] op = "mem" -> Out(objs, IF e.g > 0 THEN "memory grew" ELSE "", AnyR)
    [] op = "lznew" -> Out(IF e.z = 1 THEN objs ELSE Set1(objs, e.n, LazyObj(e.m, e.f, e.s)), IF e.z = 1 THEN SourceError ELSE "", AnyR)
    [] op = "lzitnew" -> Out(Set1(objs, ItHandle(e.i), [of |-> 0, p |-> 0]), "", AnyR)
    [] op \in {"lz", "lzit"} -> LazyStep(objs, e)
    [] op = "enum" -> Out(Set1(objs, e.n, Obj(e.c, <<>>)), "", AnyR)
    [] op \in FnOps -> LET z == FnRes(e) IN Out(objs, z.x, z.r)
    [] op = "itnew" -> Out(Set1(objs, ItHandle(e.i), [of |-> e.o, g |-> e.g, st |-> ItState("new", 0)]), "", AnyR)
    [] op = "itdrop" -> Out(Drop1(objs, ItHandle(e.i)), "", AnyR)
    [] op \in {"itrewind", "itnext", "itread"} -> ItStep(objs, e)
    [] op = "clone" -> Out(Set1(objs, e.n, objs[e.o]), "", AnyR)
    [] op \in {"map", "filter"} ->
         LET o == objs[e.o]
             z == SeqMapFilter(o.c, op, o.d, e)
         IN IF ~z.ok THEN Out(objs, "callback calls differ", AnyR)
            ELSE Out(IF z.x = "" THEN Set1(objs, e.n, Obj(o.c, z.d)) ELSE objs, z.x, AnyR)
    [] OTHER ->
         LET o == objs[e.o]
             z == ClassOp(o.c, op, o.d, e.a, IF "h" \in DOMAIN e THEN e.h ELSE e.r)
             new == Moved(objs, e.o, op, e.a, z.d)
         IN OutK(IF Zombies(new) = {} THEN new ELSE Settle(new), z)
=============================================================================
