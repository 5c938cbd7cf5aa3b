------------------------------ MODULE TedsHeap ------------------------------
(***************************************************************************)
(* StrictMinHeap, StrictMaxHeap: contents are a bag of values (written as  *)
(* the sequence of their indices in ascending order, since the order in    *)
(* which values() lists them is not specified).  top/extract/next give a   *)
(* value that no other value precedes.                                     *)
(***************************************************************************)
EXTENDS TedsResult

HeapClasses == {"StrictMinHeap", "StrictMaxHeap"}

BagAdd(d, v) == LET p == Cardinality({k \in 1..Len(d) : d[k] < v}) IN Put(d, p, <<v>>)
BagOf(vs) == Sorted(vs, LAMBDA x, y : x < y)
BagCut(d, v) == LET p == FirstWhere(d, LAMBDA x : x = v) IN IF p = 0 THEN d ELSE Cut(d, p)

Precedes(c, i, j) == IF c = "StrictMinHeap" THEN StableCmp(i, j) < 0 ELSE StableCmp(i, j) > 0
(* a value nothing precedes, found in one pass; all such values compare equal *)
RECURSIVE BestIn(_, _, _, _)
BestIn(c, d, lo, hi) ==
  IF lo = hi THEN d[lo]
  ELSE LET m == (lo + hi) \div 2
           x == BestIn(c, d, lo, m)
           y == BestIn(c, d, m + 1, hi)
       IN IF Precedes(c, y, x) THEN y ELSE x
Tops(c, d) == LET b == BestIn(c, d, 1, Len(d)) IN {d[k] : k \in {j \in 1..Len(d) : StableCmp(d[j], b) = 0}}

(* h: the value the implementation returned, to choose among equal ones *)
HeapOp(c, op, d, a, h) ==
  LET n == Len(d) IN
  CASE op = "add" -> Ok(BagAdd(d, a[1]), NullR)
    [] op \in {"top", "current", "key"} -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(d, OneOf(Tops(c, d)))
    [] op = "extract" -> IF n = 0 THEN Thr(d, "UnderflowException") ELSE Ok(BagCut(d, h), OneOf(Tops(c, d)))
    [] op = "next" -> IF n = 0 THEN Thr(d, "UnderflowException")
                      ELSE Ok(BagCut(d, IF h \in Tops(c, d) THEN h ELSE CHOOSE t \in Tops(c, d) : TRUE), NullR)
    [] op = "rewind" -> Ok(d, NullR)
    [] op = "valid" -> Ok(d, BoolR(n # 0))
    [] op \in {"count", "count()"} -> Ok(d, IntR(n))
    [] op = "isEmpty" -> Ok(d, BoolR(n = 0))
    [] op = "clear" -> Ok(<<>>, NullR)
    [] op = "contains" -> Ok(d, HasR(d, a[1]))
    [] op \in {"values", "(array)"} -> Ok(d, BagR(d))
=============================================================================
