----------------------------- MODULE TedsShapes -----------------------------
(***************************************************************************)
(* All shapes the search trees of the real code can take.                  *)
(* harness/php/tree.php applies every change to every shape it has reached *)
(* (keys 0..n-1, starting from the empty tree) until no new shape appears; *)
(* each row is one such change: the keys d before it, the call, and the    *)
(* tree t after it.  A row is accepted if the tree is a red-black tree     *)
(* over the keys the specification says are there.  As what a change does  *)
(* depends on the tree alone, all histories over these keys are covered.   *)
(***************************************************************************)
EXTENDS Teds

Rows == ndJsonDeserialize(IOEnv.TEDS_ROWS)
VARIABLE l

Before(c, d) == IF c = "StrictTreeMap" THEN [k \in 1..Len(d) |-> <<d[k], TrueIdx>>] ELSE d
After(c, d) == IF c = "StrictTreeMap" THEN Keys(d) ELSE d
Good(row) == LET z == ClassOp(row.c, row.op, Before(row.c, row.d), row.a, 0) IN
             InOrder(row.t) = After(row.c, z.d) /\ RedBlack(row.t)
Init == l = 1
Next == /\ l <= Len(Rows)
        /\ IF Good(Rows[l]) THEN TRUE ELSE PrintT(<<"@REJECT", l>>) /\ PrintT(<<"@EXPECTED", Rows[l]>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Rows)
=============================================================================
