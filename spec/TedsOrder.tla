----------------------------- MODULE TedsOrder ------------------------------
(***************************************************************************)
(* The comparison of values.  One state per value of a universe U; in each *)
(* state, over all pairs and triples of the universe,                      *)
(*  - the specification's StableCmp is a total order (Antisymmetric,       *)
(*    Transitive) and StrictEq an equivalence (Equivalence) that only      *)
(*    joins values StableCmp joins (Compatible),                           *)
(*  - and the row recorded from the code (stable_compare, strict_equals,   *)
(*    === and the class of its strict_hash) is the one the specification   *)
(*    gives (CodeAgrees).                                                  *)
(***************************************************************************)
EXTENDS TedsValues

Rows == ndJsonDeserialize(IOEnv.TEDS_ROWS)
(* Rows[k] = [v |-> value, c |-> signs, q |-> strict_equals, i |-> ===, h |-> first value with that hash] *)
N == Len(Rows)
Cmp == [k \in 1..N |-> [j \in 1..N |-> StableCmp(Rows[k].v, Rows[j].v)]]
Eq == [k \in 1..N |-> [j \in 1..N |-> StrictEq(Rows[k].v, Rows[j].v)]]
VARIABLE l
Init == l = 1
Next == l < N /\ l' = l + 1
Spec == Init /\ [][Next]_l

Antisymmetric == /\ Cmp[l][l] = 0
                 /\ \A j \in 1..N : Cmp[j][l] = 0 - Cmp[l][j]
Transitive == \A j \in 1..N : Cmp[l][j] <= 0 => \A k \in 1..N : Cmp[j][k] <= 0 => Cmp[l][k] <= 0 /\ (Cmp[l][j] < 0 \/ Cmp[j][k] < 0 => Cmp[l][k] < 0)
Equivalence == /\ Eq[l][l]
               /\ \A j \in 1..N : Eq[l][j] = Eq[j][l]
               /\ \A j \in 1..N : Eq[l][j] => \A k \in 1..N : Eq[j][k] = Eq[l][k]
Compatible == \A j \in 1..N : (Eq[l][j] => Cmp[l][j] = 0) /\ (Ident(Rows[l].v, Rows[j].v) => Eq[l][j])
Show(what, j) == PrintT(<<"@REJECT", l, j, what>>) /\ FALSE
CodeAgrees == \A j \in 1..N :
  /\ Rows[l].c[j] = Cmp[l][j] \/ Show("stable_compare", j)
  /\ (Rows[l].q[j] = 1) = Eq[l][j] \/ Show("strict_equals", j)
  /\ Murky(Rows[l].v) \/ (Rows[l].i[j] = 1) = Ident(Rows[l].v, Rows[j].v) \/ Show("===", j)
  /\ (Eq[l][j] => Rows[l].h = Rows[j].h) \/ Show("strict_hash", j)
=============================================================================
