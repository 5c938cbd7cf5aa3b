------------------------------ MODULE TedsTree ------------------------------
(***************************************************************************)
(* The shape of the search tree inside StrictTreeMap and StrictTreeSet: a  *)
(* node is <<key, red, left, right>> with red in {0,1}, the empty tree is  *)
(* <<>>.                                                                   *)
(***************************************************************************)
EXTENDS TedsValues

RECURSIVE InOrder(_)
InOrder(t) == IF t = <<>> THEN <<>> ELSE InOrder(t[3]) \o <<t[1]>> \o InOrder(t[4])
IsRed(t) == t # <<>> /\ (IF t = <<>> THEN FALSE ELSE t[2] = 1)
(* number of black nodes on every path, or -1 if the paths differ or a red node has a red child *)
RECURSIVE BlackHeight(_)
BlackHeight(t) ==
  IF t = <<>> THEN 0
  ELSE LET l == BlackHeight(t[3])
           r == BlackHeight(t[4])
       IN IF l < 0 \/ l # r \/ (IsRed(t) /\ (IsRed(t[3]) \/ IsRed(t[4]))) THEN 0 - 1
          ELSE l + 1 - t[2]
RedBlack(t) == BlackHeight(t) >= 0
RECURSIVE Height(_)
Height(t) == IF t = <<>> THEN 0 ELSE 1 + (IF Height(t[3]) > Height(t[4]) THEN Height(t[3]) ELSE Height(t[4]))
=============================================================================
