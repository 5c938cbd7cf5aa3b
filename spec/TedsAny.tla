------------------------------ MODULE TedsAny -------------------------------
(***************************************************************************)
(* What holds for every collection alike: no properties can be added, the  *)
(* constructor and __unserialize run at most once, nothing can be modified *)
(* by reference, calls with the wrong number or type of arguments are      *)
(* refused, and the generic ways PHP has of reading an object agree.       *)
(***************************************************************************)
EXTENDS TedsIter

EnumClasses == {"EmptySequence", "EmptySet", "EmptyMap"}
ArrayAccess == SeqClasses \cup MapClasses
Unsupported == "Teds\\UnsupportedOperationException"
BracketOps == {"[]get", "[]set", "[]push", "[]isset", "[]empty", "[]??", "[]unset", "[]&", "[][]=", "[]??=", "[]+=", "[][]push", "[]&push"}
AnyOps == {"->set", "->ref", "->get", "->isset", "->unset", "foreach&", "__construct", "__unserialize", "badargs", "badtype", "badclone",
           "[]&", "[][]=", "[]??=", "[]+=", "[][]push", "[]&push", "outside", "iterator_count", "spread", "json", "var_dump", "print_r", "reserve!", "shrink!", "var_export"}
AccOp(c, op, d, a) == IF c \in MapClasses THEN MapOp(c, op, d, a) ELSE SeqOp(c, op, d, a)
(* the assignment that is the second half of a combined operator, whose value is what was assigned *)
Assigned(c, d, a) == LET z == AccOp(c, "[]set", d, <<a[1], a[2]>>) IN IF z.x # "" THEN z ELSE Ok(z.d, Val(a[2]))
(* the constructor of an object has run, so it and __unserialize refuse to run again *)
AnyOp(c, op, d, a) ==
  LET n == Len(d) IN
  CASE op \in {"->set", "->ref", "foreach&"} -> Thr(d, "Error")
    [] op = "->get" -> Ok(d, NullR)
    [] op = "->isset" -> Ok(d, BoolR(FALSE))
    [] op = "->unset" -> Ok(d, NullR)
    [] op \in {"__construct", "__unserialize"} -> Thr(d, IF c \in EnumClasses THEN "Error" ELSE "RuntimeException")
    [] op = "badargs" -> Thr(d, "ArgumentCountError")
    [] op = "badtype" -> Thr(d, "TypeError")
    [] op = "badclone" -> Thr(d, "Error")
    [] op = "outside" -> Ok(d, AnyR)   \* what the caller does to values it passed in or got out
    [] op = "iterator_count" -> Ok(d, IntR(n))
    [] op = "spread" -> Ok(d, ListR(d))
    [] op \in {"json", "var_dump", "print_r", "var_export"} -> Ok(d, BoolR(TRUE))
    [] op = "reserve!" -> LET o == Offset(V[a[1]].n) IN Ok(d, IntIn(IF o > n THEN o ELSE n, FAR))
    [] op = "shrink!" -> Ok(d, IntR(n))
    (* $o[k] ??= v assigns if there is nothing but null at k; $o[k] += n assigns a[2], the sum, to what is there *)
    [] op = "[]??=" -> LET z == AccOp(c, "[]isset", d, <<a[1]>>) IN
         IF z.x # "" THEN z ELSE IF z.r = BoolR(TRUE) THEN AccOp(c, "[]get", d, <<a[1]>>) ELSE Assigned(c, d, a)
    [] op = "[]+=" -> LET z == AccOp(c, "[]get", d, <<a[1]>>) IN IF z.x # "" THEN z ELSE Assigned(c, d, a)
    (* a place at the end cannot be written into or referred to *)
    [] op \in {"[][]push", "[]&push"} -> Thr(d, "OutOfBoundsException")
    (* a reference to an element, or writing inside one, has no effect on the collection *)
    [] op \in {"[]&", "[][]="} ->
         IF c \in MapClasses THEN (IF c = "EmptyMap" THEN Thr(d, Unsupported)
                                   ELSE IF MapFind(c, d, a[1]) = 0 THEN Thr(d, "OutOfBoundsException") ELSE Ok(d, AnyR))
         ELSE IF ~CanOffset(a[1]) THEN Thr(d, "TypeError")
         ELSE IF c \in {"ImmutableSequence", "EmptySequence"} THEN Thr(d, Unsupported)
         ELSE IF AsOffset(a[1]) < 0 \/ AsOffset(a[1]) >= n THEN Thr(d, "OutOfBoundsException") ELSE Ok(d, AnyR)
=============================================================================
