------------------------------ MODULE TedsBits ------------------------------
(***************************************************************************)
(* BitVector as memory: words of 8, 16, 32 or 64 bits, little-endian, the  *)
(* first element of the list being the least significant bit.              *)
(***************************************************************************)
EXTENDS TedsSeq

(* the 64-bit int read at bit p *)
Word(d, p, w, signed) ==
  CASE w = 8  -> LET c == Chunk(d, p, 8) IN W(IF signed /\ c >= 128 THEN c - 256 ELSE c)
    [] w = 16 -> LET c == Chunk(d, p, 16) IN W(IF signed /\ c >= 32768 THEN c - 65536 ELSE c)
    [] w = 32 -> LET m == Chunk(d, p + 16, 16) IN << IF signed /\ m >= 32768 THEN 0 - 1 ELSE 0, m, Chunk(d, p, 16) >>
    [] w = 64 -> LET h == Chunk(d, p + 48, 16) IN << (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + Chunk(d, p + 32, 16), Chunk(d, p + 16, 16), Chunk(d, p, 16) >>
(* bit j of a 64-bit int *)
BitOf(n, j) == IF j < 16 THEN (n[3] \div 2^j) % 2
               ELSE IF j < 32 THEN (n[2] \div 2^(j - 16)) % 2
               ELSE IF j = 63 THEN (IF n[1] < 0 THEN 1 ELSE 0)
               ELSE (n[1] \div 2^(j - 32)) % 2
WriteWord(d, p, w, n) ==
  LET t == TrueIdx
      f == FalseIdx
  IN [k \in 1..Len(d) |-> IF k > p /\ k <= p + w THEN (IF BitOf(n, k - 1 - p) = 1 THEN t ELSE f) ELSE d[k]]

Width(op) == CASE op \in {"getInt8", "getUInt8", "setInt8"} -> 8 [] op \in {"getInt16", "getUInt16", "setInt16"} -> 16
               [] op \in {"getInt32", "getUInt32", "setInt32"} -> 32 [] op \in {"getInt64", "setInt64"} -> 64
WordGets == {"getInt8", "getInt16", "getInt32", "getInt64", "getUInt8", "getUInt16", "getUInt32"}
WordSets == {"setInt8", "setInt16", "setInt32", "setInt64"}
BitOps == WordGets \cup WordSets \cup {"toBinaryString"}

(* the list of bools a binary string stands for *)
BitsOf(b) ==
  LET t == TrueIdx
      f == FalseIdx
  IN [k \in 1..(8 * Len(b)) |-> IF (b[(k - 1) \div 8 + 1] \div 2^((k - 1) % 8)) % 2 = 1 THEN t ELSE f]

BitOp(op, d, a) ==
  IF op = "toBinaryString" THEN Ok(d, BitsR(d))
  ELSE LET w == Width(op)
           o == Offset(V[a[1]].n)
           p == o * w
       IN IF o < 0 \/ o >= Len(d) \div w THEN Thr(d, "OutOfBoundsException")
          ELSE IF op \in WordGets THEN Ok(d, WordR(Word(d, p, w, op \in {"getInt8", "getInt16", "getInt32", "getInt64"})))
          ELSE Ok(WriteWord(d, p, w, V[a[2]].n), NullR)
=============================================================================
