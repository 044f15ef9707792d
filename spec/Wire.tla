-------------------------------- MODULE Wire --------------------------------
(* Numbers and containers as bytes: the big-endian variable length numbers  *)
(* of elements, queries and proofs. A reader takes a byte string and a      *)
(* position and gives <<value, next position>>, or <<>> for a refusal.      *)
EXTENDS Naturals, Sequences, Prims
\* --- writing ---
Byte(n) == BE(Dec(n), 1)
Bytes(b) == Cat(<<BinU(Dec(BLen(b))), b>>)
Many(s, Enc(_)) == Cat(<<BinU(Dec(Len(s)))>> \o [i \in 1..Len(s) |-> Enc(s[i])])
Opt(s, Enc(_)) == IF s = <<>> THEN "00" ELSE Cat(<<"01", Enc(s[1])>>)
Bool(x) == IF x THEN "01" ELSE "00"
Path(p) == Many(p, Bytes)
\* --- reading ---
RByte(b, i) == IF i < BLen(b) THEN <<BAt(b, i), i + 1>> ELSE <<>>
RFixed(b, i, n) == IF i + n <= BLen(b) THEN <<BSub(b, i, i + n), i + n>> ELSE <<>>
\* a variable length number of a type of `w` bytes
RNum(b, i, w) ==
  IF i >= BLen(b) THEN <<>>
  ELSE LET x == BAt(b, i)
           n == CASE x = 251 -> 2 [] x = 252 -> 4 [] x = 253 -> 8 [] x = 254 -> 16 [] OTHER -> 0
       IN IF x < 251 THEN <<Dec(x), i + 1>>
          ELSE IF x = 255 \/ n > w \/ i + 1 + n > BLen(b) THEN <<>>
          ELSE <<UnBE(BSub(b, i + 1, i + 1 + n)), i + 1 + n>>
UnZig(n) == LET h == IDiv(n, "2") IN IF IEq(IMul(h, "2"), n) THEN h ELSE ISub(ISub("0", h), "1")
RInt(b, i, w) == LET r == RNum(b, i, w) IN IF r = <<>> THEN <<>> ELSE <<UnZig(r[1]), r[2]>>
\* a length that cannot exceed what is left is a number of bytes
RLen(b, i) == LET r == RNum(b, i, 8) IN
              IF r = <<>> \/ ~ILeq(r[1], Dec(BLen(b) - r[2])) THEN <<>> ELSE <<ToInt(r[1]), r[2]>>
RBytes(b, i) == LET n == RLen(b, i) IN IF n = <<>> THEN <<>> ELSE RFixed(b, n[2], n[1])
RBool(b, i) == IF i < BLen(b) /\ BAt(b, i) < 2 THEN <<BAt(b, i) = 1, i + 1>> ELSE <<>>
ROpt(b, i, R(_, _)) ==
  IF i >= BLen(b) \/ BAt(b, i) > 1 THEN <<>>
  ELSE IF BAt(b, i) = 0 THEN <<<<>>, i + 1>>
  ELSE LET r == R(b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<<<r[1]>>, r[2]>>
RTimes(b, i, n, R(_, _)) ==
  LET upto[k \in 0..n] ==
        IF k = 0 THEN <<<<>>, i>>
        ELSE LET p == upto[k - 1] IN
             IF p = <<>> THEN <<>>
             ELSE LET r == R(b, p[2]) IN IF r = <<>> THEN <<>> ELSE <<Append(p[1], r[1]), r[2]>>
  IN upto[n]
\* every member takes at least one byte
RMany(b, i, R(_, _)) == LET n == RLen(b, i) IN IF n = <<>> THEN <<>> ELSE RTimes(b, n[2], n[1], R)
RPath(b, i) == RMany(b, i, RBytes)
=============================================================================
