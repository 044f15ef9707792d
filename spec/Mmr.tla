-------------------------------- MODULE Mmr --------------------------------
(* Merkle Mountain Range: the documented structure as a function of the     *)
(* sequence of appended values (byte strings as hex, see Prims).            *)
EXTENDS Naturals, Sequences, Prims

MLeafHash(v) == H(<<"00", v>>)
MMerge(l, r) == H(<<"01", l, r>>)

RECURSIVE PopCount(_)
PopCount(n) == IF n = 0 THEN 0 ELSE (n % 2) + PopCount(n \div 2)
RECURSIVE TrailingOnes(_)
TrailingOnes(n) == IF n % 2 = 0 THEN 0 ELSE 1 + TrailingOnes(n \div 2)
RECURSIVE Pow2Floor(_)
Pow2Floor(n) == IF n < 2 THEN n ELSE 2 * Pow2Floor(n \div 2)

\* number of nodes of an MMR of n leaves; position of leaf i (0-based)
MSize(n) == 2 * n - PopCount(n)
MLeafPos(i) == MSize(i)
MPushHashes(n) == 1 + TrailingOnes(n)

\* root of the perfect tree over the c leaves of s that follow the first a
RECURSIVE MPerfect(_, _, _)
MPerfect(s, a, c) ==
  IF c = 1 THEN MLeafHash(s[a + 1])
  ELSE MMerge(MPerfect(s, a, c \div 2), MPerfect(s, a + c \div 2, c \div 2))

\* peaks from left to right as <<first leaf, leaf count>>
RECURSIVE MPeaks(_, _)
MPeaks(a, n) ==
  IF n = 0 THEN <<>>
  ELSE LET c == Pow2Floor(n) IN <<<<a, c>>>> \o MPeaks(a + c, n - c)

RECURSIVE MBag(_)
MBag(p) == IF Len(p) = 1 THEN p[1]
           ELSE MBag(SubSeq(p, 1, Len(p) - 2) \o <<MMerge(p[Len(p)], p[Len(p) - 1])>>)

MPeakHashes(s) == LET p == MPeaks(0, Len(s)) IN [i \in 1..Len(p) |-> MPerfect(s, p[i][1], p[i][2])]
\* root of a non-empty MMR
MRoot(s) == MBag(MPeakHashes(s))

\* leaf range <<first, count>> of the node at 0-based position pos of an n-leaf MMR
RECURSIVE MIn(_, _, _)
MIn(pos, a, c) ==
  IF pos = 2 * c - 2 THEN <<a, c>>
  ELSE IF pos < c - 1 THEN MIn(pos, a, c \div 2)
  ELSE MIn(pos - (c - 1), a + c \div 2, c \div 2)
RECURSIVE MLocate(_, _, _)
MLocate(pos, a, n) ==
  LET c == Pow2Floor(n) IN
  IF pos < 2 * c - 1 THEN MIn(pos, a, c) ELSE MLocate(pos - (2 * c - 1), a + c, n - c)
\* number of leaves whose MMR has the given size; sizes in between belong to none
RECURSIVE MLeaves(_)
MLeaves(size) ==
  IF size = 0 THEN 0
  ELSE LET c == Pow2Floor(size + 1) \div 2 IN c + MLeaves(size - (2 * c - 1))

MNode(s, pos) ==
  LET r == MLocate(pos, 0, Len(s)) IN
  [hash |-> MPerfect(s, r[1], r[2]), leaf |-> r[2] = 1, val |-> IF r[2] = 1 THEN s[r[1] + 1] ELSE ""]

\* node serialization: flag, hash, [u32 length, value]
MSerInternal(h) == Cat(<<"00", h>>)
MSerLeaf(v) == Cat(<<"01", MLeafHash(v), BE(BLen(v), 4), v>>)
(* Accepted stored-node encodings: internal nodes exactly 33 bytes; leaves  *)
(* bound to their value; data leaves (02) carry an external hash.           *)
MDecodable(b) ==
  /\ BLen(b) >= 33
  /\ CASE BSub(b, 0, 1) = "00" -> BLen(b) = 33
       [] BSub(b, 0, 1) \in {"01", "02"} ->
            /\ BLen(b) >= 37
            /\ BSub(b, 33, 37) = BE(BLen(b) - 37, 4)
            /\ BSub(b, 0, 1) = "01" => BSub(b, 1, 33) = MLeafHash(BSub(b, 37, BLen(b)))
       [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* The system: a store holding what was committed, and an open MMR handle   *)
(* whose content is the committed values followed by the pending ones.      *)
VARIABLES cur, stored
mvars == <<cur, stored>>

MInit == cur = <<>> /\ stored = <<>>
MPush(v) == cur' = Append(cur, v) /\ UNCHANGED stored
MCommit == stored' = cur /\ UNCHANGED cur
\* a new handle on the committed nodes (pending values are lost)
MReopen == cur' = stored /\ UNCHANGED stored
\* the pending nodes are handed over to a new handle
MHandover == UNCHANGED mvars
=============================================================================
