------------------------------ MODULE MmrWide ------------------------------
(* Merkle Mountain Ranges of any size: n leaves (n a decimal string) that   *)
(* all hold the value d, followed by the values v. Only the peaks are kept, *)
(* as <<height, hash>> from left to right; MmrWideMC shows that this is the *)
(* structure of Mmr.                                                        *)
EXTENDS Mmr
RECURSIVE WTab(_, _)
\* hashes of the perfect trees of heights 0..k over leaves d
WTab(d, k) == IF k = 0 THEN <<MLeafHash(d)>> ELSE LET t == WTab(d, k - 1) IN Append(t, MMerge(t[k], t[k]))
Odd(n) == ISub(n, IMul("2", IDiv(n, "2"))) # "0"
RECURSIVE WBits(_, _)
\* heights of the peaks of n leaves, from left to right; h: height of the lowest
WBits(n, h) == IF n = "0" THEN <<>> ELSE WBits(IDiv(n, "2"), h + 1) \o (IF Odd(n) THEN <<h>> ELSE <<>>)
WBase(n, tab) == LET b == WBits(n, 0) IN [i \in 1..Len(b) |-> <<b[i], tab[b[i] + 1]>>]
RECURSIVE WJoin(_)
WJoin(p) == LET k == Len(p) IN
            IF k < 2 THEN p
            ELSE IF p[k][1] # p[k - 1][1] THEN p
            ELSE WJoin(Append(SubSeq(p, 1, k - 2), <<p[k][1] + 1, MMerge(p[k - 1][2], p[k][2])>>))
WPush(p, v) == WJoin(Append(p, <<0, MLeafHash(v)>>))
RECURSIVE WPeaks(_, _)
WPeaks(p, vs) == IF vs = <<>> THEN p ELSE WPeaks(WPush(p, Head(vs)), Tail(vs))
WRoot(p) == MBag([i \in 1..Len(p) |-> p[i][2]])
\* nodes of n leaves; also the position of leaf n
WSize(n) == ISub(IMul("2", n), Dec(Len(WBits(n, 0))))
\* hashes computed by a push
WHashes(p) == 2 + Len(p) - Len(WPush(p, ""))
=============================================================================
