----------------------------- MODULE MmrWideMC -----------------------------
EXTENDS MmrWide, TLC
CONSTANT N, K
VARIABLES n, vs
Vals == {"aa", "bbcc"}
Init == n \in 0..N /\ vs = <<>> /\ MInit
Next == Len(vs) < K /\ (\E v \in Vals : vs' = Append(vs, v)) /\ UNCHANGED <<n, mvars>>
Spec == Init /\ [][Next]_<<n, vs, mvars>>
All == [i \in 1..n |-> "dd"] \o vs
P == WPeaks(WBase(Dec(n), WTab("dd", 6)), vs)
M == n + Len(vs)
Agrees ==
  /\ WSize(Dec(M)) = Dec(MSize(M))
  /\ M > 0 => WRoot(P) = MRoot(All)
  /\ [i \in 1..Len(P) |-> P[i][2]] = MPeakHashes(All)
  /\ WHashes(P) = MPushHashes(M)
=============================================================================
