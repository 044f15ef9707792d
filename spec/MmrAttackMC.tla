---------------------------- MODULE MmrAttackMC ----------------------------
(* Design-level model of MMR proof verification: every proof of the true    *)
(* size that an attacker can assemble from hashes it can see (all nodes, all*)
(* bagged suffixes, the root) for one claimed leaf. Sound is the property;  *)
(* with Strict = FALSE (a missing trailing peak is tolerated, as in the     *)
(* code before its repair) TLC finds the forgery.                           *)
EXTENDS Mmr, FiniteSets, TLC
CONSTANTS MaxN, MaxItems, Strict
VARIABLES n, idx, v, items
Leaves(k) == [i \in 1..k |-> BE(i, 1)]
Bagged(k) == LET p == MPeakHashes(Leaves(k)) IN {MBag(SubSeq(p, i, Len(p))) : i \in 1..Len(p)}
Pool(k) == {MNode(Leaves(k), q).hash : q \in 0..(MSize(k) - 1)} \cup Bagged(k)
SeqsUpTo(S, k) == UNION {[1..j -> S] : j \in 0..k}
None == "none"
\* climb from the claimed leaf to the root of the peak <<a, c>>; takes items from position k on
RECURSIVE Climb(_, _, _, _)
Climb(a, c, h, k) ==   \* a: offset of the leaf in the perfect tree of c leaves
  IF c = 1 THEN <<h, k>>
  ELSE LET half == c \div 2
           r == Climb(a % half, half, h, k)
       IN IF r[1] = None \/ r[2] > Len(items) THEN <<None, 0>>
          ELSE IF a < half THEN <<MMerge(r[1], items[r[2]]), r[2] + 1>>
          ELSE <<MMerge(items[r[2]], r[1]), r[2] + 1>>
\* hashes of the peaks, the last one possibly bagged
RECURSIVE Gather(_, _, _, _, _)
Gather(p, i, k, acc, fromProof) ==
  IF i > Len(p) THEN <<TRUE, acc, k>>
  ELSE IF idx >= p[i][1] /\ idx < p[i][1] + p[i][2]
  THEN LET r == Climb(idx - p[i][1], p[i][2], MLeafHash(v), k) IN
       IF r[1] = None THEN <<FALSE, <<>>, 0>> ELSE Gather(p, i + 1, r[2], Append(acc, r[1]), FALSE)
  ELSE IF k <= Len(items) THEN Gather(p, i + 1, k + 1, Append(acc, items[k]), TRUE)
  ELSE IF (Strict /\ ~fromProof) \/ idx >= p[i][1] THEN <<FALSE, <<>>, 0>> ELSE <<TRUE, acc, k>>
Verifies ==
  LET g == Gather(MPeaks(0, n), 1, 1, <<>>, FALSE) IN
  /\ g[1]
  /\ LET rhs == IF g[3] <= Len(items) THEN <<items[g[3]]>> ELSE <<>>
         used == g[3] - 1 + Len(rhs)
     IN used = Len(items) /\ g[2] # <<>> /\ MBag(g[2] \o rhs) = MRoot(Leaves(n))
Init == /\ MInit /\ n \in 1..MaxN /\ idx \in 0..(n - 1) /\ v \in {BE(i, 1) : i \in 1..n}
        /\ items \in SeqsUpTo(Pool(n), MaxItems)
Next == UNCHANGED <<mvars, n, idx, v, items>>
Spec == Init /\ [][Next]_<<mvars, n, idx, v, items>>
Sound == Verifies => v = Leaves(n)[idx + 1]
=============================================================================
