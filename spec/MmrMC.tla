------------------------------- MODULE MmrMC -------------------------------
(* Small-constant model of the MMR; emits one schedule per transition of    *)
(* the state graph, which the harness replays into the real MMR.            *)
EXTENDS Mmr, Json, TLC
CONSTANTS Values, MaxLeaves
VARIABLE hist
Init == MInit /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Next ==
  \/ \E v \in Values : Len(cur) < MaxLeaves /\ MPush(v) /\ Op([op |-> "push", v |-> v])
  \/ MCommit /\ Op([op |-> "commit"])
  \/ MReopen /\ Op([op |-> "reopen"])
  \/ MHandover /\ Op([op |-> "handover"])
Spec == Init /\ [][Next]_<<mvars, hist>>
View == mvars
EmitT == Emit(Env("SCHED_OUT", ""), ToJson(hist'))
Bounded == Len(hist) <= 3 * MaxLeaves

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* what is stored is always a history of the handle or the handle's future
StoredPrefix == IsPrefixOf(stored, cur)
\* position arithmetic agrees with the structure
Arith ==
  LET n == Len(cur) IN
  /\ MLeaves(MSize(n)) = n
  /\ \A i \in 0..(n - 1) : MLocate(MLeafPos(i), 0, n) = <<i, 1>>
\* the root commits to the sequence: two reachable sequences of equal length have equal roots iff equal
RootCommits == Len(cur) > 0 /\ Len(stored) = Len(cur) => (MRoot(cur) = MRoot(stored)) = (cur = stored)
\* peak hashes stored at positions determine the root (reads by position reconstruct it)
RootFromPositions ==
  Len(cur) > 0 =>
    LET p == MPeaks(0, Len(cur))
        pos(k) == MSize(p[k][1]) + 2 * p[k][2] - 2
    IN MRoot(cur) = MBag([k \in 1..Len(p) |-> MNode(cur, pos(k)).hash])
\* positions already written never change
Stable == \A pos \in 0..(MSize(Len(stored)) - 1) : MNode(stored, pos) = MNode(cur, pos)
=============================================================================
