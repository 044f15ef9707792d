----------------------------- MODULE QueryItemMC -----------------------------
(* Every pair of items over a small set of keys, compared with plain sets   *)
(* of keys; each pair is also given to the real code.                       *)
EXTENDS QueryItem, Json, TLC
CONSTANTS Bounds,      \* keys used as bounds
          Universe     \* keys whose membership is looked at (contains every cut of Bounds)
VARIABLES i, j
vars == <<i, j>>
Mk(k, a, b) == [t |-> k, a |-> IF k \in {"full", "to", "toinc"} THEN "" ELSE a,
                b |-> IF k \in {"full", "from", "after", "key"} THEN "" ELSE b]
All == {Mk(k, a, b) : k \in QKinds, a \in Bounds, b \in Bounds}
Init == i \in All /\ j \in All /\ Emit(Env("SCHED_OUT", ""), ToJson([i |-> i, j |-> j]))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
S(x) == {k \in Universe : QIn(x, k)}
EmptyOk == QEmpty(i) <=> S(i) = {}
OverlapOk == QOverlap(i, j) <=> S(i) \cap S(j) # {}
SameOk == SameUnion(<<i>>, <<j>>) <=> S(i) = S(j)
\* the order is antisymmetric, agrees with keys, and equal items denote the same set
OrderOk == /\ QCmp(i, j) = 0 - QCmp(j, i)
           /\ QCmp(i, j) = 0 => S(i) = S(j)
           /\ (~QEmpty(i) /\ ~QEmpty(j) /\ ~QOverlap(i, j)) =>
                (QCmp(i, j) = -1 <=> \A x \in S(i), y \in S(j) : BLess(x, y))
TouchOk == (~QEmpty(i) /\ ~QEmpty(j)) =>
             (QTouch(i, j) <=> ~\E k \in Universe : /\ k \notin S(i) \cup S(j)
                                                    /\ \/ (\E x \in S(i) : BLess(x, k)) /\ (\A y \in S(j) : BLess(k, y)) /\ (\A x \in S(i) : BLess(x, k))
                                                       \/ (\E x \in S(j) : BLess(x, k)) /\ (\A y \in S(i) : BLess(k, y)) /\ (\A x \in S(j) : BLess(x, k)))
=============================================================================
