------------------------------ MODULE GroveTx ------------------------------
(* Transactions over a committed hierarchy T. txs: id -> what the           *)
(* transaction has made of the hierarchy, whether it has changed anything,  *)
(* and whether somebody else has committed a change since it did. What has  *)
(* changed nothing sees what is committed; what is stale can only be        *)
(* dropped, so that the committed changes are those of one transaction      *)
(* after the other.                                                         *)
EXTENDS TLC
Fresh(T) == [T |-> T, wrote |-> FALSE, stale |-> FALSE]
Without(txs, x) == [y \in DOMAIN txs \ {x} |-> txs[y]]
Begun(T, txs, x) == (x :> Fresh(T)) @@ txs
\* what everybody else sees of a change of what is committed
Touch(txs) == [x \in DOMAIN txs |-> [txs[x] EXCEPT !.stale = @ \/ txs[x].wrote]]
View(T, txs, x) == IF x = 0 THEN T ELSE IF txs[x].wrote THEN txs[x].T ELSE T
Wrote(txs, x, U) == [txs EXCEPT ![x].T = U, ![x].wrote = TRUE]
\* a commit: refused when stale
MayCommit(txs, x) == ~txs[x].stale
Committed(T, txs, x) == IF txs[x].wrote /\ ~txs[x].stale THEN txs[x].T ELSE T
AfterCommit(txs, x) == IF txs[x].wrote /\ ~txs[x].stale THEN Touch(Without(txs, x)) ELSE Without(txs, x)
Undone(T, txs, x) == [txs EXCEPT ![x] = Fresh(T)]
=============================================================================
