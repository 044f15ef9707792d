----------------------------- MODULE GroveTrace -----------------------------
(* Is this a recording of one database (GroveLog)?                          *)
EXTENDS GroveLog
Init == l = 1 /\ T = T0 /\ seen = [x \in {<<>>} |-> NoSight] /\ txs = None
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
