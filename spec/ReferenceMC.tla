----------------------------- MODULE ReferenceMC -----------------------------
(* Every reference over short paths at every short location.                *)
EXTENDS Reference, Json, TLC
CONSTANTS Keys, MaxLoc, MaxRef, MaxN
VARIABLES ref, path, key
vars == <<ref, path, key>>
Paths(n) == UNION {[1..k -> Keys] : k \in 0..n}
Refs == {[t |-> t, n |-> n, p |-> p] : t \in {"root", "root_parent", "from_end"}, n \in 0..MaxN, p \in Paths(MaxRef)}
        \cup {[t |-> t, n |-> 0, p |-> p] : t \in {"abs", "removed_cousin"}, p \in Paths(MaxRef)}
        \cup {[t |-> t, n |-> 0, p |-> <<k>>] : t \in {"cousin", "sibling"}, k \in Keys}
\* segments of the location are told apart by their depth
Loc(n) == {[i \in 1..n |-> BE(i, 1)], [i \in 1..n |-> "61"]}
Init == /\ ref \in Refs /\ path \in UNION {Loc(n) : n \in 0..MaxLoc} /\ key \in Keys
        /\ Emit(Env("SCHED_OUT", ""), ToJson([ref |-> ref, path |-> path, key |-> key]))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
InvertOk == LET i == Invert(ref, path, key) IN i # <<>> => LeadsBack(ref, i[1], path, key)
=============================================================================
