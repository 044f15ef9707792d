------------------------------- MODULE CostsMC -------------------------------
(* The algebra of removed bytes with a small cap: adding is commutative and *)
(* associative, nothing is the identity, and nothing is lost below the cap. *)
(* Each pair is also given to the real code.                                *)
EXTENDS Costs, Json, TLC
CONSTANTS Ids, Eps, Amounts
VARIABLES a, b, c
vars == <<a, b, c>>
Slots == {x \in Ids \X Eps : x[1] = Anon \/ x[2] # Unknown}
Sect == {[t |-> "sect", s |-> s] :
           s \in {{[id |-> k[1], ep |-> k[2], n |-> f[k]] : k \in {j \in Slots : f[j] # "none"}} : f \in [Slots -> Amounts \cup {"none"}]}}
All == {RNone} \cup {RBasic(n) : n \in Amounts} \cup Sect
Init == /\ a \in All /\ b \in All /\ c = RNone
        /\ Emit(Env("SCHED_OUT", ""), ToJson([a |-> a, b |-> b]))
Next == c = RNone /\ c' \in All \ {RNone} /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Commutes == RAdd(a, b) = RAdd(b, a)
Associates == RAdd(RAdd(a, b), c) = RAdd(a, RAdd(b, c))
Identity == RAdd(a, RNone) = a /\ RAdd(RNone, a) = a
TotalAdds == RTotal(RAdd(a, b)) = Add32(RTotal(a), RTotal(b)) 
Keeps == \A k \in RSlots(a) : ILeq(RAmount(a, k[1], k[2]), RAmount(RAdd(a, b), k[1], k[2]))
=============================================================================
