------------------------------ MODULE MerkTreeMC ------------------------------
(* Every tree reachable by batches over a few keys, and every batch on it:  *)
(* the tree stays ordered and balanced and holds exactly what was put.      *)
EXTENDS MerkTree, Prims, TLC, Json, FiniteSets, SequencesExt
CONSTANTS K, MaxOps
VARIABLES t, hist
Ops == {"put", "del", "no"}
RECURSIVE Batch(_, _)
Batch(f, i) == IF i = K THEN <<>> ELSE (IF f[i] = "no" THEN <<>> ELSE <<[k |-> i, op |-> f[i]]>>) \o Batch(f, i + 1)
Weight(f) == Cardinality({i \in 0..(K - 1) : f[i] # "no"})
Batches == {Batch(f, 0) : f \in {g \in [0..(K - 1) -> Ops] : Weight(g) \in 1..MaxOps}}
KeySet(x) == {Keys(x)[i] : i \in DOMAIN Keys(x)}
Put(b) == {b[i].k : i \in {j \in DOMAIN b : b[j].op = "put"}}
Named(b) == {b[i].k : i \in DOMAIN b}
Init == t = <<>> /\ hist = <<>>
Next == \E b \in Batches :
          LET u == ApplyTo(t, b) IN
          /\ t' = u /\ hist' = Append(hist, b)
          /\ Assert(AVL(u) /\ Ordered(u) /\ KeySet(u) = (KeySet(t) \ Named(b)) \cup Put(b), <<t, b, u>>)
View == t
\* schedules for the real trees: every shape reached, and every single operation on every shape
Last1 == hist'[Len(hist')]
EmitT == Len(Last1) = 1 => Emit(Env("SCHED_OUT", ""), ToJson(hist'))
Spec == Init /\ [][Next]_<<t, hist>>
=============================================================================
