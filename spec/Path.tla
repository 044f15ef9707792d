-------------------------------- MODULE Path --------------------------------
(* Subtree paths: whatever way a path was built, it is its list of segments.*)
(* The state is the list of paths built so far; each operation builds one   *)
(* more (or changes one) from an earlier one.                               *)
EXTENDS Naturals, Sequences, FiniteSets, Prims
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* op: [op, src, segs]; the resulting path, or <<>> when there is none (parent of the root)
Built(pool, o) ==
  CASE o.op \in {"slice", "iter"} -> <<o.segs>>
    [] o.op \in {"owned", "copy", "clone", "borrow"} -> <<pool[o.src]>>
    [] o.op \in {"child", "push"} -> <<pool[o.src] \o o.segs>>
    [] o.op \in {"parent", "parent_owned"} -> IF pool[o.src] = <<>> THEN <<>> ELSE <<Front(pool[o.src])>>
Chopped(pool, o) == IF o.op \in {"parent", "parent_owned"} /\ pool[o.src] # <<>> THEN <<pool[o.src][Len(pool[o.src])]>> ELSE <<>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
