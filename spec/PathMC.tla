------------------------------- MODULE PathMC -------------------------------
(* Every chain of operations of bounded length, each applied to the path    *)
(* built last; the chains are replayed on the real code.                    *)
EXTENDS Path, Json, TLC
CONSTANTS Depth, Segs, Starts
MCStarts == {<<>>, <<"61">>, <<"", "62">>}
VARIABLES pool, ops
vars == <<pool, ops>>
Init == \E s \in Starts, k \in {"slice", "iter"} :
          pool = <<s>> /\ ops = <<[op |-> k, src |-> 0, segs |-> s]>>
Apply(o) == LET b == Built(pool, o) IN
            /\ pool' = (IF b = <<>> THEN Append(pool, pool[o.src]) ELSE Append(pool, b[1]))
            /\ ops' = Append(ops, o)
Next == /\ Len(ops) < Depth
        /\ \/ \E k \in {"owned", "copy", "borrow", "parent", "parent_owned"} : Apply([op |-> k, src |-> Len(pool), segs |-> <<>>])
           \/ \E k \in {"child", "push"}, s \in Segs : Apply([op |-> k, src |-> Len(pool), segs |-> <<s>>])
        /\ (Len(ops') = Depth => Emit(Env("SCHED_OUT", ""), ToJson(ops')))
Spec == Init /\ [][Next]_vars
\* going to the parent undoes adding a child
Undo == \A i \in 1..Len(pool) : \A s \in Segs :
          LET c == Built(pool, [op |-> "child", src |-> i, segs |-> <<s>>])[1] IN
          Built(<<c>>, [op |-> "parent", src |-> 1, segs |-> <<>>]) = <<pool[i]>>
=============================================================================
