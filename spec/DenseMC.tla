------------------------------ MODULE DenseMC ------------------------------
EXTENDS Dense, Json, TLC
CONSTANTS Values, Heights, MaxVals
VARIABLE hist
Init == DInit /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Fault == [w |-> 0, r |-> 0]
Next ==
  \/ \E h \in Heights : height = 0 /\ DCreate(h) /\ Op([op |-> "create", h |-> h])
  \/ /\ height > 0
     /\ \/ \E v \in Values, kind \in {"insert", "try"} :
             IF Len(vals) < DCap(height)
             THEN Len(vals) < MaxVals /\ DInsert(v) /\ Op([op |-> kind, v |-> v, fw |-> 0, fr |-> 0])
             ELSE DRefuse /\ Op([op |-> kind, v |-> v, fw |-> 0, fr |-> 0])
        \* an insert hit by a storage fault: at the write, or at some read of the root computation
        \/ \E kind \in {"insert", "try"}, fw \in 0..1, fr \in 0..2 :
             fw + fr > 0 /\ DRefuse /\ Len(vals) < DCap(height) /\ (fr > 0 => Len(vals) > fr - 1)
             /\ Op([op |-> kind, v |-> "ff", fw |-> fw, fr |-> fr])
        \/ DReset /\ Op([op |-> "reset"])
        \/ DReopen /\ Op([op |-> "reopen"])
Spec == Init /\ [][Next]_<<dvars, hist>>
View == dvars
EmitT == Emit(Env("SCHED_OUT", ""), ToJson(hist'))
CapacityHolds == height > 0 => Len(vals) <= DCap(height)
\* the root determines the sequence: changing, adding or dropping the last value changes the root
RootCommits ==
  (height > 0 /\ vals # <<>>) =>
     /\ DRoot(vals, height) # DRoot(SubSeq(vals, 1, Len(vals) - 1), height)
     /\ \A v \in Values : v # vals[Len(vals)] =>
          DRoot(SubSeq(vals, 1, Len(vals) - 1) \o <<v>>, height) # DRoot(vals, height)
EmptyIsZero == (height > 0 /\ vals = <<>>) => DRoot(vals, height) = DZero
=============================================================================
