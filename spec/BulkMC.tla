------------------------------- MODULE BulkMC -------------------------------
EXTENDS Bulk, Json, TLC
CONSTANTS Values, Heights, MaxVals
VARIABLE hist
Init == BInit /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Open == height > 0
Next ==
  \/ \E h \in Heights : ~Open /\ BCreate(h) /\ Op([op |-> "create", h |-> h])
  \/ \E v \in Values : Open /\ Len(vals) < MaxVals /\ BAppend(v) /\ Op([op |-> "append", v |-> v])
  \/ Open /\ flushed < BChunks(vals, height) /\ BCommit /\ Op([op |-> "commit"])
  \/ Open /\ BReopen /\ Op([op |-> "reopen"])
  \/ Open /\ saved # vals /\ BSave /\ Op([op |-> "save"])
  \/ Open /\ saved # vals /\ BDrop /\ Op([op |-> "drop"])
Spec == Init /\ [][Next]_<<bvars, hist>>
View == bvars
EmitT == Emit(Env("SCHED_OUT", ""), ToJson(hist'))
IsPfx(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE Join(_, _, _)
Join(s, h, i) == IF i >= BChunks(s, h) THEN BBuffer(s, h) ELSE BChunk(s, h, i) \o Join(s, h, i + 1)
Partition == Open => Join(vals, height, 0) = vals /\ Len(BBuffer(vals, height)) < Epoch(height)
Decodes == Open => \A i \in 1..BChunks(vals, height) : LET d == BlobDecode(BBlobs(vals, height)[i]) IN
              d.ok /\ d.v = BChunk(vals, height, i - 1)
RootCommits == (Open /\ vals # <<>>) =>
  LET pre == SubSeq(vals, 1, Len(vals) - 1) IN
  /\ BRoot(vals, height) # BRoot(pre, height)
  /\ \A v \in Values : v # vals[Len(vals)] => BRoot(Append(pre, v), height) # BRoot(vals, height)
FlushedBound == Open => flushed <= BChunks(vals, height)
ChunksStable == [][(Open /\ Len(vals') >= Len(vals)) => \A i \in 1..BChunks(vals, height) : BBlobs(vals', height)[i] = BBlobs(vals, height)[i]]_bvars
=============================================================================
