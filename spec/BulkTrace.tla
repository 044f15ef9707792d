----------------------------- MODULE BulkTrace -----------------------------
EXTENDS Bulk, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1 /\ BInit
N == Len(vals)
Step(r) ==
  CASE r.e = "new" -> BCreate(0)
    [] r.e = "create" ->
       IF r.h \in 1..16 THEN r.st = "ok" /\ r.v.cap = Epoch(r.h) - 1 /\ r.v.epoch = Epoch(r.h) /\ BCreate(r.h)
       ELSE r.st = "err" /\ BNothing
    [] r.e = "badopen" -> BNothing /\ r.st = (IF r.h \in 1..16 THEN "ok" ELSE "err")
    [] r.e = "append" ->
       \/ /\ r.st = "ok" /\ BAppend(r.val)
          /\ r.v.pos = N /\ r.v.root = BRoot(vals', height)
          /\ r.v.compacted = (Len(BBuffer(vals, height)) = Epoch(height) - 1)
          /\ r.v.hashes = BHashes(vals, height)
       \/ r.fault /\ r.st = "err" /\ BNothing
    [] r.e = "root" -> BNothing /\ r.st = "ok" /\ r.v = BRoot(vals, height)
    [] r.e = "info" -> /\ BNothing /\ r.count = N /\ r.chunks = BChunks(vals, height) /\ r.h = height
                       /\ r.buf = Len(BBuffer(vals, height)) /\ r.mmr = M!MSize(BChunks(vals, height))
    [] r.e = "buf" ->
       /\ BNothing /\ r.st = "ok"
       /\ LET b == BBuffer(vals, height) IN IF r.pos < Len(b) THEN r.v.some /\ r.v.val = b[r.pos + 1] ELSE ~r.v.some
    [] r.e = "chunk" ->
       /\ BNothing /\ r.st = "ok"
       /\ IF r.idx < BChunks(vals, height) THEN r.v.some /\ r.v.val = BlobOf(BChunk(vals, height, r.idx)) ELSE ~r.v.some
    [] r.e = "chunks" ->
       /\ BNothing
       /\ IF \A i \in 1..Len(r.ix) : r.ix[i] < BChunks(vals, height)
          THEN /\ r.st = "ok"
               /\ r.v.chunks = [i \in 1..Len(r.ix) |-> <<r.ix[i], BChunk(vals, height, r.ix[i])>>]
               /\ r.ix # <<>> => r.v.root = BMmrRoot(vals, height) /\ r.v.proves
          ELSE r.st = "err"
    [] r.e = "bufq" ->
       /\ BNothing
       /\ IF D!DQueryOk(r.items)
          THEN LET b == BBuffer(vals, height) IN
               /\ r.st = "ok" /\ r.v.proves
               /\ {r.v.entries[i] : i \in 1..Len(r.v.entries)} = {<<p, b[p + 1]>> : p \in D!DSelected(r.items, Len(b))}
          ELSE r.st = "err"
    [] r.e = "commit" ->
       \/ r.st = "ok" /\ BCommit
       \/ r.fault /\ r.st = "err" /\ BNothing       \* nothing is lost: it can be repeated
    [] r.e = "reopen" -> r.st = "ok" /\ BReopen
    [] r.e = "save" -> BSave
    [] r.e = "drop" -> r.st = "ok" /\ BDrop
    \* chunk blobs on their own
    [] r.e = "ser" -> BNothing /\ r.st = "ok" /\ r.v.blob = BlobOf(r.vals) /\ r.v.back = r.vals
    [] r.e = "de" -> /\ BNothing
                     /\ LET d == BlobDecode(r.b) IN IF d.ok THEN r.st = "ok" /\ r.v = d.v ELSE r.st = "err"
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, bvars>>
=============================================================================
