----------------------------- MODULE DenseTrace -----------------------------
EXTENDS Dense, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1 /\ DInit
Full == Len(vals) >= DCap(height)
Step(r) ==
  CASE r.e = "new" -> DCreate(0)
    [] r.e = "create" ->
       IF r.h \in 1..16 THEN r.st = "ok" /\ r.v = DCap(r.h) /\ DCreate(r.h)
       ELSE r.st = "err" /\ UNCHANGED dvars
    [] r.e \in {"insert", "try"} ->
       \/ /\ ~Full /\ r.st = "ok" /\ r.v.some
          /\ DInsert(r.val) /\ r.v.pos = Len(vals) /\ r.v.root = DRoot(vals', height)
          /\ r.hashes = 2 * Len(vals')          \* charged: two hashes for each value
       \/ /\ Full /\ DRefuse /\ r.hashes = 0
          /\ IF r.e = "insert" THEN r.st = "err" ELSE r.st = "ok" /\ ~r.v.some
       \/ r.fault /\ r.st = "err" /\ DRefuse
    [] r.e = "get" ->
       /\ UNCHANGED dvars
       /\ \/ r.fault /\ r.st = "err"
          \/ /\ r.st = "ok"
             /\ IF r.pos < Len(vals) THEN r.v.some /\ r.v.val = vals[r.pos + 1] ELSE ~r.v.some
    [] r.e = "root" ->
       /\ UNCHANGED dvars
       /\ \/ (r.fault /\ r.st = "err")
          \/ (r.st = "ok" /\ r.v = DRoot(vals, height) /\ r.hashes = 2 * Len(vals))
    [] r.e = "info" -> UNCHANGED dvars /\ r.count = Len(vals) /\ r.h = height /\ r.cap = DCap(height)
    [] r.e = "reset" -> DReset
    [] r.e = "reopen" -> r.st = "ok" /\ DReopen
    \* opening with an impossible height or count
    [] r.e = "badopen" -> UNCHANGED dvars /\ r.st = (IF r.h \in 1..16 /\ r.count <= DCap(r.h) THEN "ok" ELSE "err")
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, dvars>>
=============================================================================
