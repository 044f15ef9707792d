--------------------------- MODULE BulkProofTrace ---------------------------
EXTENDS Bulk, Json, TLC, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, root
Has(r, f) == f \in DOMAIN r
True1(c) == c[1] >= 0 /\ c[1] < Len(vals) /\ vals[c[1] + 1] = c[2]
Step(r) ==
  /\ r.e # "new" => UNCHANGED <<bvars, root>>
  /\ CASE r.e = "new" ->
            /\ vals' = r.vals /\ height' = r.h /\ flushed' = 0 /\ saved' = <<>>
            /\ root' = r.root /\ r.root = BRoot(r.vals, r.h)
       [] r.e = "gen" ->
            IF BQueryOk(r.items) /\ ~r.sub
            THEN /\ r.st = "ok"
                 /\ r.v.answer = BAnswer(r.items, vals) /\ r.v.coded = r.v.answer /\ r.v.root = root
            ELSE r.st = "err"
       \* verification without a query: every chunk and value shown is true
       [] r.e = "show" ->
            /\ r.st \in {"ok", "err"}
            /\ Has(r, "must") => r.st = r.must
            /\ r.st = "ok" =>
                 /\ \A i \in 1..Len(r.v.chunks) : LET c == r.v.chunks[i] IN
                       c[1] < BChunks(vals, height) /\ c[2] = BlobOf(BChunk(vals, height, c[1]))
                 /\ \A i \in 1..Len(r.v.dense) : LET c == r.v.dense[i] b == BBuffer(vals, height) IN
                       c[1] < Len(b) /\ c[2] = b[c[1] + 1]
                 /\ \A i \in 1..Len(r.v.range) : True1(r.v.range[i])
                 /\ Has(r, "whole") => r.v.range = BRange(vals, r.whole[1], r.whole[2])
       \* any proof checked against the true root, count and a query
       [] r.e = "forged" ->
            /\ r.st \in {"ok", "err"}
            /\ r.st = "ok" => BQueryOk(r.items) /\ ~r.sub /\ r.v = BAnswer(r.items, vals)
            /\ Has(r, "must") => r.st = r.must
       [] r.e = "bytes" -> r.st \in {"ok", "err"}
       [] OTHER -> FALSE
Init == l = 1 /\ BInit /\ root = ""
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, root, bvars>>
=============================================================================
