--------------------------- MODULE CommitmentTrace ---------------------------
(* Recorded use of commitment frontiers and of commitment trees. A tree is  *)
(* its notes (vals, of Bulk) with the frontier in memory (f), the one in    *)
(* the store (kept: its bytes or "none") and the one in the    *)
(* store at the last save (snap).                                           *)
EXTENDS Bulk, Json, TLC, IOUtils
C == INSTANCE Commitment
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, f, kept, snap, cs
\* cs: the commitments behind f; known: whether they are known
cvars == <<f, kept, snap, cs>>
Init == l = 1 /\ BInit /\ f = C!NoFrontier /\ kept = "none" /\ snap = "none" /\ cs = <<>>
Same == UNCHANGED cvars
Nothing == BNothing /\ Same
Stored(b) == IF b = "none" THEN <<C!NoFrontier>> ELSE C!FrontierOf(b)
Sane(h) == h \in 1..16
Root(vs, g) == C!StateRoot(C!Anchor(g), BRoot(vs, height))
\* the frontier of known leaves says what the tree over them says
Agrees == cs' = <<"?">> \/ C!Anchor(f') = C!AnchorOf(cs')
Step(r) ==
  CASE r.e = "new" -> BCreate(0) /\ f' = C!NoFrontier /\ kept' = "none" /\ snap' = "none" /\ cs' = <<>>
    \* --- the frontier on its own ---
    [] r.e = "fappend" ->
       IF ~C!FieldOk(r.cmx) \/ C!Full(f) THEN r.st = "err" /\ Nothing
       ELSE /\ r.st = "ok" /\ f' = C!Push(f, r.cmx) /\ r.v.root = C!Anchor(f') /\ r.v.calls = C!PushCalls(f)
            /\ cs' = (IF cs = <<"?">> THEN cs ELSE Append(cs, r.cmx)) /\ Agrees
            /\ UNCHANGED <<kept, snap>> /\ BNothing
    [] r.e = "fstate" ->
       /\ Nothing /\ r.root = C!Anchor(f) /\ r.anchor = r.root /\ r.size = f.n
       /\ r.pos = (IF f.n = "0" THEN "none" ELSE ISub(f.n, "1")) /\ r.b = C!FrontierBytes(f)
    [] r.e = "fde" ->
       LET g == C!FrontierOf(r.b) IN
       IF g = <<>> THEN r.st = "err" /\ Nothing
       ELSE /\ r.st = "ok" /\ f' = g[1] /\ cs' = (IF g[1] = f THEN cs ELSE IF g[1].n = "0" THEN <<>> ELSE <<"?">>)
            /\ UNCHANGED <<kept, snap>> /\ BNothing
    [] r.e = "empty" -> Nothing /\ r.root = C!EmptyAnchor /\ r.const = C!EmptyAnchor /\ r.state = C!CtRoot(<<>>, 1)
    [] r.e = "cipher" -> /\ Nothing /\ r.size = 216
                         /\ IF BLen(r.b) = 216 THEN r.st = "ok" /\ r.v = r.b ELSE r.st = "err"
    \* --- trees ---
    [] r.e = "create" ->
       IF Sane(r.h) THEN r.st = "ok" /\ BCreate(r.h) /\ f' = C!NoFrontier /\ cs' = <<>> /\ kept' = "none" /\ snap' = "none"
       ELSE r.st = "err" /\ Nothing
    [] r.e = "append" ->
       IF ~C!FieldOk(r.cmx) \/ BLen(r.payload) # 216 THEN r.st = "err" /\ Nothing
       ELSE \/ /\ r.st = "ok" /\ BAppend(Cat(<<r.cmx, r.rho, r.payload>>)) /\ f' = C!Push(f, r.cmx) /\ cs' = Append(cs, r.cmx)
               /\ Agrees /\ UNCHANGED <<kept, snap>>
               /\ r.v.pos = Len(vals) /\ r.v.bulk = BRoot(vals', height) /\ r.v.root = C!Anchor(f')
               /\ r.v.compacted = (Len(BBuffer(vals, height)) = Epoch(height) - 1)
               /\ r.v.hashes = BHashes(vals, height) /\ r.v.calls = <<BHashes(vals, height), C!PushCalls(f)>>
            \/ r.fault /\ r.st = "err" /\ Nothing
    [] r.e = "commit" ->
       \/ r.st = "ok" /\ BCommit /\ Same
       \/ r.fault /\ r.st = "err" /\ Nothing
    [] r.e = "save" ->
       \/ r.st = "ok" /\ kept' = C!FrontierBytes(f) /\ BNothing /\ UNCHANGED <<f, snap, cs>>
       \/ r.fault /\ r.st = "err" /\ Nothing
    \* everything is in the store: what is discarded from now on leads back to here
    [] r.e = "keep" -> kept = C!FrontierBytes(f) /\ BSave /\ snap' = kept /\ UNCHANGED <<f, kept, cs>>
    [] r.e = "drop" -> /\ BDrop /\ kept' = snap /\ f' = Stored(snap)[1] /\ r.st = "ok"
                       /\ cs' = C!Commitments(saved) /\ snap' = snap
    \* opened with the frontier in the store and a number of notes
    [] r.e = "open" ->
       IF /\ Sane(r.h) /\ Stored(kept) # <<>> /\ Stored(kept)[1].n = r.n
       THEN \/ r.st = "ok" /\ f' = Stored(kept)[1] /\ BReopen /\ UNCHANGED <<kept, snap>>
               /\ LET t == C!Commitments(vals) IN cs' = IF f' = C!FrontierFrom(t) THEN t ELSE <<"?">>
            \/ r.fault /\ r.st = "err" /\ Nothing
       ELSE r.st = "err" /\ Nothing
    [] r.e = "write" -> kept' = r.b /\ BNothing /\ UNCHANGED <<f, snap, cs>>
    [] r.e = "state" ->
       /\ Nothing /\ r.root = C!Anchor(f) /\ r.anchor = r.root /\ r.size = f.n /\ r.count = Len(vals)
       /\ r.pos = (IF f.n = "0" THEN "none" ELSE ISub(f.n, "1"))
       /\ r.epoch = Epoch(height) /\ r.chunks = BChunks(vals, height)
       /\ r.state = Root(vals, f)
       /\ cs # <<"?">> => r.size = Dec(Len(vals)) /\ r.state = C!CtRoot(vals, height)
    [] r.e = "buf" -> /\ Nothing /\ r.st = "ok"
                      /\ LET b == BBuffer(vals, height) IN IF r.pos < Len(b) THEN r.v.some /\ r.v.val = b[r.pos + 1] ELSE ~r.v.some
    [] r.e = "chunk" -> /\ Nothing /\ r.st = "ok"
                        /\ IF r.idx < BChunks(vals, height) THEN r.v.some /\ r.v.val = BlobOf(BChunk(vals, height, r.idx)) ELSE ~r.v.some
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, bvars, cvars>>
=============================================================================
