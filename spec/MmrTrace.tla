----------------------------- MODULE MmrTrace -----------------------------
EXTENDS Mmr, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1 /\ MInit
Is(r, e) == r.e = e
\* nodes visible through the handle / in the store
Seen(s, r) ==
  IF r.pos < MSize(Len(s))
  THEN LET nd == MNode(s, r.pos) IN
       r.st = "ok" /\ r.v.some /\ r.v.hash = nd.hash /\ r.v.leaf = nd.leaf /\ r.v.val = nd.val
  ELSE r.st = "ok" => ~r.v.some
Step(r) ==
  \/ Is(r, "new") /\ cur' = <<>> /\ stored' = <<>>
  \/ /\ Is(r, "push") /\ r.st = "ok"
     /\ r.v.pos = MSize(Len(cur)) /\ r.v.size = MSize(Len(cur) + 1)
     /\ MPush(r.val)
  \/ Is(r, "commit") /\ r.st = "ok" /\ MCommit
  \/ Is(r, "reopen") /\ r.size = MSize(Len(stored)) /\ MReopen
  \/ Is(r, "handover") /\ r.size = MSize(Len(cur)) /\ MHandover
  \/ /\ Is(r, "root") /\ UNCHANGED mvars
     /\ IF cur = <<>> THEN r.st = "err" ELSE r.st = "ok" /\ r.v = MRoot(cur)
  \/ Is(r, "size") /\ UNCHANGED mvars /\ r.size = MSize(Len(cur)) /\ r.empty = (cur = <<>>)
  \/ Is(r, "node") /\ UNCHANGED mvars /\ Seen(cur, r)
  \/ Is(r, "snode") /\ UNCHANGED mvars /\ Seen(stored, r)
  \* position helpers
  \/ /\ Is(r, "arith") /\ UNCHANGED mvars
     /\ r.st = "ok"
     /\ r.v.leafpos = MLeafPos(r.i) /\ r.v.size = MSize(r.i + 1) /\ r.v.count = r.i + 1
     /\ r.v.hashes = MPushHashes(r.i)
  \* large values of the helpers (decimal strings): position of leaf 2^k+j etc.
  \/ /\ Is(r, "barith") /\ UNCHANGED mvars
     /\ r.st = "ok"
     /\ LET n == IAdd(IPow2(r.k), r.j)          \* leaf index
            sz(a, b) == ISub(ISub(IMul("2", IAdd(IPow2(a), b)), "1"), PopCount(b))  \* size of 2^a+b leaves, b < 2^a
        IN /\ r.v.leafpos = sz(r.k, r.j)
           /\ r.v.size = sz(r.k, r.j + 1) /\ r.v.count = IAdd(n, "1")
           /\ r.v.hashes = MPushHashes(r.j)
  \/ /\ Is(r, "key") /\ UNCHANGED mvars
     /\ r.st = "ok" /\ r.v.plain = BE(r.pos, 8)
     /\ r.v.k64 = BE(IAdd(r.pos, IPow2(63)), 8)
     /\ IF ILess(r.pos, IPow2(31)) THEN r.v.k32 = BE(IAdd(r.pos, IPow2(31)), 4) ELSE r.v.k32 = "err"
  \* node serialization
  \/ /\ Is(r, "ser") /\ UNCHANGED mvars
     /\ r.st = "ok"
     /\ r.v.bytes = (IF r.leaf THEN MSerLeaf(r.val) ELSE MSerInternal(r.val))
     /\ r.v.size = BLen(r.v.bytes)
     /\ r.v.back = TRUE
     /\ r.v.hash = (IF r.leaf THEN MLeafHash(r.val) ELSE r.val)
  \/ /\ Is(r, "de") /\ UNCHANGED mvars
     /\ IF MDecodable(r.b)
        THEN /\ r.st = "ok" /\ r.v.hash = BSub(r.b, 1, 33) /\ r.v.again = r.b
             /\ r.v.leaf = (BSub(r.b, 0, 1) # "00")
             /\ r.v.leaf => r.v.val = BSub(r.b, 37, BLen(r.b))
        ELSE r.st = "err"
  \/ /\ Is(r, "merge") /\ UNCHANGED mvars /\ r.st = "ok" /\ r.v = MMerge(r.a, r.b)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, mvars>>
============================================================================
