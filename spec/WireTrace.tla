----------------------------- MODULE WireTrace -----------------------------
(* Everything that is stored or sent, written and read.                     *)
EXTENDS Element, QueryWire, ProofWire, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Enc(f, x) ==
  CASE f = "element" -> EncEl(x) [] f = "item" -> EncItem(x) [] f = "query" -> EncQuery(x) [] f = "branch" -> EncBranch(x)
    [] f = "sized" -> EncSized(x)
    [] f = "pathquery" -> EncPQ(x) [] f = "asq" -> EncASQ(x) [] f = "aspq" -> EncASPQ(x) [] f = "trunk" -> EncTrunk(x)
    [] f = "branchq" -> EncBranchQ(x) [] f = "op" -> EncOp(x) [] f = "feature" -> EncFeat(x) [] f = "mmr" -> EncMmr(x)
    [] f = "dense" -> EncDense(x) [] f = "bulk" -> EncBulk(x) [] f = "proof" -> EncProof(x) [] f = "ref" -> EncRef(x)
Rd(f, b) ==
  CASE f = "element" -> REl(b, 0) [] f = "item" -> RItem(b, 0) [] f = "query" -> RQuery(b, 0, 0) [] f = "branch" -> RBranch(b, 0, 0)
    [] f = "sized" -> RSized(b, 0)
    [] f = "pathquery" -> RPQ(b, 0) [] f = "asq" -> RASQ(b, 0) [] f = "aspq" -> RASPQ(b, 0) [] f = "trunk" -> RTrunk(b, 0)
    [] f = "branchq" -> RBranchQ(b, 0) [] f = "op" -> ROp(b, 0) [] f = "feature" -> RFeat(b, 0) [] f = "mmr" -> RMmr(b, 0)
    [] f = "dense" -> RDense(b, 0) [] f = "bulk" -> RBulk(b, 0) [] f = "proof" -> RProof(b, 0) [] f = "ref" -> RRef(b, 0)
\* a number wider than its type: any outcome but a crash
Open(f, r) == IF r = <<>> THEN FALSE
              ELSE (CASE f = "op" -> WideFeat(r[1].f) [] f = "feature" -> WideFeat(r[1]) [] OTHER -> FALSE)
\* the most memory a reader may ask for at once, in megabytes
MaxAlloc == 272
\* a single operation claims at most 64
MaxOp == 68
Step(r) ==
  CASE r.e = "write" ->        \* written, measured and read back
         /\ r.st = "ok" /\ r.v.bytes = Enc(r.f, r.x)
         /\ \A i \in 1..Len(r.v.lens) : r.v.lens[i] = BLen(r.v.bytes)
         /\ \A i \in 1..Len(r.v.back) : r.v.back[i] = r.x
         /\ Rd(r.f, r.v.bytes) = <<r.x, BLen(r.v.bytes)>>
    [] r.e = "read" ->         \* any bytes at all; used: how many were read (-1: not told)
         LET want == Rd(r.f, r.b) IN
         /\ r.st # "panic" /\ r.mb <= (IF r.f = "op" THEN MaxOp ELSE MaxAlloc)
         /\ IF Open(r.f, want) THEN TRUE
            ELSE IF want = <<>> THEN r.st = "err"
            ELSE r.st = "ok" /\ r.v.x = want[1] /\ (r.v.used = -1 \/ r.v.used = want[2])
    [] r.e = "ops" ->          \* a sequence of operations
         LET want == ROps(r.b, 0) IN
         /\ r.st = "ok" /\ r.mb <= MaxOp
         /\ (\E i \in 1..Len(want.ops) : WideFeat(want.ops[i].f)) \/
            (/\ r.v.ops = want.ops /\ r.v.good = want.ok /\ (want.ok => r.v.left = 0))
    [] r.e = "opseq" -> r.st = "ok" /\ r.v = Cat([i \in 1..Len(r.x) |-> EncOp(r.x[i])])
    [] r.e = "featcost" -> r.st = "ok" /\ r.v.cost = FeatCost(r.x.t) /\ r.v.nodelen = FeatCost(r.x.t) /\ r.v.nodecost = FeatCost(r.x.t) - 1
                           /\ r.v.count = (IF r.x.t \in {"count", "countsum", "provcount", "provcountsum"} THEN <<r.x.n>> ELSE <<>>)
                           /\ r.v.len = BLen(EncFeat(r.x))
                           /\ r.v.special = (CASE r.x.t = "basic" -> <<>> [] r.x.t = "bigsum" -> <<"16", 16>>
                                               [] r.x.t \in {"countsum", "provcountsum"} -> <<"two", BLen(EncFeat(r.x)) - 1>>
                                               [] OTHER -> <<"8", BLen(EncFeat(r.x)) - 1>>)
    [] r.e = "deep" ->         \* many or deeply nested parts
         LET want == Rd(r.f, r.b) IN
         /\ r.st # "panic" /\ r.mb <= MaxAlloc
         /\ IF want = <<>> THEN r.st = "err" ELSE r.st = "ok" /\ r.v = want[2]
    [] r.e = "items" ->        \* a query of so many items
         /\ r.mb <= MaxAlloc
         /\ IF r.n > MaxItems THEN r.st = "err" ELSE r.st = "ok" /\ r.v.items = r.n /\ r.v.left = 0
    [] r.e = "text" -> r.st = "ok" /\ r.v = r.x       \* through the text form
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
