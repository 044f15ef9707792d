----------------------------- MODULE HashTrace -----------------------------
(* The hash functions of key-value trees: what they compute, and that they  *)
(* charge one call for each block of 64 bytes they hash.                    *)
EXTENDS Merk, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Blocks(n) == 1 + ((n - 1) \div 64)
VarLen(n) == BLen(VarInt(n))
CValue(v) == Blocks(VarLen(BLen(v)) + BLen(v))
CKv(k) == Blocks(VarLen(BLen(k)) + BLen(k) + 32)
CNode == 2
CCombine == 1
\* a node of a proof without children: <<hash, calls>>
Leaf(kv, calls, counted) ==
  <<IF counted = <<>> THEN NodeHash(kv, NullHash, NullHash) ELSE NodeHashCount(kv, NullHash, NullHash, counted[1]), calls + CNode>>
Ref(x) == Combine(x.h, ValueHash(x.v))
InHash(f) == IF f.t \in {"provcount", "provcountsum"} THEN <<f.n>> ELSE <<>>
ProofNode(x) ==
  CASE x.n = "hash" -> <<x.h, 0>>
    [] x.n = "kvhash" -> Leaf(x.h, 0, <<>>)
    [] x.n = "hashcount" -> Leaf(x.h, 0, <<x.c>>)
    [] x.n = "kv" -> Leaf(KvHash(x.k, ValueHash(x.v)), CValue(x.v) + CKv(x.k), <<>>)
    [] x.n = "kvcount" -> Leaf(KvHash(x.k, ValueHash(x.v)), CValue(x.v) + CKv(x.k), <<x.c>>)
    [] x.n \in {"kvvh", "kvdigest"} -> Leaf(KvHash(x.k, x.h), CKv(x.k), <<>>)
    [] x.n = "digestcount" -> Leaf(KvHash(x.k, x.h), CKv(x.k), <<x.c>>)
    [] x.n \in {"kvft", "child"} -> Leaf(KvHash(x.k, x.h), CKv(x.k), InHash(x.f))
    [] x.n = "ref" -> Leaf(KvHash(x.k, Ref(x)), CValue(x.v) + CCombine + CKv(x.k), <<>>)
    [] x.n = "refcount" -> Leaf(KvHash(x.k, Ref(x)), CValue(x.v) + CCombine + CKv(x.k), <<x.c>>)
Is(r, h, calls) == r.st = "ok" /\ r.v.hash = h /\ r.v.calls = calls /\ r.v.rest = 0
Step(r) ==
  CASE r.e = "value" -> Is(r, ValueHash(r.v0), CValue(r.v0))
    [] r.e = "kv" -> Is(r, KvHash(r.k, ValueHash(r.v0)), CValue(r.v0) + CKv(r.k))
    [] r.e = "digest" -> Is(r, KvHash(r.k, r.h), CKv(r.k))
    [] r.e = "node" -> Is(r, NodeHash(r.h[1], r.h[2], r.h[3]), CNode)
    [] r.e = "count" -> Is(r, NodeHashCount(r.h[1], r.h[2], r.h[3], r.n), CNode)
    [] r.e = "combine" -> Is(r, Combine(r.h[1], r.h[2]), CCombine)
    [] r.e = "proofnode" -> LET w == ProofNode(r.x) IN Is(r, w[1], w[2])
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
