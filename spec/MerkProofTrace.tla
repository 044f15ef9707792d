--------------------------- MODULE MerkProofTrace ---------------------------
(* Proofs of queries over a key-value tree. An honest proof verifies to the *)
(* tree's root hash and the answer; whatever verifies to the root hash is   *)
(* the answer. A value whose node hash also covers something else (a        *)
(* subtree or a reference) is only bound through the reported value hash    *)
(* unless the child hash was verified or the resolved value is given.       *)
EXTENDS Merk, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tree, es, root
Has(r, f) == f \in DOMAIN r
Type(v) == IF v = "" THEN -1 ELSE BAt(v, 0)
\* x: <<key, value, reported hash, child hash verified>>
EntryOk(n, x) ==
  /\ x[1] = n.k
  /\ \/ n.sup = "" /\ x[2] = n.v /\ x[3] = VH(n)
     \/ x[3] = VH(n) /\ Type(x[2]) \notin SimpleTypes /\ (n.sup # "" => Type(x[2]) \in 0..255) /\ (x[4] => x[2] = n.v)
     \/ Combine(x[3], ValueHash(x[2])) = VH(n) /\ ~x[4]
AnswerOk(v, items, lim, left) ==
  LET a == Answer(es, items, lim, left) IN
  /\ Len(v.set) = Len(a)
  /\ \A i \in 1..Len(a) : EntryOk(a[i], v.set[i])
  /\ v.lim = LimitLeft(lim, Len(a))
HonestEntry(n, x) == \/ x = <<n.k, n.v, VH(n), FALSE>>
                     \/ x = <<n.k, n.v, VH(n), TRUE>> /\ n.sup # ""
                     \/ n.res # "" /\ x = <<n.k, n.res, ValueHash(n.v), FALSE>>
HonestOk(v, items, lim, left) ==
  LET a == Answer(es, items, lim, left) IN
  /\ v.root = root /\ Len(v.set) = Len(a) /\ v.lim = LimitLeft(lim, Len(a))
  /\ \A i \in 1..Len(a) : HonestEntry(a[i], v.set[i])
Step(r) ==
  CASE r.e = "new" ->
         /\ tree' = r.tree /\ es' = TEntries(r.tree) /\ root' = r.root
         /\ r.root = THash(r.counted, r.tree) /\ TBalanced(r.tree) /\ TOrdered(r.tree)
    [] r.e = "honest" ->
         /\ UNCHANGED <<tree, es, root>>
         /\ r.st = "ok" /\ HonestOk(r.v, r.items, r.lim, r.left)
    \* a proof of any provenance
    [] r.e = "forged" ->
         /\ UNCHANGED <<tree, es, root>>
         /\ r.st \in {"ok", "err"}
         /\ (r.st = "ok" /\ r.v.root = root) => AnswerOk(r.v, r.items, r.lim, r.left)
    \* keys reported as proven to exist by boundary nodes of an honest proof
    [] r.e = "bounds" ->
         /\ UNCHANGED <<tree, es, root>>
         /\ r.st = "ok" /\ r.v.keys = r.keys /\ \A i \in 1..Len(r.probe) : r.v.exists[i] = (\E j \in 1..Len(r.keys) : r.keys[j] = r.probe[i])
    [] OTHER -> FALSE
Init == l = 1 /\ tree = <<>> /\ es = <<>> /\ root = ""
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, tree, es, root>>
=============================================================================
