--------------------------- MODULE MmrProofTrace ---------------------------
(* Proofs of MMR leaves. Rows carry the leaf values of the MMR they are     *)
(* about; honest proofs must verify to the truth, and whatever proof of the *)
(* true size verifies against the true root must tell the truth.            *)
EXTENDS Mmr, Json, TLC, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, root
Has(r, f) == f \in DOMAIN r
NoDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
\* a claim is <<index, value>>
TrueClaim(c) == c[1] < Len(cur) /\ c[1] >= 0 /\ cur[c[1] + 1] = c[2]
TrueClaims(v) == /\ \A i \in 1..Len(v) : TrueClaim(v[i])
                 /\ NoDup([i \in 1..Len(v) |-> v[i][1]])
Honest(ix) == [i \in 1..Len(ix) |-> <<ix[i], cur[ix[i] + 1]>>]
Step(r) ==
  CASE r.e = "new" -> cur' = r.leaves /\ stored' = <<>> /\ r.root = MRoot(r.leaves) /\ root' = r.root
                      /\ r.size = MSize(Len(r.leaves))
    [] r.e = "gen" ->
       /\ UNCHANGED <<mvars, root>>
       /\ IF r.ix # <<>> /\ NoDup(r.ix) /\ \A i \in 1..Len(r.ix) : r.ix[i] < Len(cur)
          THEN /\ r.st = "ok"
               /\ r.v.size = MSize(Len(cur)) /\ r.v.leaves = Honest(r.ix)
               /\ r.v.verified = Honest(r.ix)
               /\ r.v.root = root /\ r.v.verified2 = Honest(r.ix)
               /\ r.v.coded = Honest(r.ix)       \* after encoding and decoding the proof
          ELSE r.st = "err"
    \* a proof of any provenance with the true size, checked against the true root
    [] r.e = "forged" ->
       /\ UNCHANGED <<mvars, root>>
       /\ r.st \in {"ok", "err"}
       /\ r.st = "ok" => TrueClaims(r.v)
       /\ Has(r, "must") => r.st = r.must
    \* the generic proof: claims are <<leaf position index, value>>, outcome of verify(root, leaves)
    [] r.e = "generic" ->
       /\ UNCHANGED <<mvars, root>>
       /\ r.st \in {"ok", "err"}
       /\ (r.st = "ok" /\ r.v) => \A i \in 1..Len(r.claims) : TrueClaim(r.claims[i])
       /\ Has(r, "must") => (r.st = "ok" /\ r.v) = r.must
    \* old root, appended leaves, new root
    [] r.e = "incr" ->
       /\ UNCHANGED <<mvars, root>>
       /\ r.st \in {"ok", "err"}
       /\ (r.st = "ok" /\ r.v) => /\ r.prev + Len(r.added) = Len(cur)
                                  /\ r.prevroot = MRoot(SubSeq(cur, 1, r.prev))
                                  /\ r.added = SubSeq(cur, r.prev + 1, Len(cur))
       /\ Has(r, "must") => (r.st = "ok" /\ r.v) = r.must
    \* root after one more leaf, from a proof of the last leaf
    [] r.e = "next" ->
       /\ UNCHANGED <<mvars, root>>
       /\ r.st = "ok" /\ r.v = MRoot(Append(cur, r.val))
    [] r.e = "bytes" -> UNCHANGED <<mvars, root>> /\ r.st \in {"ok", "err"}
    [] OTHER -> FALSE
Init == l = 1 /\ MInit /\ root = ""
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, root, mvars>>
=============================================================================
