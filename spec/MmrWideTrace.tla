---------------------------- MODULE MmrWideTrace ----------------------------
(* Handles on and proofs of very large MMRs: n leaves d, then vs.           *)
EXTENDS MmrWide, Json, TLC, IOUtils, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, d, vs, peaks
wvars == <<l, n, d, vs, peaks, mvars>>
Total == IAdd(n, Dec(Len(vs)))
ValueAt(i) == IF ILess(i, n) THEN d ELSE vs[ToInt(ISub(i, n)) + 1]
TrueClaim(c) == ILess(c[1], Total) /\ ValueAt(c[1]) = c[2]
NoDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
Honest(ix) == [i \in 1..Len(ix) |-> <<ix[i], ValueAt(ix[i])>>]
Must(r) == "must" \in DOMAIN r => r.st = r.must
MustB(r) == "must" \in DOMAIN r => (r.st = "ok" /\ r.v) = r.must
Still == UNCHANGED <<n, d, vs, peaks>>
Step(r) ==
  CASE r.e = "new" -> n' = r.n /\ d' = r.d /\ vs' = <<>> /\ peaks' = WBase(r.n, WTab(r.d, 63)) /\ r.size = WSize(r.n)
    [] r.e = "push" ->
         /\ r.st = "ok" /\ r.v.pos = WSize(Total) /\ r.v.size = WSize(IAdd(Total, "1"))
         /\ r.v.hashes = WHashes(peaks)
         /\ vs' = Append(vs, r.val) /\ peaks' = WPush(peaks, r.val) /\ UNCHANGED <<n, d>>
    [] r.e = "root" -> r.st = "ok" /\ r.v = WRoot(peaks) /\ Still
    [] r.e = "arith" -> r.st = "ok" /\ r.v.pos = WSize(r.i) /\ r.v.size = WSize(IAdd(r.i, "1")) /\ r.v.count = IAdd(r.i, "1") /\ Still
    [] r.e = "gen" ->
         /\ Still
         /\ IF r.ix # <<>> /\ NoDup(r.ix) /\ \A i \in 1..Len(r.ix) : ILess(r.ix[i], Total)
            THEN r.st = "ok" /\ r.v.size = WSize(Total) /\ r.v.leaves = Honest(r.ix) /\ r.v.verified = Honest(r.ix)
                 /\ r.v.root = WRoot(peaks) /\ r.v.verified2 = Honest(r.ix) /\ r.v.coded = Honest(r.ix)
            ELSE r.st = "err"
    [] r.e = "forged" -> Still /\ r.st \in {"ok", "err"} /\ (r.st = "ok" => \A i \in 1..Len(r.v) : TrueClaim(r.v[i])) /\ Must(r)
    \* added leaves, checked against the roots before and after
    [] r.e = "incr" -> Still /\ r.st \in {"ok", "err"} /\ MustB(r)
    [] r.e = "next" -> Still /\ r.st = "ok" /\ r.v = WRoot(WPush(peaks, r.val))
    [] OTHER -> FALSE
Init == l = 1 /\ MInit /\ n = "0" /\ d = "" /\ vs = <<>> /\ peaks = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED mvars
Spec == Init /\ [][Next]_wvars
=============================================================================
