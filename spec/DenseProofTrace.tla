-------------------------- MODULE DenseProofTrace --------------------------
EXTENDS Dense, Json, TLC, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, root
Has(r, f) == f \in DOMAIN r
Keys(c) == [i \in 1..Len(c) |-> c[i][1]]
NoDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
Range(s) == {s[i] : i \in 1..Len(s)}
True1(c) == c[1] < Len(vals) /\ c[1] >= 0 /\ vals[c[1] + 1] = c[2]
TrueClaims(v) == (\A i \in 1..Len(v) : True1(v[i])) /\ NoDup(Keys(v))
\* the truth about a set of positions, as a set of claims
Truth(S) == {<<p, vals[p + 1]>> : p \in S}
Step(r) ==
  /\ r.e # "new" => UNCHANGED <<dvars, root>>
  /\ CASE r.e = "new" ->
            /\ vals' = r.vals /\ height' = r.h /\ root' = r.root /\ r.root = DRoot(r.vals, r.h)
       [] r.e = "gen" ->
            IF \A i \in 1..Len(r.pos) : r.pos[i] < Len(vals)
            THEN /\ r.st = "ok"
                 /\ LET P == Truth(Range(r.pos)) IN
                    /\ Range(r.v.entries) = P /\ NoDup(Keys(r.v.entries))
                    \* an empty tree's proof has nothing to verify; every other one verifies
                    /\ r.v.verified = r.v.entries /\ r.v.coded = r.v.entries
                    /\ r.v.root = root
            ELSE r.st = "err"
       [] r.e = "query" ->
            IF DQueryOk(r.items) /\ ~r.sub
            THEN /\ r.st = "ok"
                 /\ Range(r.v.verified) = Truth(DSelected(r.items, Len(vals))) /\ NoDup(Keys(r.v.verified))
                 /\ r.v.root = root
            ELSE r.st = "err"
       \* any proof, checked against the true root (and, if present, a query)
       [] r.e = "forged" ->
            /\ r.st \in {"ok", "err"}
            /\ r.st = "ok" => TrueClaims(r.v)
            /\ (r.st = "ok" /\ Has(r, "items")) =>
                 DQueryOk(r.items) /\ Range(r.v) = Truth(DSelected(r.items, Len(vals)))
            /\ Has(r, "must") => r.st = r.must
       [] r.e = "bytes" -> r.st \in {"ok", "err"}
       [] OTHER -> FALSE
Init == l = 1 /\ DInit /\ root = ""
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, root, dvars>>
=============================================================================
