--------------------------- MODULE ReferenceTrace ---------------------------
EXTENDS Reference, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(r) ==
  CASE r.e = "resolve" ->
         /\ r.st = "ok"
         /\ LET w == Resolve(r.ref, r.path, r.key) IN
            /\ r.v.qualified = w /\ r.v.absolute = w
            /\ \A i \in 1..Len(r.v.builder) : r.v.builder[i] = w
            /\ r.v.nokey = ResolveNoKey(r.ref, r.path)
         /\ r.v.rootless = <<>>
         /\ LET inv == Invert(r.ref, r.path, r.key) IN
            /\ inv # <<>> => r.v.invert # <<>>
            /\ r.v.invert # <<>> => LeadsBack(r.ref, r.v.invert[1], r.path, r.key)
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
