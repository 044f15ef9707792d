----------------------------- MODULE PathTrace ------------------------------
EXTENDS Path, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pool
\* what is observed of the path with segments s
Looks(v, s) == /\ v.vec = s /\ v.rev = Rev(s) /\ v.len = Len(s)
               /\ v.root = (s = <<>>) /\ v.empty = (s = <<>>)
\* m: matrix of comparisons of the pool; an order that is total and agrees with equality
Total(m, p) == LET n == Len(p) IN
  \A i, j \in 1..n : /\ m[i][j].eq = (p[i] = p[j])
                     /\ m[i][j].same_hash = (p[i] = p[j])
                     /\ (m[i][j].cmp = 0) = (p[i] = p[j])
                     /\ m[i][j].cmp = 0 - m[j][i].cmp
                     /\ \A k \in 1..n : (m[i][j].cmp <= 0 /\ m[j][k].cmp <= 0) => m[i][k].cmp <= 0
Step(r) ==
  CASE r.e = "new" -> pool' = <<>>
    [] r.e = "op" -> /\ r.st = "ok"
                     /\ LET b == Built(pool, r) IN
                        IF b = <<>> THEN r.v.none /\ pool' = pool
                        ELSE /\ ~r.v.none
                             /\ Looks(r.v.path, b[1]) /\ r.v.chopped = Chopped(pool, r)
                             /\ pool' = Append(pool, b[1])
    [] r.e = "matrix" -> r.st = "ok" /\ Len(r.v) = Len(pool) /\ Total(r.v, pool) /\ UNCHANGED pool
    [] OTHER -> FALSE
Init == l = 1 /\ pool = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, pool>>
=============================================================================
