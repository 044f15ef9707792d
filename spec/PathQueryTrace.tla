--------------------------- MODULE PathQueryTrace ---------------------------
EXTENDS PathQuery, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Is(r) == r.st = "ok"
AtOk(r, x) ==
  LET a == PQAt(r.pq, x.p) v == x.v IN
  IF v.none THEN a.st = "none" \/ ~PQFollows(r.pq, x.p)
  ELSE /\ a.st # "none"
       /\ v.items = (IF a.st = "query" THEN a.q.items ELSE <<[t |-> "key", a |-> a.k, b |-> ""]>>)
       /\ v.left = (IF a.st = "query" THEN a.q.left ELSE TRUE)
       /\ \A n \in 1..Len(v.on) : v.on[n] = GoesOn(a, r.keys[n])
HasSub(q, k) == q.def.sub # <<>> \/ LET c == FirstCond(q.cond, k) IN c # <<>> /\ c[1].sub # <<>>
HasAny(q, k) == ~Bare(q.def) \/ FirstCond(q.cond, k) # <<>>
Step(r) ==
  CASE r.e = "at" ->
         Is(r) /\ \A n \in 1..Len(r.v) : AtOk(r, r.v[n]) /\ r.v[n].par = ParentAt(r.pq, r.v[n].p)
    [] r.e = "terminal" -> r.st \in {"ok", "err"} /\ TerminalOk(r.pq, r.max, r.st = "ok", r.v)
    [] r.e = "deep" -> \* n subqueries nested in one another
         r.st = (IF r.n < MaxTermDepth THEN "ok" ELSE "err")
    \* a branch with a path before n nested queries, by itself or below a query;
    \* up to 255 levels of subqueries are followed
    [] r.e = "deepmax" -> LET d == r.path + r.n + (IF r.branch THEN 0 ELSE 1) deep == r.n + 1 IN
         IF deep <= 255 /\ d <= 65535 THEN Is(r) /\ r.v = d ELSE r.st = "err"
    [] r.e = "pctor" -> LET Q1(is) == [items |-> is, left |-> TRUE, cond |-> <<>>, def |-> [path |-> <<>>, sub |-> <<>>], hascond |-> FALSE, par |-> FALSE]
                            PQ(q, lim, off) == [path |-> r.path, q |-> q, limit |-> lim, offset |-> off]
                            kk == Q1(<<[t |-> "key", a |-> r.k, b |-> ""]>>) ii == Q1(<<r.item>>) IN
         /\ Is(r) /\ r.v = <<PQ(kk, <<>>, <<>>), PQ(ii, <<>>, <<>>), PQ(r.q, <<>>, <<>>), PQ(r.q, <<7>>, <<9>>), PQ(kk, <<>>, <<>>), PQ(ii, <<>>, <<>>)>>
    [] r.e = "depth" -> Is(r) /\ r.v = Depth(r.q)
    [] r.e = "hassub" ->
         /\ Is(r) /\ r.only = (\A n \in 1..Len(r.q.items) : r.q.items[n].t = "key")
         /\ r.any = (~Bare(r.q.def) \/ r.q.hascond)
         /\ \A n \in 1..Len(r.v) : r.v[n] = <<HasSub(r.q, r.keys[n]), HasAny(r.q, r.keys[n]), TRUE, TRUE>>
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
