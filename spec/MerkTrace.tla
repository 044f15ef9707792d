------------------------------ MODULE MerkTrace ------------------------------
(* A recording of a key-value tree over the storage layer: the state is the *)
(* map it must hold (now, and as last committed) and the last root known.   *)
EXTENDS Store, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kind, m, shape
vars == <<l, kind, m, shape>>
NoMap == [x \in {} |-> 0]
Dels == {"del", "dels", "dell", "dellm"}
BadOrder(ops) == \E i \in 1..(Len(ops) - 1) : ~BLess(ops[i].k, ops[i + 1].k)
RECURSIVE Apply(_, _)
Apply(mm, ops) ==
  IF ops = <<>> THEN mm
  ELSE LET x == ops[1]
           nx == IF x.op \in Dels THEN [k \in DOMAIN mm \ {x.k} |-> mm[k]]
                 ELSE [k \in DOMAIN mm \cup {x.k} |-> IF k = x.k THEN [v |-> x.v, sup |-> x.sup, f |-> x.f] ELSE mm[k]]
       IN Apply(nx, Tail(ops))
VHash(x) == IF x.sup = "" THEN ValueHash(x.v) ELSE Combine(ValueHash(x.v), x.sup)
RECURSIVE Total(_, _)
Total(mm, ks) == IF ks = {} THEN NoAgg ELSE LET k == CHOOSE k \in ks : TRUE IN Add(Total(mm, ks \ {k}), mm[k].f)
\* a partial sum may leave the range only if the values can get there
RECURSIVE Reach(_, _, _)
Reach(mm, ks, neg) == IF ks = {} THEN [n |-> "0", s |-> "0"]
  ELSE LET k == CHOOSE k \in ks : TRUE r == Reach(mm, ks \ {k}, neg) IN
       [n |-> IAdd(r.n, mm[k].f.n), s |-> IF ILess(mm[k].f.s, "0") = neg THEN IAdd(r.s, mm[k].f.s) ELSE r.s]
CanOverflow(a, b) ==
  LET U == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
      t == Feature(kind, "0", "0").t
      hi == Reach(U, DOMAIN U, FALSE) lo == Reach(U, DOMAIN U, TRUE)
  IN ~Fits([t |-> t, n |-> hi.n, s |-> hi.s]) \/ ~Fits([t |-> t, n |-> "0", s |-> lo.s])
\* the stored tree holds exactly mm, well formed, with the shape the code reports
StoredOk(s, mm, sh) ==
  LET N == ByKey(s.nodes) R1 == Look(N, sh.rk, kind, 40) IN
  /\ R1.ok /\ Sorted(R1.ks) /\ Len(R1.ks) = Len(s.nodes) /\ DOMAIN N = DOMAIN mm
  /\ \A k \in DOMAIN mm : N[k].v = mm[k].v /\ N[k].vh = VHash(mm[k]) /\ N[k].f = mm[k].f
  /\ sh.root = R1.hash /\ sh.h = R1.h /\ sh.agg = R1.agg
  /\ s.rk = (IF s.base THEN sh.rk ELSE <<>>) /\ s.other = 0 /\ s.bad = 0
ShapeOk(mm, sh) == /\ sh.agg = Total(mm, DOMAIN mm) /\ (sh.rk = <<>>) = (DOMAIN mm = {}) /\ (DOMAIN mm = {} => sh.root = NullHash)
                   /\ \A i \in DOMAIN sh.rk : sh.rk[i] \in DOMAIN mm
One(x) == <<x>>
ReadOk(q, mm) ==
  IF q.k \in DOMAIN mm
  THEN LET x == mm[q.k] IN /\ q.v = <<x.v>> /\ q.vh = <<VHash(x)>> /\ q.kv = <<KvHash(q.k, VHash(x))>> /\ q.f = <<x.f>>
                           /\ q.both = <<<<x.v, VHash(x)>>>> /\ Len(q.nh) = 1 /\ q.ex = <<TRUE, TRUE>>
  ELSE q.v = <<>> /\ q.vh = <<>> /\ q.kv = <<>> /\ q.f = <<>> /\ q.both = <<>> /\ q.nh = <<>> /\ q.ex = <<FALSE, FALSE>>
Reads(q, mm) == \A i \in DOMAIN q : ReadOk(q[i], mm)
Step(r) ==
  CASE r.e = "new" -> kind' = r.kind /\ m' = NoMap /\ shape' = [root |-> NullHash]
    [] r.e = "apply" ->
         LET next == Apply(m, r.ops) IN
         /\ UNCHANGED kind
         /\ shape' = r.shape /\ r.again = r.shape /\ r.twin = r.shape
         /\ IF r.st = "ok"
            THEN /\ ~BadOrder(r.ops) /\ Fits(Total(next, DOMAIN next))
                 /\ m' = next
            ELSE /\ r.st = "err" /\ (BadOrder(r.ops) \/ CanOverflow(m, next)) /\ ~r.lost
                 /\ m' = m /\ (m # NoMap => r.shape = shape)
         /\ ShapeOk(m', r.shape) /\ StoredOk(r.stored[1], m', r.shape) /\ Reads(r.reads, m')
    [] r.e = "end" -> /\ r.shape.root = shape.root /\ StoredOk(r.stored[1], m, r.shape) /\ r.twin = r.shape
                      /\ r.twinned = r.stored /\ UNCHANGED <<kind, m, shape>>
    [] OTHER -> FALSE
Init == l = 1 /\ kind = "tree" /\ m = NoMap /\ shape = [root |-> NullHash]
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
