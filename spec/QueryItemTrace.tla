--------------------------- MODULE QueryItemTrace ---------------------------
EXTENDS QueryItem, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Wf(i) == ~QEmpty(i)
OneTo(n) == 1..n
Bools(ks, P(_)) == [n \in OneTo(Len(ks)) |-> P(ks[n])]
\* processing keys of a tree top down: what is asked on one side of a key
OnBound(items, k) == \E n \in OneTo(Len(items)) : LET i == items[n] IN
    i.t # "key" /\ ((HasLow(i) /\ LowOpen(i) /\ i.a = k) \/ (HasHigh(i) /\ HighOpen(i) /\ i.b = k))
StartsBefore(i, k) == i.t \in {"full", "to", "toinc"} \/ BLess(i.a, k)
EndsBehind(i, k) == CASE i.t \in {"full", "from", "after"} -> TRUE
                      [] i.t = "key" -> BLess(k, i.a)
                      [] OTHER -> BLess(k, i.b)
Step(r) ==
  CASE r.e = "item" ->
         LET i == r.i IN
         /\ r.st = "ok"
         /\ r.v.contains = Bools(r.keys, LAMBDA k : QIn(i, k))
         /\ r.v.eq = Bools(r.keys, LAMBDA k : QCmp(i, [t |-> "key", a |-> k, b |-> ""]) = 0)
         /\ r.v.lowunb = ~HasLow(i) /\ r.v.highunb = ~HasHigh(i)
         /\ r.v.low = (IF HasLow(i) THEN <<i.a>> ELSE <<>>) /\ r.v.high = (IF HasHigh(i) THEN <<High(i)>> ELSE <<>>)
         /\ r.v.lowopen = LowOpen(i) /\ r.v.highinc = ~HighOpen(i)
         /\ r.v.single = (i.t = "key") /\ r.v.range = (i.t # "key")
         /\ r.v.unb = (i.t \notin {"key", "range", "rangeinc"})
         /\ LET q == QKeys(i) IN
              /\ r.v.keys.st = (IF q.ok THEN "ok" ELSE "err")
              /\ r.v.keys2.st = r.v.keys.st
              /\ q.ok => r.v.keys.v = q.v /\ r.v.keys2.v = q.v
    [] r.e = "pair" ->
         LET i == r.i j == r.j IN
         /\ r.st = "ok"
         /\ r.v.cmp = QCmp(i, j)
         /\ (Wf(i) /\ Wf(j)) =>
              /\ QOverlap(i, j) => r.v.collides
              /\ r.v.collides => QTouch(i, j)
              /\ r.v.collides = (r.v.both # <<>>)
              /\ \A k \in Cuts(<<i, j>> \o r.v.both \o r.v.ol \o r.v.or \o r.v.tl \o r.v.tr) :
                   /\ QAnyIn(r.v.both, k) = (QIn(i, k) /\ QIn(j, k))
                   /\ QAnyIn(r.v.ol \o r.v.or, k) = (QIn(i, k) /\ ~QIn(j, k))
                   /\ QAnyIn(r.v.tl \o r.v.tr, k) = (QIn(j, k) /\ ~QIn(i, k))
                   \* left parts lie left of the other item, right parts right of it
                   /\ QAnyIn(r.v.ol, k) => ~(\E k2 \in Cuts(<<i, j>>) : QIn(j, k2) /\ BLess(k2, k))
                   /\ QAnyIn(r.v.or, k) => ~(\E k2 \in Cuts(<<i, j>>) : QIn(j, k2) /\ BLess(k, k2))
                   /\ QAnyIn(r.v.tl, k) => ~(\E k2 \in Cuts(<<i, j>>) : QIn(i, k2) /\ BLess(k2, k))
                   /\ QAnyIn(r.v.tr, k) => ~(\E k2 \in Cuts(<<i, j>>) : QIn(i, k2) /\ BLess(k, k2))
              /\ QTouch(i, j) => /\ r.v.merge # <<>> /\ r.v.massign = r.v.merge
                                 /\ SameUnion(r.v.merge, <<i, j>>)
    \* a list of disjoint ordered items against another
    [] r.e = "many" ->
         /\ r.st = "ok"
         /\ \A k \in Cuts(r.xs \o r.ys \o r.v.both \o r.v.ours) :
              /\ QAnyIn(r.v.both, k) = (QAnyIn(r.xs, k) /\ QAnyIn(r.ys, k))
              /\ QAnyIn(r.v.ours, k) = (QAnyIn(r.xs, k) /\ ~QAnyIn(r.ys, k))
    \* walking a store in either direction
    [] r.e = "iter" ->
         /\ r.st = "ok"
         /\ LET f == QFilter(r.i, r.keys) g == IF r.left THEN f ELSE RevSeq(f) IN
            r.v = IF Wf(r.i) /\ r.limit < Len(g) THEN SubSeq(g, 1, r.limit) ELSE IF Wf(r.i) THEN g ELSE r.v
    \* descending through the keys of a tree
    [] r.e = "split" ->
         /\ r.st = "ok"
         /\ \A n \in OneTo(Len(r.v)) : LET s == r.v[n] IN
              /\ s.found = QAnyIn(r.items, s.key)
              /\ ~s.found => s.bound = OnBound(r.items, s.key)
              \* a side is only declared empty of interest when no item reaches into it
              /\ s.noleft => \A k \in Cuts(r.items) \cup {Cat(<<s.lo[n2], "00">>) : n2 \in OneTo(Len(s.lo))} : (BLess(k, s.key) /\ QAnyIn(r.items, k)) => (s.lo # <<>> /\ BLeq(k, s.lo[1]))
              /\ s.noright => \A k \in Cuts(r.items) \cup {Cat(<<s.key, "00">>)} :
                      (BLess(s.key, k) /\ QAnyIn(r.items, k)) => (s.hi # <<>> /\ BLeq(s.hi[1], k))
              \* and it is when none has a bound beyond the key
              /\ ~s.noleft => \E n2 \in OneTo(Len(r.items)) : StartsBefore(r.items[n2], s.key)
              /\ ~s.noright => \E n2 \in OneTo(Len(r.items)) : EndsBehind(r.items[n2], s.key)
    [] r.e = "cmpbytes" -> r.st = "ok" /\ r.v = SgnB(r.a, r.b)
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
