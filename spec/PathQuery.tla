----------------------------- MODULE PathQuery -----------------------------
(* What of a query applies where. A path query is [path, q, limit, offset]  *)
(* (limit/offset: sequences of 0/1 numbers).                                *)
EXTENDS Query, FiniteSets
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* what applies in a tree: nothing; a query; or the next key k of a path,
\* below which the query goes on (on) or which is itself the answer
ANone == [st |-> "none"]
AQuery(q) == [st |-> "query", q |-> q]
APath(k, on) == [st |-> "path", k |-> k, on |-> on]
RECURSIVE At(_, _)
At(q, p) ==
  IF p = <<>> THEN AQuery(q) ELSE
  LET b == Branch(q, p[1]) s == BPath(b) n == Len(s) rest == Tail(p) IN
  IF Len(rest) < n
  THEN IF Prefix(rest, s) THEN APath(s[Len(rest) + 1], Len(rest) + 1 < n \/ b.sub # <<>>) ELSE ANone
  ELSE IF ~Prefix(s, rest) \/ b.sub = <<>> THEN ANone ELSE At(b.sub[1], Seg(rest, n + 1))
PQAt(pq, p) ==
  IF Len(p) < Len(pq.path)
  THEN IF Prefix(p, pq.path) THEN APath(pq.path[Len(p) + 1], TRUE) ELSE ANone
  ELSE IF Prefix(pq.path, p) THEN At(pq.q, Seg(p, Len(pq.path) + 1)) ELSE ANone
\* the keys on the way are ones the query selects
RECURSIVE Follows(_, _)
Follows(q, p) ==
  p # <<>> =>
    LET b == Branch(q, p[1]) n == Len(BPath(b)) IN
    /\ QAnyIn(q.items, p[1])
    /\ (Len(p) > n + 1 /\ b.sub # <<>>) => Follows(b.sub[1], Seg(p, n + 2))
PQFollows(pq, p) == Len(p) > Len(pq.path) => Follows(pq.q, Seg(p, Len(pq.path) + 1))
\* whether the query goes on below key k where a applies
GoesOn(a, k) == IF a.st = "query" THEN ~Bare(Branch(a.q, k)) ELSE a.k = k /\ a.on
ParentAt(pq, p) == LET a == PQAt(pq, p) IN a.st = "query" /\ a.q.par

(* The keys a bounded query names: a set of <<path, key>>, or an error.     *)
MaxTermDepth == 64
SetOf(s) == {s[n] : n \in 1..Len(s)}
RECURSIVE Cat2(_)
Cat2(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat2(Tail(ss))
Bad == [ok |-> FALSE, v |-> <<>>]
RECURSIVE Terminal(_, _, _)
Terminal(q, cur, d) ==
  IF d >= MaxTermDepth \/ (\E n \in 1..Len(q.items) : ~QKeys(q.items[n]).ok)
     \/ (\E n \in 1..Len(q.cond) : ~QKeys(q.cond[n][1]).ok) THEN Bad
  ELSE
  LET named == Cat2([n \in 1..Len(q.items) |-> QKeys(q.items[n]).v])
      \* a conditional names keys too, of which the query selects some
      more == BSetToSeq({k \in UNION {SetOf(QKeys(q.cond[n][1]).v) : n \in 1..Len(q.cond)} :
                          QAnyIn(q.items, k) /\ k \notin SetOf(named)})
      ks == named \o more
      of(k) == LET b == Branch(q, k) s == <<k>> \o BPath(b) IN
               IF b.sub # <<>> THEN Terminal(b.sub[1], cur \o s, d + 1)
               ELSE [ok |-> TRUE, v |-> << <<cur \o SubSeq(s, 1, Len(s) - 1), s[Len(s)]>> >>]
      rs == [n \in 1..Len(ks) |-> of(ks[n])]
  IN IF \E n \in 1..Len(rs) : ~rs[n].ok THEN Bad
     ELSE [ok |-> TRUE, v |-> Cat2([n \in 1..Len(rs) |-> rs[n].v])]
TerminalOk(pq, max, ok, v) ==
  LET t == Terminal(pq.q, pq.path, 0)
      fits == t.ok /\ Len(t.v) <= max
  IN ok = fits /\ (ok => Len(v) = Len(t.v) /\ SetOf(v) = SetOf(t.v))

MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF s = <<>> THEN 0 ELSE MaxI(s[1], MaxSeq(Tail(s)))
RECURSIVE Depth(_)
BDepth(b) == Len(BPath(b)) + (IF b.sub = <<>> THEN 0 ELSE Depth(b.sub[1]))
Depth(q) == 1 + MaxI(BDepth(q.def), MaxSeq([n \in 1..Len(q.cond) |-> BDepth(q.cond[n][2])]))

\* a path query as a query from the root
AsQuery(pq) ==
  IF pq.path = <<>> THEN pq.q
  ELSE [items |-> <<[t |-> "key", a |-> pq.path[1], b |-> ""]>>, cond |-> <<>>, left |-> TRUE, par |-> FALSE,
        def |-> [path |-> IF Len(pq.path) > 1 THEN <<Tail(pq.path)>> ELSE <<>>, sub |-> <<pq.q>>]]
\* queries qs merged into m, looked at along path p
MergeOk(qs, m, p) ==
  LET sel == \E i \in 1..Len(qs) : Sel(qs[i], p)
      into == \E i \in 1..Len(qs) : Into(qs[i], p)
  IN /\ (sel /\ ~into) => Sel(m, p)
     /\ Sel(m, p) => sel
     /\ Into(m, p) = into
=============================================================================
