-------------------------- MODULE QueryMergeTrace --------------------------
EXTENDS PathQuery, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Is(r) == r.st = "ok"
QFullItem == [t |-> "full", a |-> "", b |-> ""]
QKeyItem(k) == [t |-> "key", a |-> k, b |-> ""]
(* Aggregate sum queries: [items, left, sum (decimal), lim: seq of 0/1]     *)
SumAll(qs) == ISum([n \in 1..Len(qs) |-> qs[n].sum])
RECURSIVE LimAll(_)   \* of the limits there are
LimAll(qs) == IF qs = <<>> THEN 0 ELSE (IF qs[1].lim = <<>> THEN 0 ELSE qs[1].lim[1]) + LimAll(Tail(qs))
ItemsAll(qs) == Cat2([n \in 1..Len(qs) |-> qs[n].items])
AggOk(qs, st, v) ==
  LET oneway == \A n \in 1..Len(qs) : qs[n].left = qs[1].left
      haslim == \A n \in 1..Len(qs) : qs[n].lim # <<>>
      fits == /\ oneway
              /\ ILeq(SumAll(qs), "18446744073709551615")
              /\ haslim => LimAll(qs) <= 65535
  IN IF st = "ok"
     THEN /\ fits
          /\ SameUnion(v.items, ItemsAll(qs)) /\ (Len(qs) > 1 => QSorted(v.items) /\ QDisjoint(v.items))
          /\ v.sum = SumAll(qs) /\ v.left = qs[1].left
          /\ v.lim = IF haslim THEN <<LimAll(qs)>> ELSE <<>>
     \* two limits may overflow before a query without one is met
     ELSE st = "err" /\ (~fits \/ (Len(qs) > 2 /\ LimAll(qs) > 65535))
ParAt(q, p) == Into(q, p) /\ (LET a == At(q, p) IN a.st = "query" /\ a.q.par)
ParMerged(qs, m, p) == ParAt(m, p) = (\E i \in 1..Len(qs) : ParAt(qs[i], p))
\* a branch as the query that selects every key with it
All(b) == [items |-> <<QFullItem>>, def |-> b, cond |-> <<>>, left |-> TRUE, par |-> FALSE]
CondOk(r, p) ==
  LET old == FirstCond(r.cond, p[1])
      new == FirstCond(r.v, p[1])
      in == QIn(r.item, p[1]) /\ (r.how = 0 \/ ~Bare(r.br))
      qs == [n \in 1..Len(old) |-> All(old[n])] \o (IF in THEN <<All(r.br)>> ELSE <<>>)
  IN IF qs = <<>> THEN new = <<>> ELSE new # <<>> /\ MergeOk(qs, All(new[1]), p)
NoBranch == [path |-> <<>>, sub |-> <<>>]
MkQ(items, left, def) == [items |-> items, def |-> def, cond |-> <<>>, hascond |-> FALSE, left |-> left, par |-> FALSE]
MkA(items, left, r, lim) == [items |-> items, left |-> left, sum |-> r.sum, lim |-> lim]
Rev(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
CtorOk(r, v) ==
  LET full == <<QFullItem>>  kk == <<QKeyItem(r.k)>>  ks == [n \in 1..Len(r.keys) |-> QKeyItem(r.keys[n])]
      dir == IF r.left THEN r.items ELSE Rev(r.items)
      path == <<r.keys>>
  IN /\ v.q = << MkQ(<<>>, TRUE, NoBranch), MkQ(full, TRUE, NoBranch), MkQ(kk, TRUE, NoBranch), MkQ(<<r.item>>, TRUE, NoBranch),
                 MkQ(<<>>, r.left, NoBranch), MkQ(<<r.item>>, r.left, NoBranch), MkQ(r.items, TRUE, NoBranch), MkQ(ks, TRUE, NoBranch),
                 MkQ(r.items, r.left, [path |-> << <<r.k>> >>, sub |-> <<>>]),
                 MkQ(r.items, r.left, [path |-> path, sub |-> <<>>]),
                 MkQ(r.items, r.left, [path |-> path, sub |-> <<r.sub>>]),
                 [MkQ(r.items, r.left, NoBranch) EXCEPT !.hascond = TRUE,
                    !.cond = IF r.item = QKeyItem(r.k) THEN << <<r.item, NoBranch>> >>
                             ELSE << <<r.item, [path |-> path, sub |-> <<r.sub>>]>>, <<QKeyItem(r.k), NoBranch>> >>] >>
     /\ v.len = Len(r.items) /\ v.empty = (r.items = <<>>)
     /\ v.it = <<r.items, Rev(r.items), dir, r.items, r.items>>
     /\ QSorted(v.ins) /\ QDisjoint(v.ins) /\ SameUnion(v.ins, ks)
ActorOk(r, v) ==
  LET full == <<QFullItem>>  kk == <<QKeyItem(r.k)>>  ks == [n \in 1..Len(r.keys) |-> QKeyItem(r.keys[n])]
      dir == IF r.left THEN r.items ELSE Rev(r.items)
  IN /\ v.it = <<r.items, Rev(r.items), dir>>
     /\ v.keys = (\A n \in 1..Len(r.items) : r.items[n].t = "key")
     /\ QSorted(v.ins) /\ QDisjoint(v.ins) /\ SameUnion(v.ins, ks)
     /\ v.agg = << MkA(full, TRUE, r, r.lim), MkA(full, FALSE, r, r.lim), MkA(full, TRUE, r, r.lim), MkA(full, FALSE, r, r.lim),
                   MkA(kk, TRUE, r, <<1>>), MkA(<<r.item>>, TRUE, r, r.lim), MkA(r.items, TRUE, r, r.lim), MkA(ks, TRUE, r, r.lim),
                   MkA(ks, FALSE, r, r.lim), MkA(<<r.item>>, r.left, r, r.lim) >>
(* No layer of a merge of queries that all go upwards goes downwards         *)
RECURSIVE Upward(_)
UpBranch(b) == b.sub = <<>> \/ Upward(b.sub[1])
Upward(q) == q.left /\ UpBranch(q.def) /\ \A n \in 1..Len(q.cond) : UpBranch(q.cond[n][2])
Directed(qs, m) == (\A n \in 1..Len(qs) : Upward(qs[n])) => Upward(m)
Step(r) ==
  CASE r.e = "condmerge" -> Is(r) /\ \A n \in 1..Len(r.probes) : CondOk(r, r.probes[n])
    [] r.e = "defmerge" -> \* at the same subquery path
         /\ Is(r) /\ [r.v EXCEPT !.def = r.q.def] = r.q
         /\ \A n \in 1..Len(r.probes) : MergeOk(<<All(r.q.def), All(r.br)>>, All(r.v.def), r.probes[n])
    [] r.e = "ctor" -> Is(r) /\ CtorOk(r, r.v)
    [] r.e = "actor" -> Is(r) /\ ActorOk(r, r.v)
    [] r.e = "pqactor" -> /\ Is(r) /\ r.v = <<[path |-> r.path, q |-> MkA(<<QKeyItem(r.k)>>, TRUE, r, <<1>>)],
                                              [path |-> r.path, q |-> MkA(<<r.item>>, TRUE, r, r.lim)],
                                              [path |-> r.path, q |-> MkA(<<r.item>>, FALSE, r, r.lim)]>>
    [] r.e = "insert" ->
         /\ Is(r)
         /\ QSorted(r.v) /\ QDisjoint(r.v)
         /\ SameUnion(r.v, r.items)
    [] r.e = "merge" -> /\ Is(r) /\ \A n \in 1..Len(r.probes) : MergeOk(r.qs, r.v, r.probes[n]) /\ ParMerged(r.qs, r.v, r.probes[n])
                        /\ r.v.par = (\E n \in 1..Len(r.qs) : r.qs[n].par)
                        /\ Directed(r.qs, r.v)
    [] r.e = "pqmerge" ->
         LET n == Len(r.pqs)
             sized == \E i \in 1..n : r.pqs[i].limit # <<>> \/ r.pqs[i].offset # <<>>
         IN IF n = 0 THEN r.st = "err"
            ELSE IF n = 1 THEN Is(r) /\ r.v = r.pqs[1]
            ELSE IF sized THEN r.st = "err"
            ELSE /\ Is(r) /\ r.v.limit = <<>> /\ r.v.offset = <<>>
                 /\ LET qs == [i \in 1..n |-> AsQuery(r.pqs[i])] m == AsQuery(r.v)
                    IN Directed(qs, m) /\ \A k \in 1..Len(r.probes) : MergeOk(qs, m, r.probes[k])
    [] r.e = "agg" -> AggOk(r.qs, r.st, r.v)
    [] r.e = "aggwith" -> AggOk(r.qs, r.st, r.v) /\ (r.st = "err" => r.after = r.qs[1])
    [] r.e = "aggpq" ->
         IF r.qs = <<>> \/ \E n \in 1..Len(r.paths) : r.paths[n] # r.paths[1] THEN r.st = "err"
         ELSE IF Len(r.qs) = 1 THEN Is(r) /\ r.v = r.qs[1] /\ r.path = r.paths[1]
         ELSE AggOk(r.qs, r.st, r.v) /\ (Is(r) => r.path = r.paths[1])
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
