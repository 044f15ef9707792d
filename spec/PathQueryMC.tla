---------------------------- MODULE PathQueryMC ----------------------------
(* Every query of a small shape, at every short path: the views of a query  *)
(* (what it selects, where it goes on, what applies where, which keys it    *)
(* names) agree with one another.                                           *)
EXTENDS PathQuery, SequencesExt, Json, TLC
CONSTANTS Conds, MaxLen
VARIABLES q
Ks == {"01", "02"}
Item(t, a, b) == [t |-> t, a |-> a, b |-> b]
Key(k) == Item("key", k, "")
ItemSeqs == {<<Key("01")>>, <<Key("01"), Key("02")>>, <<Item("rangeinc", "01", "02")>>}
CondItems == {Key("01"), Key("02"), Item("rangeinc", "01", "02")}
BareB == [path |-> <<>>, sub |-> <<>>]
Leaf(is) == [items |-> is, def |-> BareB, cond |-> <<>>, left |-> TRUE, par |-> TRUE]
LeafQs == {Leaf(is) : is \in {<<Key("01")>>, <<Key("01"), Key("02")>>}}
Branches == [path: {<<>>, << <<"01">> >>, << <<"02", "01">> >>}, sub: {<<>>} \cup {<<x>> : x \in LeafQs}]
CondPairs == CondItems \X Branches
CondSeqs == UNION {{s \in [1..n -> CondPairs] : \A i, j \in 1..n : i # j => s[i][1] # s[j][1]} : n \in 0..Conds}
Queries == [items: ItemSeqs, def: Branches, cond: CondSeqs, left: {TRUE}, par: {FALSE}]
Paths == UNION {[1..n -> Ks] : n \in 1..MaxLen}
Init == /\ q \in Queries
        /\ Emit(Env("SCHED_OUT", ""), ToJson([q |-> q, probes |-> SetToSeq(Paths)]))
Next == FALSE /\ UNCHANGED q
Spec == Init /\ [][Next]_q


Picked(a, k) == IF a.st = "query" THEN QAnyIn(a.q.items, k) ELSE a.k = k
SelIsAt == \A p \in Paths :
  LET a == At(q, Front(p)) IN
  /\ Sel(q, p) = (Follows(q, p) /\ a.st # "none" /\ Picked(a, Last(p)) /\ ~GoesOn(a, Last(p)))
  /\ Into(q, p) = (Follows(q, p) /\ a.st # "none" /\ Picked(a, Last(p)) /\ GoesOn(a, Last(p)))
  /\ Into(q, p) => At(q, p).st # "none"
TerminalIsSel ==
  LET t == Terminal(q, <<>>, 0) IN
  /\ t.ok /\ Cardinality(SetOf(t.v)) = Len(t.v)
  /\ {Append(x[1], x[2]) : x \in SetOf(t.v)} = {p \in Paths : Sel(q, p)}
  /\ \A x \in SetOf(t.v) : Len(x[1]) < MaxLen
RootedAgrees == \A pre \in {<<"01">>, <<"02", "01">>} : LET pq == [path |-> pre, q |-> q] IN
  \A p \in Paths : (PQFollows(pq, p) /\ PQAt(pq, p).st # "none") => PQAt(pq, p) = At(AsQuery(pq), p)
=============================================================================
