---------------------------- MODULE GroveProveMC ----------------------------
(* On the hierarchies and queries of GroveQueryMC: a proof shows what the    *)
(* query answers, in its order; with a limit, a beginning of that no longer  *)
(* than the limit.                                                           *)
EXTENDS GroveQueryMC, GroveProve
At1(q, path, lim) == [path |-> path, q |-> q, limit |-> lim, offset |-> <<>>]
Paths1 == {<<>>, <<"01">>}
Faithful(U, q) ==
  \A path \in Paths1 : path \in DOMAIN U =>
    LET all == Ask(U, At1(q, path, <<>>), O(FALSE, FALSE)) a == Proved(U, At1(q, path, <<>>)) IN
    /\ a.st = "ok"
    /\ (all.st = "ok" => RowsOf(a) = RowsOf(all))
    /\ \A lim \in {<<1>>, <<2>>, <<3>>} :
         LET b == Proved(U, At1(q, path, lim)) IN
         b.st = "ok" /\ Len(b.rows) <= lim[1] /\ b.rows = SubSeq(a.rows, 1, Len(b.rows))
         \* nothing but trees without a selected element uses up a limit
         /\ (Len(b.rows) < Len(a.rows) => \/ Len(b.rows) = lim[1] \/ b.lim = <<0>>)
    \* the keys it names are answered for
    /\ LET c == At1(q, path, <<3>>) n == Named(c, Solid(Proved(U, c).rows)) IN
       n # <<>> => \A x \in n[1] : x[3] # <<>> => x[3][1] = Fill(U, x[1], x[2])
ProveRow(q, path, lim) == [o |-> "prove", pq |-> At1(q, path, lim)]
Several(qs, path) == [o |-> "provemany", pqs |-> [i \in DOMAIN qs |-> At1(qs[i], path, <<>>)]]
QS == SetToSeq(Queries)
Pairs == [i \in 1..(Len(QS) \div 5) |-> Several(<<QS[i], QS[Len(QS) + 1 - i]>>, <<>>)]
AllProofs == [i \in 1..Len(QS) |-> ProveRow(QS[i], <<>>, CASE i % 3 = 0 -> <<>> [] i % 3 = 1 -> <<1>> [] OTHER -> <<2>>)]
             \o [i \in 1..(Len(QS) \div 4) |-> ProveRow(QS[4 * i], <<"01">>, IF i % 2 = 0 THEN <<>> ELSE <<3>>)] \o Pairs
PInit == T \in Hierarchies /\ asked = FALSE
PNext == /\ ~asked /\ asked' = TRUE /\ T' = T
         /\ (T[<<>>].es # None => \A q \in Queries : Assert(Faithful(T, q), <<T, q>>))
         /\ Emit(Env("SCHED_OUT", ""), ToJson(Build(T) \o AllProofs))
PSpec == PInit /\ [][PNext]_<<T, asked>>
=============================================================================
