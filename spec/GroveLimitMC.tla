---------------------------- MODULE GroveLimitMC ----------------------------
(* OneB tree of five elements built in every order (so in every shape its    *)
(* balanced tree can take), and every query of one or two items over it, in  *)
(* both directions and with small limits: a proof shows the first limit of   *)
(* the elements selected, in the direction of the query.                     *)
EXTENDS GroveQueryMC, GroveProve
CONSTANTS Stride
Ks == <<"02", "04", "06", "08", "0a">>
Bounds == {"01", "02", "04", "05", "06", "08", "0a", "0b"}
Orders == {f \in [1..5 -> 1..5] : \A i, j \in 1..5 : f[i] = f[j] => i = j}
Homes == <<"tree", "provcounttree", "sumtree", "provcountsumtree">>
Number(f) == 27 * f[1] + 9 * f[2] + 3 * f[3] + f[4]
Home(f) == Homes[1 + (Number(f) % 4)]
\* what the elements are: those of a tree beside items have other proof nodes
Kind(f, i) == IF i = f[5] THEN Blank("tree") ELSE IF i = f[1] /\ Number(f) % 3 = 0 THEN SumI("3") ELSE Item("0" \o ToString(i))
RECURSIVE Filled(_, _, _)
Filled(U, f, i) == IF i > 5 THEN U ELSE Filled(Put(U, <<"70">>, Ks[f[i]], Kind(f, f[i])), f, i + 1)
Flat5(f) == Filled(Put(T0, <<>>, "70", Blank(Home(f))), f, 1)
Two == {"range", "rangeinc", "afterto", "aftertoinc"}
Ones == [t : {"from", "after", "to", "toinc"}, a : Bounds]
OneB(x) == IF x.t \in {"from", "after"} THEN QI(x.t, x.a, "") ELSE QI(x.t, "", x.a)
Singles == {<<QI("full", "", "")>>} \cup {<<OneB(x)>> : x \in Ones}
           \cup {<<QI(t, a, b)>> : t \in Two, a \in Bounds, b \in Bounds}
Sound(is) == \A i \in 1..Len(is) : is[i].t \in Two => BLess(is[i].a, is[i].b)
Doubles == {<<QI("key", a, ""), QI("from", b, "")>> : a \in {"01", "02", "04"}, b \in {"05", "06", "08"}}
           \cup {<<QI("to", "", a), QI("after", b, "")>> : a \in {"02", "04", "05"}, b \in {"06", "08", "0a"}}
           \cup {<<QI("range", "02", a), QI("afterto", "06", b)>> : a \in {"04", "05", "06"}, b \in {"08", "0a", "0b"}}
FlatItems == {is \in Singles \cup Doubles : Sound(is)}
Asks == {[path |-> << "70" >>, q |-> Flat(is, l), limit |-> lim, offset |-> <<>>] : is \in FlatItems, l \in BOOLEAN, lim \in {<<1>>, <<2>>, <<3>>}}
AskSeq == SetToSeq(Asks)
LimInit == T \in {Flat5(f) : f \in {CHOOSE f \in Orders : TRUE}} /\ asked \in Orders
\* a prefix of what is selected, which the tree's own order gives
FirstOnes(U, pq) ==
  LET a == Proved(U, pq) all == Ask(U, [pq EXCEPT !.limit = <<>>], O(FALSE, FALSE)) IN
  /\ a.st = "ok" /\ all.st = "ok"
  /\ RowsOf(a) = SubSeq(RowsOf(all), 1, IF Len(all.rows) < pq.limit[1] THEN Len(all.rows) ELSE pq.limit[1])
Mine(f) == SelectSeq([j \in 1..Len(AskSeq) |-> [o |-> "prove", pq |-> AskSeq[j], at |-> j]],
                       LAMBDA x : (Number(f) + x.at) % Stride = 0)
Plain(s) == [j \in 1..Len(s) |-> [o |-> s[j].o, pq |-> s[j].pq]]
RowIns(p, k, e) == [o |-> "insert", p |-> p, k |-> k, el |-> e, no |-> FALSE, nt |-> FALSE]
BuildRows(f) == <<RowIns(<<>>, "70", Blank(Home(f)))>> \o [i \in 1..5 |-> RowIns(<<"70">>, Ks[f[i]], Kind(f, f[i]))]
LimNext == /\ asked # <<>> /\ asked' = <<>> /\ T' = Flat5(asked)
           /\ LET c == Mine(asked) IN
              /\ \A j \in 1..Len(c) : Assert(FirstOnes(T', c[j].pq), <<asked, c[j]>>)
              /\ Emit(Env("SCHED_OUT", ""), ToJson(BuildRows(asked) \o Plain(c)))
LimSpec == LimInit /\ [][LimNext]_<<T, asked>>
=============================================================================
