---------------------------- MODULE GroveQueryMC ----------------------------
(* Every query of a small family on every small hierarchy: the walk of      *)
(* GroveQuery answers exactly what the query selects, each element once, in *)
(* its direction; limit and offset cut out a segment of that; and a sum     *)
(* query takes the shortest sufficient prefix.                              *)
EXTENDS GroveQuery, TLC, Json, SequencesExt
CONSTANTS Rich
VARIABLES T, asked
K == {"01", "02"}
Item(b) == [Blank("item") EXCEPT !.b = b]
SumI(n) == [Blank("sumitem") EXCEPT !.s = n]
\* what there is at a key below the top: nothing, an item, an empty tree, or a
\* tree with an item
Leaf == IF Rich THEN {"", "i", "t", "u"} ELSE {"", "i"}
Inner == [K -> Leaf]
Put(U, p, k, e) == Put1(U, p, k, e, "")
PutLeaf(U, p, k, x) == CASE x = "" -> U
                         [] x = "i" -> Put(U, p, k, Item("0a"))
                         [] x = "t" -> Put(U, p, k, Blank("tree"))
                         [] OTHER -> Put(Put(U, p, k, Blank("tree")), Append(p, k), "02", Item("0b"))
PutLeaves(U, p, f) == PutLeaf(PutLeaf(U, p, "01", f["01"]), p, "02", f["02"])
Nothing == [k \in K |-> ""]
Top == {[t |-> "none", es |-> Nothing], [t |-> "item", es |-> Nothing]}
       \cup {[t |-> "tree", es |-> f] : f \in (IF Rich THEN Inner ELSE {g \in Inner : g["02"] = g["01"] \/ g["01"] = ""})}
Place(U, k, x) == CASE x.t = "none" -> U
                    [] x.t = "item" -> Put(U, <<>>, k, Item("0a"))
                    [] OTHER -> PutLeaves(Put(U, <<>>, k, Blank("tree")), <<k>>, x.es)
RECURSIVE PutAll(_, _, _, _)
PutAll(U, p, f, ks) == IF ks = {} THEN U ELSE LET k == CHOOSE k \in ks : TRUE V == PutAll(U, p, f, ks \ {k}) IN
                       IF f[k] = <<>> THEN V ELSE Put(V, p, k, f[k][1])
Hierarchies == {Place(Place(T0, "01", a), "02", b) : a \in Top, b \in Top}
\* queries
QI(t, a, b) == [t |-> t, a |-> a, b |-> b]
ItemSets == {<<QI("full", "", "")>>, <<QI("key", "01", ""), QI("key", "02", "")>>, <<QI("after", "01", "")>>, <<QI("toinc", "", "01")>>, <<QI("key", "02", "")>>}
Flat(is, left) == [items |-> is, left |-> left, cond |-> <<>>, def |-> [path |-> <<>>, sub |-> <<>>], hascond |-> FALSE, par |-> FALSE]
Subs == {Flat(is, left) : is \in {<<QI("full", "", "")>>, <<QI("key", "02", "")>>}, left \in BOOLEAN}
Branches == {[path |-> <<>>, sub |-> <<>>], [path |-> << <<"01">> >>, sub |-> <<>>]}
            \cup {[path |-> <<>>, sub |-> <<s>>] : s \in Subs} \cup {[path |-> << <<"01">> >>, sub |-> <<s>>] : s \in Subs}
Conds == {<<>>} \cup {<< <<QI("key", "01", ""), b>> >> : b \in {[path |-> <<>>, sub |-> <<Flat(<<QI("full", "", "")>>, FALSE)>>], [path |-> << <<"02">> >>, sub |-> <<>>]}}
Queries == {[items |-> is, left |-> l, cond |-> c, hascond |-> c # <<>>, def |-> b, par |-> FALSE] : is \in ItemSets, l \in BOOLEAN, c \in Conds, b \in Branches}
O(eip, dec) == [eip |-> eip, dec |-> dec]
PQ(q, lim, off) == [path |-> <<>>, q |-> q, limit |-> lim, offset |-> off]
\* the elements a query asks for, as a set: e at place p, reached by q
RECURSIVE Hit(_, _, _, _)
Hit(U, base, q, p) ==
  LET k == p[1] b == Q!Branch(q, k) s == Q!BPath(b) n == Len(s) IN
  /\ Q!QAnyIn(q.items, k) /\ Has(U, base, k)
  /\ IF Q!Bare(b) \/ U[base].es[k].e.k \notin Trees THEN Len(p) = 1
     ELSE IF b.sub = <<>> THEN SubSeq(p, 2, Len(p)) = s /\ Has(U, base \o SubSeq(p, 1, Len(p) - 1), p[Len(p)])
     ELSE /\ Len(p) > n + 1 /\ SubSeq(p, 2, n + 1) = s
          /\ IsMerk(U, base \o SubSeq(p, 1, n + 1))
          /\ Hit(U, base \o SubSeq(p, 1, n + 1), b.sub[1], SubSeq(p, n + 2, Len(p)))
Places(U) == {Append(f[1], f[2]) : f \in UNION {{<<p, k>> : k \in DOMAIN U[p].es} : p \in DOMAIN U}}
PathOf(x) == Append(x[1], x[2])
RowsOf(a) == [i \in 1..Len(a.rows) |-> PathOf(a.rows[i])]
\* in the direction of the query that selects among them
RECURSIVE Before(_, _, _)
Before(q, p, r) == IF p[1] # r[1] THEN IF q.left THEN BLess(p[1], r[1]) ELSE BLess(r[1], p[1])
                   ELSE LET b == Q!Branch(q, p[1]) n == Len(Q!BPath(b)) IN
                        b.sub # <<>> /\ Len(p) > n + 1 /\ Len(r) > n + 1 /\ Before(b.sub[1], SubSeq(p, n + 2, Len(p)), SubSeq(r, n + 2, Len(r)))
Lims == {<<>>, <<0>>, <<1>>, <<2>>}
Offs == {<<>>, <<1>>, <<2>>}
Right(U, q) ==
  LET all == Ask(U, PQ(q, <<>>, <<>>), O(FALSE, FALSE)) rs == RowsOf(all) IN
  all.st = "any" \/
  (/\ all.st = "ok"
   /\ {rs[i] : i \in 1..Len(rs)} = {p \in Places(U) : Hit(U, <<>>, q, p)}
   /\ \A i, j \in 1..Len(rs) : i < j => Before(q, rs[i], rs[j])
   \* limit and offset take a segment
   /\ \A lim \in Lims, off \in Offs :
        LET x == Ask(U, PQ(q, lim, off), O(FALSE, FALSE)) o == IF off = <<>> THEN 0 ELSE off[1]
            from == IF o > Len(rs) THEN Len(rs) ELSE o
            to == IF lim = <<>> THEN Len(rs) ELSE IF from + lim[1] > Len(rs) THEN Len(rs) ELSE from + lim[1] IN
        /\ RowsOf(x) = SubSeq(rs, from + 1, to)
        /\ (lim # <<0>> /\ off # <<>> => o - x.off[1] = from)
   \* what counts subtrees without results returns a beginning of that
   /\ \A lim \in Lims : LET x == RowsOf(Ask(U, PQ(q, lim, <<>>), O(FALSE, TRUE))) IN
        Len(x) <= Len(rs) /\ (lim = <<>> => x = rs) /\ (lim # <<>> => Len(x) <= lim[1]) /\ x = SubSeq(rs, 1, Len(x))
   \* missing trees are errors or nothing
   /\ LET x == Ask(U, PQ(q, <<>>, <<>>), O(TRUE, FALSE)) IN x.st = "ok" => x.rows = all.rows)
Row(q, lim, off, rt, dec, eip) == [o |-> "query", api |-> "raw", pq |-> PQ(q, lim, off), cache |-> TRUE, dec |-> dec, eip |-> eip, rt |-> rt]
Build(U) ==
  LET ps == SetToSortSeq({p \in Places(U) : TRUE}, LAMBDA a, b : Len(a) < Len(b) \/ (Len(a) = Len(b) /\ \E i \in 1..Len(a) : SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1) /\ BLess(a[i], b[i]))) IN
  [i \in 1..Len(ps) |-> [o |-> "insert", p |-> Parent(ps[i]), k |-> Last1(ps[i]), el |-> U[Parent(ps[i])].es[Last1(ps[i])].e, no |-> FALSE, nt |-> TRUE]]
\* --- sums: entries of one tree in order ---
SumTrees == {PutAll(Put(T0, <<>>, "01", Blank("sumtree")), <<"01">>, f, {"01", "02", "03"}) :
             f \in [{"01", "02", "03"} -> {<<>>, <<SumI("5")>>, <<SumI("-2")>>, <<Item("0a")>>}]}
AQ(left, sum, lim) == [items |-> <<QI("full", "", "")>>, left |-> left, sum |-> sum, lim |-> lim]
SumRow(a, nse) == [o |-> "aggsum", p |-> <<"01">>, aq |-> a, eip |-> TRUE, nse |-> nse, ign |-> FALSE, cache |-> TRUE]
RECURSIVE Total1(_)
Total1(rs) == IF rs = <<>> THEN "0" ELSE IAdd(rs[1][2], Total1(Tail(rs)))
SumRight(U, a) ==
  LET r == Sums(U, SumRow(a, FALSE))
      es == U[<<"01">>].es
      ks == BSetToSeq({k \in DOMAIN es : es[k].e.k = "sumitem"})
      all == LET s == IF a.left THEN ks ELSE BackSeq(ks) IN [i \in 1..Len(s) |-> <<s[i], es[s[i]].e.s>>]
      enough(n) == ILeq(a.sum, Total1(SubSeq(all, 1, n))) \/ a.lim = <<n>>
      n == CHOOSE n \in 0..Len(all) : (enough(n) \/ n = Len(all)) /\ \A m \in 0..(n - 1) : ~enough(m)
  IN r.st = {"ok"} /\ r.v.rows = SubSeq(all, 1, n) /\ ~r.v.hard
SumQueries == {AQ(l, s, m) : l \in BOOLEAN, s \in {"0", "1", "5", "6", "9", "100"}, m \in {<<>>, <<0>>, <<1>>, <<2>>}}
AllQs == SetToSeq({Row(q, lim, off, rt, dec, eip) : q \in Queries, lim \in {<<>>, <<1>>}, off \in {<<>>}, rt \in {"pke"}, dec \in {TRUE}, eip \in {FALSE}}
         \cup {Row(q, <<2>>, <<1>>, "ke", FALSE, TRUE) : q \in Queries})
Init == T \in Hierarchies \cup SumTrees /\ asked = FALSE
Next == /\ ~asked /\ asked' = TRUE /\ T' = T
        /\ IF "01" \in DOMAIN T[<<>>].es /\ T[<<>>].es["01"].e.k = "sumtree"
           THEN /\ \A a \in SumQueries : Assert(SumRight(T, a), <<T, a>>)
                /\ Env("SUMS", "1") = "1" => Emit(Env("SCHED_OUT", ""), ToJson(Build(T) \o SetToSeq({SumRow(a, n) : a \in SumQueries, n \in BOOLEAN})))
           ELSE /\ \A q \in Queries : Assert(Right(T, q), <<T, q>>)
                /\ Env("SUMS", "0") = "0" => Emit(Env("SCHED_OUT", ""), ToJson(Build(T) \o AllQs))
Spec == Init /\ [][Next]_<<T, asked>>
=============================================================================
