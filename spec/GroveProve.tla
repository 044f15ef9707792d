----------------------------- MODULE GroveProve -----------------------------
(* What a generated proof shows. The walk follows a path query from the     *)
(* root down; unlike a query, every tree without anything selected in it    *)
(* costs one of the limit, and a reference shows the element behind it.     *)
(* acc: [rows, lim, last, st]: rows as <<path, key, element>>, what is left *)
(* of the limit, the tree element gone into last, and "ok", "err" (no proof *)
(* is made) or "any" (a proof may be refused on either side).               *)
EXTENDS GroveQuery
G == INSTANCE GroveProof
ItemOf(b) == [Blank("item") EXCEPT !.b = b]
CutTo(s, lim) == IF lim = <<>> \/ Len(s) <= lim[1] THEN s ELSE SubSeq(s, 1, lim[1])
Worse(acc, st) == IF acc.st = "ok" THEN [acc EXCEPT !.st = st] ELSE acc
EndsOf(i) == (IF i.t \in {"full", "to", "toinc"} THEN {} ELSE {i.a}) \cup (IF i.t \in {"key", "full", "from", "after"} THEN {} ELSE {i.b})
RECURSIVE PWalk(_, _, _, _)
RECURSIVE PEach(_, _, _, _, _, _)
PWalk(U, pq, path, acc) ==
  LET a == Q!PQAt(pq, path)
      items == IF a.st = "query" THEN a.q.items ELSE IF a.st = "path" THEN <<[t |-> "key", a |-> a.k, b |-> ""]>> ELSE <<>>
      up == BSetToSeq({k \in DOMAIN U[path].es : Q!QAnyIn(items, k)})
      ks == CutTo(IF a.st # "query" \/ a.q.left THEN up ELSE BackSeq(up), acc.lim)
      y == [t |-> U[path].k, h |-> U[path].p, vals |-> U[path].vals]
      \* positions of other widths are refused
      wide == IF y.t = "dense" THEN {2} ELSE {8}
      ps == CutTo(G!Picked(y, items), acc.lim)
  IN IF U[path].k \notin Appends
     THEN IF ks = <<>> THEN [acc EXCEPT !.lim = Minus(@)] ELSE PEach(U, pq, path, a, ks, acc)
     ELSE LET odd == y.vals = <<>> \/ ps = <<>> \/ \E i \in 1..Len(items) : \E b \in EndsOf(items[i]) : BLen(b) \notin wide
              next == [acc EXCEPT !.rows = @ \o [i \in 1..Len(ps) |-> <<path, ps[i][1], ItemOf(ps[i][2])>>], !.lim = MinusN(@, Len(ps))]
          IN IF odd THEN Worse(next, "any") ELSE next
PEach(U, pq, path, a, ks, acc) ==
  IF ks = <<>> \/ acc.st = "err" \/ acc.lim = <<0>> THEN acc
  ELSE LET k == ks[1]
           e == Fill(U, path, k)
           sub == Append(path, k)
           on == Q!GoesOn(a, k)
           abs == AbsEl(e, path, k)
           f == IF abs = <<>> THEN <<>> ELSE IF e.k = "ref" THEN Follow(U, abs[1].ref.p, {}, MaxHops) ELSE <<path, k>>
           show == IF e.k = "ref" THEN Fill(U, f[1], f[2]) ELSE e
           \* what is behind it is an item, and the same as when it was stored
           fresh == show.k \in Items /\ U[path].es[k].rh = ValueHash(EncEl(show))
           push == [acc EXCEPT !.rows = Append(@, <<path, k, show>>), !.lim = Minus(@)]
           next == IF f = <<>> THEN [acc EXCEPT !.st = "err"]
                   ELSE IF e.k \notin Trees \/ ~on THEN IF e.k = "ref" /\ ~fresh THEN Worse(push, "any") ELSE push
                   ELSE IF e.k \in Merks /\ U[sub].es = None THEN [acc EXCEPT !.lim = Minus(@)]
                   ELSE PWalk(U, pq, sub, [acc EXCEPT !.rows = IF Q!ParentAt(pq, path) THEN Append(@, <<sub, k, e>>) ELSE @, !.last = <<e>>])
       IN PEach(U, pq, path, a, Tail(ks), next)
Proved(U, pq) == PWalk(U, pq, <<>>, [rows |-> <<>>, lim |-> pq.limit, last |-> <<>>, st |-> "ok"])
\* empty plain trees are left out of what is verified
Solid(rows) == SelectSeq(rows, LAMBDA x : ~(x[3].k = "tree" /\ x[3].root = <<>>))
\* there is no proof about nothing
Provable(U, pq) == U[<<>>].es # None /\ pq.limit # <<0>> /\ pq.offset \in {<<>>, <<0>>}
SetOfSeq(s) == {s[i] : i \in DOMAIN s}
\* the keys the query names, each with its element or without
Named(pq, rows) ==
  LET t == Q!Terminal(pq.q, pq.path, 0)
      val(x) == LET hit == SelectSeq(rows, LAMBDA w : w[1] = x[1] /\ w[2] = x[2]) IN IF hit = <<>> THEN <<>> ELSE <<hit[Len(hit)][3]>> IN
  IF t.ok /\ pq.limit # <<>> /\ Len(t.v) <= pq.limit[1] THEN <<{<<t.v[i][1], t.v[i][2], val(t.v[i])>> : i \in 1..Len(t.v)}>> ELSE <<>>
RECURSIVE HasSub(_)
HasSub(q) == ~Q!Bare(q.def) \/ \E i \in 1..Len(q.cond) : ~Q!Bare(q.cond[i][2])
\* what each verifying function answers: <<>> where it is an error
Verified(api, pq, a) ==
  LET rows == Solid(a.rows) IN
  CASE api = "raw" -> <<a.rows>>
    [] pq.offset # <<>> -> <<>>
    [] api \in {"verify", "subset"} -> <<rows>>
    [] api \in {"absence", "subabs"} -> Named(pq, rows)
    \* of the tree the query selects in
    [] OTHER -> IF HasSub(pq.q) \/ a.last = <<>> THEN <<>> ELSE <<rows>>
Apis == {"raw", "verify", "subset", "absence", "subabs", "info", "subinfo"}
=============================================================================
