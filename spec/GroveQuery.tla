----------------------------- MODULE GroveQuery -----------------------------
(* What queries answer. A query walks the trees below its path in the order *)
(* of its items and directions; o: [eip: a missing tree on the way is an    *)
(* error, dec: a subtree without results costs one of the limit].           *)
(* acc: [rows, lim, off, st]: rows so far as <<path, key, element>>, what   *)
(* is left of limit and offset, and "ok", "err", or "any" where the         *)
(* outcome is not specified (the query asks for the inside of something     *)
(* that is no key-value tree).                                              *)
EXTENDS GroveBatch
Q == INSTANCE PathQuery
BackSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Minus(n) == IF n = <<>> THEN n ELSE <<IF n[1] = 0 THEN 0 ELSE n[1] - 1>>
MinusN(n, m) == IF n = <<>> THEN n ELSE <<IF n[1] > m THEN n[1] - m ELSE 0>>
\* p leads through something that is no key-value tree
Odd(T, p) == Blocked(T, p) \/ \E i \in 0..(Len(p) - 1) : LET q == SubSeq(p, 1, i) IN IsTree(T, q) /\ ~IsMerk(T, q)
\* <<>> or the element with an absolute reference
AbsEl(e, p, k) == IF e.k # "ref" THEN <<e>>
                  ELSE LET r == R!Resolve(e.ref, p, k) IN
                       IF r = <<>> THEN <<>> ELSE <<[e EXCEPT !.ref = [t |-> "abs", n |-> 0, p |-> r[1]]]>>
Done(a) == a.st # "ok" \/ a.lim = <<0>>
Chosen(T, es, item, left) ==
  LET ks == BSetToSeq({k \in es : Q!QIn(item, k)}) IN IF left THEN ks ELSE BackSeq(ks)
RECURSIVE QItems(_, _, _, _, _, _)
RECURSIVE QKeysIn(_, _, _, _, _, _)
QTree(T, path, q, a, o) == QItems(T, path, q, IF q.left THEN q.items ELSE BackSeq(q.items), a, o)
One(p, k, e, a) ==
  LET x == AbsEl(e, p, k) IN
  IF x = <<>> THEN [a EXCEPT !.st = "err"]
  ELSE IF a.off # <<>> /\ a.off # <<0>> THEN [a EXCEPT !.off = Minus(@)]
  ELSE [a EXCEPT !.rows = Append(@, <<p, k, x[1]>>), !.lim = Minus(@)]
Push(T, path, k, q, a, o) ==
  LET e == Fill(T, path, k) b == Q!Branch(q, k) p == Append(path, k) \o Q!BPath(b) IN
  IF e.k \notin Trees \/ Q!Bare(b) THEN One(path, k, e, a)
  ELSE IF b.sub # <<>>
  THEN LET x == QTree(T, p, b.sub[1], [a EXCEPT !.rows = <<>>], o) IN
       IF x.st # "ok" THEN [a EXCEPT !.st = x.st]
       ELSE [a EXCEPT !.rows = @ \o x.rows, !.off = x.off,
                      !.lim = IF x.rows = <<>> /\ o.dec THEN Minus(@) ELSE MinusN(@, Len(x.rows))]
  ELSE LET t == Parent(p) IN
       IF Odd(T, t) \/ (IsTree(T, t) /\ ~IsMerk(T, t)) THEN [a EXCEPT !.st = "any"]
       ELSE IF ~IsTree(T, t) THEN IF o.eip THEN [a EXCEPT !.st = "err"] ELSE a
       ELSE IF Last1(p) \notin DOMAIN T[t].es THEN IF o.dec THEN [a EXCEPT !.lim = Minus(@)] ELSE a
       ELSE One(t, Last1(p), Fill(T, t, Last1(p)), a)
QKeysIn(T, path, q, ks, a, o) == IF ks = <<>> \/ Done(a) THEN a ELSE QKeysIn(T, path, q, Tail(ks), Push(T, path, ks[1], q, a, o), o)
QItems(T, path, q, is, a, o) ==
  IF is = <<>> \/ Done(a) THEN a
  ELSE LET i == is[1]
           x == IF Odd(T, path) \/ (IsTree(T, path) /\ ~IsMerk(T, path)) THEN [a EXCEPT !.st = "any"]
                ELSE IF ~IsTree(T, path) THEN IF i.t = "key" /\ o.eip THEN [a EXCEPT !.st = "err"] ELSE a
                ELSE QKeysIn(T, path, q, Chosen(T, DOMAIN T[path].es, i, q.left), a, o)
       IN QItems(T, path, q, Tail(is), x, o)
Ask(T, pq, o) == QTree(T, pq.path, pq.q, [rows |-> <<>>, lim |-> pq.limit, off |-> pq.offset, st |-> "ok"], o)
Unknown == [st |-> {"ok", "err"}, any |-> TRUE, v |-> 0, w |-> FALSE]
\* f(e): <<>> where it is an error, otherwise <<value>>
Answers(T, pq, o, f(_, _)) ==
  LET a == Ask(T, pq, o) vs == [i \in 1..Len(a.rows) |-> f(T, a.rows[i])] IN
  IF a.st = "any" THEN Unknown
  ELSE IF a.st = "err" \/ (\E i \in 1..Len(vs) : vs[i] = <<>>) THEN Err
  ELSE Ok([rows |-> [i \in 1..Len(vs) |-> vs[i][1]], skip |-> IF pq.offset = <<>> THEN 0 ELSE pq.offset[1] - a.off[1]])
Root(e) == IF e.k \in Merks /\ e.root # <<>> THEN [e EXCEPT !.root = <<"">>] ELSE e
ShapeOf(rt, p, k, e) == CASE rt = "e" -> <<Root(e)>> [] rt = "ke" -> <<k, Root(e)>> [] OTHER -> <<p, k, Root(e)>>
\* what an element stands for: a reference for what it leads to
Behind(T, e) == IF e.k # "ref" THEN <<e>> ELSE LET f == Follow(T, e.ref.p, {}, MaxHops) IN IF f = <<>> THEN <<>> ELSE <<Fill(T, f[1], f[2])>>
Resolved(T, e) ==
  LET x == Behind(T, e) IN
  IF x = <<>> THEN x
  ELSE IF e.k = "ref" THEN IF x[1].k \in Items THEN x ELSE <<>>
  ELSE IF e.k = "tree" \/ e.k \in Appends THEN <<>> ELSE x
Value(T, e) ==
  LET x == Behind(T, e) IN
  IF x = <<>> THEN x ELSE IF x[1].k \in {"item", "itemsum"} THEN <<x[1].b>>
  ELSE IF x[1].k = "sumitem" THEN <<VarIntS(x[1].s)>> ELSE <<>>
SumOf(T, e) ==
  LET x == Behind(T, e) IN IF x = <<>> THEN x ELSE IF x[1].k \in {"sumitem", "itemsum"} THEN <<x[1].s>> ELSE <<>>
ValueOrSum(T, e) ==
  LET x == Behind(T, e) IN
  IF x = <<>> THEN x
  ELSE LET y == x[1] IN
       CASE y.k = "item" -> << <<"item", y.b>> >>
         [] y.k = "itemsum" -> << <<"itemsum", y.b, y.s>> >>
         [] y.k \in {"sumitem", "sumtree"} -> << <<"sum", y.s>> >>
         [] y.k = "bigsumtree" -> << <<"bigsum", y.s>> >>
         [] y.k \in {"counttree", "provcounttree"} -> << <<"count", y.n>> >>
         [] y.k \in {"countsumtree", "provcountsumtree"} -> << <<"countsum", y.n, y.s>> >>
         [] OTHER -> <<>>
\* the named keys, each with its element or without
Optional(T, pq, o, f(_, _)) ==
  IF pq.limit = <<>> \/ pq.offset # <<>> THEN Err
  ELSE LET t == Q!Terminal(pq.q, pq.path, 0) IN
       IF ~t.ok THEN Err ELSE IF Len(t.v) > pq.limit[1] THEN Err
       ELSE LET a == Answers(T, pq, o, f) IN
            IF "any" \in DOMAIN a \/ a.st = {"err"} THEN a
            ELSE Ok({LET hit == {i \in DOMAIN a.v.rows : a.v.rows[i][1] = x[1] /\ a.v.rows[i][2] = x[2]} IN
                     <<x[1], x[2], IF hit = {} THEN <<>> ELSE <<a.v.rows[CHOOSE i \in hit : TRUE][3]>> >> : x \in {t.v[i] : i \in 1..Len(t.v)}})
Query(T, r) ==
  LET o == [eip |-> r.eip, dec |-> r.dec] rt == r.rt IN
  CASE r.api = "raw" -> Answers(T, r.pq, o, LAMBDA U, x : <<ShapeOf(rt, x[1], x[2], x[3])>>)
    [] r.api = "query" -> Answers(T, r.pq, o, LAMBDA U, x : LET y == Resolved(U, x[3]) IN IF y = <<>> THEN y ELSE <<ShapeOf(rt, x[1], x[2], y[1])>>)
    [] r.api = "value" -> Answers(T, r.pq, o, LAMBDA U, x : Value(U, x[3]))
    [] r.api = "valsum" -> Answers(T, r.pq, o, LAMBDA U, x : ValueOrSum(U, x[3]))
    [] r.api = "sums" -> Answers(T, r.pq, o, LAMBDA U, x : SumOf(U, x[3]))
    [] r.api = "rawkeys" -> Optional(T, r.pq, o, LAMBDA U, x : <<ShapeOf("pke", x[1], x[2], x[3])>>)
    [] OTHER -> Optional(T, r.pq, o, LAMBDA U, x : LET y == Resolved(U, x[3]) IN IF y = <<>> THEN y ELSE <<ShapeOf("pke", x[1], x[2], y[1])>>)
(* Sums: the shortest prefix of the selected entries whose sum reaches the  *)
(* limit. r: [p, aq: [items, left, sum, lim], eip, nse: others are errors,  *)
(* ign: references are passed over].                                        *)
AggHops == 4
MaxScan == 1024
SClamp(n) == IF ILess("9223372036854775807", n) THEN "9223372036854775807" ELSE IF ILess(n, "-9223372036854775808") THEN "-9223372036854775808" ELSE n
SDone(a) == a.st # "ok" \/ a.lim = <<0>> \/ ILeq(a.left, "0") \/ a.scan > MaxScan
SPush(T, p, k, a, r) ==
  LET e == T[p].es[k].e
      n == [a EXCEPT !.scan = @ + 1]
      take(x) == [n EXCEPT !.rows = Append(@, <<k, x.s>>), !.left = SClamp(ISub(@, x.s)), !.lim = Minus(@)]
      other == IF r.nse THEN [n EXCEPT !.st = "err"] ELSE n
  IN IF n.scan > MaxScan THEN n
     ELSE IF e.k = "ref"
     THEN IF r.ign THEN n
          ELSE LET x == R!Resolve(e.ref, p, k) f == IF x = <<>> THEN <<>> ELSE Follow(T, x[1], {}, AggHops) IN
               IF f = <<>> THEN [n EXCEPT !.st = IF r.eip THEN "err" ELSE "any"]
               ELSE LET y == T[f[1]].es[f[2]].e IN IF y.k \in {"sumitem", "itemsum"} THEN take(y) ELSE other
     ELSE IF e.k \in {"sumitem", "itemsum"} THEN take(e) ELSE other
RECURSIVE SKeys(_, _, _, _, _)
SKeys(T, p, ks, a, r) == IF ks = <<>> \/ SDone(a) THEN a ELSE SKeys(T, p, Tail(ks), SPush(T, p, ks[1], a, r), r)
RECURSIVE SItems(_, _, _, _, _)
SItems(T, p, is, a, r) ==
  IF is = <<>> \/ SDone(a) THEN a
  ELSE LET x == IF Odd(T, p) \/ (IsTree(T, p) /\ ~IsMerk(T, p)) THEN [a EXCEPT !.st = "any"]
                ELSE IF ~IsTree(T, p) THEN IF is[1].t = "key" /\ r.eip THEN [a EXCEPT !.st = "err"] ELSE a
                ELSE SKeys(T, p, Chosen(T, DOMAIN T[p].es, is[1], r.aq.left), a, r)
       IN SItems(T, p, Tail(is), x, r)
Sums(T, r) ==
  IF ILess("9223372036854775807", r.aq.sum) THEN Err
  ELSE LET a == SItems(T, r.p, IF r.aq.left THEN r.aq.items ELSE BackSeq(r.aq.items),
                       [rows |-> <<>>, left |-> r.aq.sum, lim |-> r.aq.lim, scan |-> 0, st |-> "ok"], r) IN
       IF a.st = "any" THEN Unknown ELSE IF a.st = "err" THEN Err
       ELSE Ok([rows |-> a.rows, hard |-> a.scan > MaxScan])
=============================================================================
