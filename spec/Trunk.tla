-------------------------------- MODULE Trunk --------------------------------
(* The top of a key-value tree: the nodes down to a depth, the boundary      *)
(* nodes at that depth with something below them, which boundary node a key  *)
(* lies under, and how deep a tree of so many entries can be and how its     *)
(* depth is split into chunks.                                               *)
EXTENDS Merk
Pair(n) == <<n.k, n.v>>
\* nodes down to depth d, in key order
RECURSIVE Top(_, _)
Top(t, d) == IF t = <<>> \/ d = 0 THEN <<>> ELSE Top(t[1].l, d - 1) \o <<t[1]>> \o Top(t[1].r, d - 1)
\* the nodes at depth d with something below, in key order, as trees
RECURSIVE Bound(_, _)
Bound(t, d) == IF t = <<>> \/ d = 0 THEN <<>>
               ELSE IF d = 1 THEN (IF t[1].l # <<>> \/ t[1].r # <<>> THEN <<t>> ELSE <<>>)
               ELSE Bound(t[1].l, d - 1) \o Bound(t[1].r, d - 1)
\* the trees on the way from the root to key k; the last has key k or nothing on k's side
RECURSIVE Way(_, _)
Way(t, k) == IF t = <<>> THEN <<>>
             ELSE IF t[1].k = k THEN <<t>>
             ELSE <<t>> \o Way(IF BLess(k, t[1].k) THEN t[1].l ELSE t[1].r, k)
\* the first of the keys L on the way to k: <<>> or <<key>>
RECURSIVE FirstIn(_, _)
FirstIn(ws, L) == IF ws = <<>> THEN <<>> ELSE IF ws[1][1].k \in L THEN <<ws[1][1].k>> ELSE FirstIn(Tail(ws), L)
Leads(t, k, L) == FirstIn(Way(t, k), L)
\* everything but what lies below the keys L, in key order
RECURSIVE Above(_, _)
Above(t, L) == IF t = <<>> THEN <<>>
               ELSE IF t[1].k \in L THEN <<t[1]>>
               ELSE Above(t[1].l, L) \o <<t[1]>> \o Above(t[1].r, L)
RECURSIVE Sub(_, _)
Sub(t, k) == IF t = <<>> THEN <<>> ELSE IF t[1].k = k THEN t ELSE Sub(IF BLess(k, t[1].k) THEN t[1].l ELSE t[1].r, k)
\* depths (from 0) at which subtrees are cut when the nodes down to depth d are shown
RECURSIVE HashDepths(_, _)
HashDepths(t, d) == IF t = <<>> THEN {} ELSE IF d = 0 THEN {0} ELSE {1 + x : x \in HashDepths(t[1].l, d - 1) \cup HashDepths(t[1].r, d - 1)}
\* the highest balanced tree with n entries: fewest entries of height h, F(h + 2) - 1
RECURSIVE HeightFrom(_, _, _, _)
HeightFrom(n, h, a, b) == IF ILess(n, ISub(b, "1")) THEN h - 1 ELSE HeightFrom(n, h + 1, b, IAdd(a, b))
MaxHeight(n) == HeightFrom(n, 1, "1", "2")
\* a depth split into chunks, none deeper than max: as even as can be, the deeper ones first
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Even(_, _)
Even(d, n) == IF n = 0 THEN <<>> ELSE LET x == CeilDiv(d, n) IN <<x>> \o Even(d - x, n - 1)
Split(d, max) == IF d <= max THEN <<d>> ELSE Even(d, CeilDiv(d, max))
\* with a first chunk no shallower than min
SplitMin(d, max, min) ==
  IF d <= max THEN <<d>>
  ELSE LET n == CeilDiv(d, max) e == CeilDiv(d, n) x == IF e < min THEN min ELSE e IN <<x>> \o Even(d - x, n - 1)
SplitFor(d, max, min) == IF min = <<>> THEN Split(d, max) ELSE SplitMin(d, max, min[1])
SplitOk(max, min) == max > 0 /\ (min # <<>> => min[1] > 0 /\ min[1] <= max)
=============================================================================
