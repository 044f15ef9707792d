-------------------------------- MODULE Merk --------------------------------
(* A key-value tree as a binary tree of nodes                               *)
(*   [k: key, v: value bytes, sup: supplied hash ("" when the value hash is *)
(*    the hash of the value alone), own: the node's own count, l, r: 0/1    *)
(*    subtrees]                                                             *)
(* its hashes, its entries in key order, and what a query over it answers.  *)
EXTENDS Query
NullHash == Zeros(32)
ValueHash(v) == H(<<VarInt(BLen(v)), v>>)
Combine(a, b) == H(<<a, b>>)
KvHash(k, vh) == H(<<VarInt(BLen(k)), k, vh>>)
VH(n) == IF n.sup = "" THEN ValueHash(n.v) ELSE Combine(ValueHash(n.v), n.sup)
NodeHash(kv, lh, rh) == H(<<kv, lh, rh>>)
NodeHashCount(kv, lh, rh, c) == H(<<kv, lh, rh, BE(c, 8)>>)
RECURSIVE TCount(_)
TCount(t) == IF t = <<>> THEN "0" ELSE ISum(<<t[1].own, TCount(t[1].l), TCount(t[1].r)>>)
\* hash of a (possibly empty) tree; counted: the aggregate count is part of every node hash
RECURSIVE THash(_, _)
THash(counted, t) ==
  IF t = <<>> THEN NullHash
  ELSE LET n == t[1] kv == KvHash(n.k, VH(n)) lh == THash(counted, n.l) rh == THash(counted, n.r) IN
       IF counted THEN NodeHashCount(kv, lh, rh, TCount(t)) ELSE NodeHash(kv, lh, rh)
RECURSIVE TEntries(_)
TEntries(t) == IF t = <<>> THEN <<>> ELSE TEntries(t[1].l) \o <<t[1]>> \o TEntries(t[1].r)
RECURSIVE THeight(_)
THeight(t) == IF t = <<>> THEN 0
              ELSE LET a == THeight(t[1].l) b == THeight(t[1].r) IN 1 + (IF a > b THEN a ELSE b)
RECURSIVE TBalanced(_)
TBalanced(t) == t = <<>> \/ (/\ TBalanced(t[1].l) /\ TBalanced(t[1].r)
                             /\ THeight(t[1].l) - THeight(t[1].r) \in {-1, 0, 1})
TOrdered(t) == LET e == TEntries(t) IN \A i \in 1..(Len(e) - 1) : BLess(e[i].k, e[i + 1].k)
\* the entries that items select, in direction order, cut at the limit (<<>>: none)
RECURSIVE Pick(_, _)
Pick(items, es) == IF es = <<>> THEN <<>> ELSE (IF QAnyIn(items, es[1].k) THEN <<es[1]>> ELSE <<>>) \o Pick(items, Tail(es))
Cut(s, lim) == IF lim = <<>> \/ Len(s) <= lim[1] THEN s ELSE SubSeq(s, 1, lim[1])
Answer(es, items, lim, left) == Cut(Pick(items, IF left THEN es ELSE RevSeq(es)), lim)
LimitLeft(lim, n) == IF lim = <<>> THEN <<>> ELSE <<lim[1] - n>>
\* element types whose value hash is the hash of the value alone, by discriminant
SimpleTypes == {0, 3, 9}
=============================================================================
