----------------------------- MODULE GroveProof -----------------------------
(* A hierarchy of trees as layers                                           *)
(*   [t: kind, counted, tree: key-value tree (Merk), subs: <<key, layer>>,  *)
(*    h: height or chunk power, vals: values in order, sin: frontier hash]  *)
(* its hashes, and what a path query over it answers: the content of a      *)
(* proof for that query.                                                    *)
EXTENDS PathQuery, Merk, Wire
LOCAL GD == INSTANCE Dense WITH vals <- <<>>, height <- 0
LOCAL GM == INSTANCE Mmr WITH stored <- <<>>, cur <- <<>>
LOCAL GB == INSTANCE Bulk WITH vals <- <<>>, height <- 0, flushed <- 0, saved <- <<>>
LayerHash(y) ==
  CASE y.t = "merk" -> THash(y.counted, y.tree)
    [] y.t = "mmr" -> IF y.vals = <<>> THEN NullHash ELSE GM!MRoot(y.vals)
    [] y.t = "dense" -> GD!DRoot(y.vals, y.h)
    [] OTHER -> IF y.vals = <<>> THEN NullHash
                ELSE IF y.t = "bulk" THEN GB!BRoot(y.vals, y.h)
                ELSE H(<<Utf8("ct_state"), y.sin, GB!BRoot(y.vals, y.h)>>)
\* the layer below key k: <<>> or <<layer>>
RECURSIVE Find(_, _)
Find(ss, k) == IF ss = <<>> THEN <<>> ELSE IF ss[1][1] = k THEN <<ss[1][2]>> ELSE Find(Tail(ss), k)
NodeAt(y, k) == LET es == TEntries(y.tree) IN es[CHOOSE i \in 1..Len(es) : es[i].k = k]
\* every tree element commits to the layer below it
RECURSIVE Committed(_)
Committed(y) ==
  y.t = "merk" => /\ TBalanced(y.tree) /\ TOrdered(y.tree)
                  /\ \A i \in 1..Len(y.subs) :
                       LET s == y.subs[i][2] IN
                       Committed(s) /\ NodeAt(y, y.subs[i][1]).sup = LayerHash(s)
Type(v) == IF v = "" THEN -1 ELSE BAt(v, 0)
Deref(n) == IF n.res # "" THEN n.res ELSE n.v
ItemBytes(v) == Cat(<<"00", Bytes(v), "00">>)
Less(lim, n) == IF lim = <<>> THEN <<>> ELSE <<IF lim[1] > n THEN lim[1] - n ELSE 0>>
\* positions of an append-only layer that the items select, ascending (a dense
\* tree also takes one-byte positions)
Picked(y, items) ==
  LET key(p) == BE(p, IF y.t = "dense" THEN 2 ELSE 8)
      hit(p) == IF y.t = "dense" THEN GD!DQueryOk(items) /\ p \in GD!DSelected(items, Len(y.vals)) ELSE QAnyIn(items, key(p))
  IN [i \in 1..Len(SelectSeq([p \in 1..Len(y.vals) |-> p - 1], hit)) |->
       LET p == SelectSeq([q \in 1..Len(y.vals) |-> q - 1], hit)[i] IN <<key(p), y.vals[p + 1]>>]
\* acc: [rows, lim, last]: rows so far, <<path, key, value, value hash>>; what is
\* left of the limit; the element of the tree gone into last
RECURSIVE Walk(_, _, _, _)
RECURSIVE Each(_, _, _, _, _, _)
Walk(pq, path, y, acc) ==
  LET a == PQAt(pq, path)
      items == IF a.st = "query" THEN a.q.items ELSE IF a.st = "path" THEN <<[t |-> "key", a |-> a.k, b |-> ""]>> ELSE <<>>
      left == a.st # "query" \/ a.q.left
  IN IF y.t = "merk"
     THEN LET es == Answer(TEntries(y.tree), items, acc.lim, left) IN
          IF es = <<>> THEN [acc EXCEPT !.lim = Less(@, 1)] ELSE Each(pq, path, y, a, es, acc)
     ELSE LET ps == Cut(Picked(y, items), acc.lim) IN
          [acc EXCEPT !.rows = @ \o [i \in 1..Len(ps) |-> <<path, ps[i][1], ItemBytes(ps[i][2]), Zeros(32)>>],
                      !.lim = Less(@, Len(ps))]
Each(pq, path, y, a, es, acc) ==
  IF es = <<>> \/ acc.lim = <<0>> THEN acc
  ELSE LET n == es[1]
           below == Find(y.subs, n.k)
           on == GoesOn(a, n.k)
           p2 == Append(path, n.k)
           isTree == n.res = "" /\ Type(n.v) \notin SimpleTypes
           push == [acc EXCEPT !.rows = Append(@, <<path, n.k, Deref(n), IF n.res # "" THEN ValueHash(n.v) ELSE VH(n)>>), !.lim = Less(@, 1)]
           next == IF isTree /\ on
                   THEN IF below = <<>> THEN [acc EXCEPT !.lim = Less(@, 1)]
                        ELSE Walk(pq, p2, below[1],
                               [acc EXCEPT !.rows = IF ParentAt(pq, path) THEN Append(@, <<p2, n.k, n.v, VH(n)>>) ELSE @,
                                           !.last = n.v])
                   ELSE push
       IN Each(pq, path, y, a, Tail(es), next)
AnswerOf(pq, y) == Walk(pq, <<>>, y, [rows |-> <<>>, lim |-> pq.limit, last |-> ""])
\* without empty plain trees, as the verifying functions report them
Nonempty(rows) == SelectSeq(rows, LAMBDA x : ~(BLen(x[3]) > 1 /\ BSub(x[3], 0, 2) = "0200"))
=============================================================================
