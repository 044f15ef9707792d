-------------------------------- MODULE Store --------------------------------
(* A key-value tree as it is stored: nodes under their keys, each with the  *)
(* links to its children [k, h, lh, rh, a], its own contribution f, its     *)
(* value v and the hashes kv, vh. Look(N, rk, kind) walks it from the root  *)
(* and checks every link, hash, height and aggregate on the way.            *)
EXTENDS Merk, Element
NoAgg == [t |-> "basic", n |-> "0", s |-> "0"]
Counted(kind) == kind \in {"provcounttree", "provcountsumtree"}
Add(a, b) == IF b.t = "basic" THEN a ELSE IF a.t = "basic" THEN b ELSE [a EXCEPT !.n = IAdd(a.n, b.n), !.s = IAdd(a.s, b.s)]
\* the range an aggregate must stay in
Fits(a) == /\ ~ILess("18446744073709551615", a.n)
           /\ IF a.t = "bigsum" THEN /\ ~ILess(a.s, "-170141183460469231731687303715884105728") /\ ~ILess("170141183460469231731687303715884105727", a.s)
              ELSE /\ ~ILess(a.s, "-9223372036854775808") /\ ~ILess("9223372036854775807", a.s)
\* nodes: a sequence of stored rows -> key -> row
ByKey(ns) == [k \in {ns[i].k : i \in DOMAIN ns} |-> ns[CHOOSE i \in DOMAIN ns : ns[i].k = k]]
Empty == [ok |-> TRUE, h |-> 0, hash |-> NullHash, agg |-> NoAgg, ks |-> <<>>, lh |-> 0, rh |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Look(_, _, _, _)
Look(N, lk, kind, fuel) ==     \* lk: <<>> or <<key>>
  IF lk = <<>> THEN Empty
  ELSE IF lk[1] \notin DOMAIN N \/ fuel = 0 THEN [Empty EXCEPT !.ok = FALSE]
  ELSE LET n == N[lk[1]] IN
       IF "raw" \in DOMAIN n THEN [Empty EXCEPT !.ok = FALSE]
       ELSE LET L == Look(N, IF n.l = <<>> THEN <<>> ELSE <<n.l[1].k>>, kind, fuel - 1)
                Rr == Look(N, IF n.r = <<>> THEN <<>> ELSE <<n.r[1].k>>, kind, fuel - 1)
                linked(k, c) == k = <<>> \/ (k[1].h = c.hash /\ k[1].lh = c.lh /\ k[1].rh = c.rh /\ k[1].a = c.agg)
                agg == Add(Add(n.f, L.agg), Rr.agg)
                kv == KvHash(n.k, n.vh)
            IN [ok |-> /\ L.ok /\ Rr.ok /\ linked(n.l, L) /\ linked(n.r, Rr) /\ n.kv = kv
                       /\ L.h - Rr.h \in {-1, 0, 1} /\ Fits(agg) /\ n.f.t = Feature(kind, "0", "0").t,
                h |-> 1 + Max2(L.h, Rr.h), lh |-> L.h, rh |-> Rr.h, agg |-> agg,
                hash |-> IF Counted(kind) THEN NodeHashCount(kv, L.hash, Rr.hash, agg.n) ELSE NodeHash(kv, L.hash, Rr.hash),
                ks |-> L.ks \o <<n.k>> \o Rr.ks]
Sorted(ks) == \A i \in 1..(Len(ks) - 1) : BLess(ks[i], ks[i + 1])
=============================================================================
