------------------------------- MODULE Results -------------------------------
(* Sets of query results [t: "e" element | "k" with key | "p" with path and  *)
(* key, path, key, el] and the shapes they are converted to.                 *)
EXTENDS Naturals, Sequences
RECURSIVE Filter(_, _)
Filter(rs, ts) == IF rs = <<>> THEN <<>> ELSE (IF rs[1].t \in ts THEN <<rs[1]>> ELSE <<>>) \o Filter(Tail(rs), ts)
Keyed(rs) == Filter(rs, {"k", "p"})
Placed(rs) == Filter(rs, {"p"})
Els(rs) == [i \in 1..Len(rs) |-> rs[i].el]
Keys(rs) == [i \in 1..Len(rs) |-> rs[i].key]
Pairs(rs) == [i \in 1..Len(rs) |-> <<rs[i].key, rs[i].el>>]
Trios(rs) == [i \in 1..Len(rs) |-> <<rs[i].path, rs[i].key, rs[i].el>>]
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* a map built from <<key, value>> in order: the last value of a key stays
MapOf(ps) == {ps[i] : i \in {j \in 1..Len(ps) : \A x \in (j + 1)..Len(ps) : ps[x][1] # ps[j][1]}}
\* <<key, value>> in order, as each key with its values
RECURSIVE Values(_, _)
Values(ps, k) == IF ps = <<>> THEN <<>> ELSE (IF ps[1][1] = k THEN <<ps[1][2]>> ELSE <<>>) \o Values(Tail(ps), k)
Groups(ps) == {<<k, Values(ps, k)>> : k \in {ps[i][1] : i \in 1..Len(ps)}}
GroupMaps(ps) == {<<g[1], MapOf(g[2])>> : g \in Groups(ps)}
\* the last segment but n of the path of each result that has one, with something of the result
By(rs, n, F(_)) == LET w == SelectSeq(rs, LAMBDA r : Len(r.path) > n) IN [i \in 1..Len(w) |-> <<w[i].path[Len(w[i].path) - n], F(w[i])>>]
\* nested levels, as the set of <<path with key, element>>: an entry replaces what
\* was at its place, be it an element or a level, and a level replaces an element
Begins(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
RECURSIVE Levels(_)
Levels(rs) ==
  IF rs = <<>> THEN {}
  ELSE LET r == rs[Len(rs)] at == Append(r.path, r.key)
           before == Levels(SubSeq(rs, 1, Len(rs) - 1))
       IN {x \in before : ~Begins(at, x[1]) /\ ~Begins(x[1], at)} \cup {<<at, r.el>>}
LenAt(ls, p) == LET under == {x \in ls : Begins(p, x[1]) /\ Len(x[1]) > Len(p)} IN
                LET s == {x[1][Len(p) + 1] : x \in under} IN s
=============================================================================
