---------------------------- MODULE ResultsTrace ----------------------------
(* Result sets and proved rows converted to other shapes.                    *)
EXTENDS Results, Json, TLC, IOUtils, FiniteSets, Prims
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, z
vars == <<l, z>>
Row2(x) == [i \in 1..Len(x) |-> <<x[i][1], x[i][2]>>]
Row3(x) == [i \in 1..Len(x) |-> <<x[i][1], x[i][2], x[i][3]>>]
\* a map as driven: distinct keys, any values
IsMap(got, want) == Len(got) = Cardinality(want) /\ SetOf(Row2(got)) = want
IsMapOfMaps(got, want) ==
  /\ Len(got) = Cardinality(want)
  /\ {<<got[i][1], SetOf(Row2(got[i][2]))>> : i \in 1..Len(got)} = want
  /\ \A i \in 1..Len(got) : Len(got[i][2]) = Cardinality(SetOf(Row2(got[i][2])))
Shapes(rs, v) ==
  LET k == Keyed(rs) p == Placed(rs) pairs == Pairs(k)
      key(r) == r.key  el(r) == r.el  pair(r) == <<r.key, r.el>> IN
  /\ v.len = Len(rs) /\ v.empty = (rs = <<>>)
  /\ v.iter = rs
  /\ v.elements = Els(rs)
  /\ Row2(v.pairs) = pairs
  /\ v.keys = Keys(k)
  /\ IsMap(v.btree, MapOf(pairs)) /\ IsMap(v.hash, MapOf(pairs))
  /\ Row3(v.trios) = Trios(p)
  /\ IsMap(v.pathkey, MapOf([i \in 1..Len(p) |-> <<Append(p[i].path, p[i].key), p[i].el>>]))
  /\ IsMap(v.lastkeys, Groups(By(p, 0, key)))
  /\ IsMap(v.lastels, Groups(By(p, 0, el)))
  /\ IsMap(v.prevkeys, Groups(By(p, 1, key)))
  /\ IsMapOfMaps(v.lastmap, GroupMaps(By(p, 0, pair)))
  /\ IsMapOfMaps(v.pathmap, GroupMaps([i \in 1..Len(p) |-> <<p[i].path, pair(p[i])>>]))
  /\ IsMap(v.levels, Levels(p))
  /\ \A i \in 1..Len(v.lens) : v.lens[i][2] = Cardinality(LenAt(Levels(p), v.lens[i][1]))
\* a proved row as an element row: the bytes are decoded, nothing else changes
Step(r) ==
  CASE r.e = "results" -> r.st = "ok" /\ Shapes(r.rows, r.v)
    [] r.e = "row" ->
         LET opt == r.row.value
             both == <<r.row.path, r.row.key, r.row.value, r.row.proof>> IN
         /\ r.st = "ok"
         /\ r.v.optional = <<both>>
         /\ r.v.back = (IF opt = <<>> THEN <<>> ELSE <<both>>)
         /\ r.v.merk = <<<<r.row.key, opt, r.row.proof>>>>
         /\ r.v.merkback = (IF opt = <<>> THEN <<>> ELSE <<<<r.row.key, opt, r.row.proof>>>>)
         /\ r.v.many = <<both, both>>
         /\ IF opt = <<>> \/ r.el # "" THEN r.v.element = <<<<r.row.path, r.row.key, IF opt = <<>> THEN <<>> ELSE <<r.el>>>>>>
            ELSE r.v.element = <<>>
         /\ r.v.certain = (IF opt = <<>> \/ r.el = "" THEN <<>> ELSE <<<<r.row.path, r.row.key, <<r.el>>>>>>)
    [] OTHER -> FALSE
Init == l = 1 /\ z = 0
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED z
Spec == Init /\ [][Next]_vars
=============================================================================
