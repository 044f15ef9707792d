------------------------------ MODULE ResultsMC ------------------------------
(* Every short list of results over a few paths and keys: no conversion       *)
(* loses or invents anything where places differ and none lies below another. *)
EXTENDS Results, FiniteSets, Prims, Json, TLC
CONSTANTS MaxLen, Deep
VARIABLE rs
Segs == {"61", "62"}
Paths == UNION {[1..n -> Segs] : n \in 0..Deep}
Row == [t : {"p"}, path : Paths, key : Segs, el : {"00016100"}]
       \cup [t : {"k"}, path : {<<>>}, key : {"61"}, el : {"00016200"}]
       \cup [t : {"e"}, path : {<<>>}, key : {""}, el : {"00016200"}]
At(r) == Append(r.path, r.key)
Number(i) == <<"000000", "00016100", "00016200", "030200">>[i]
Init == rs = <<>>
Next == Len(rs) < MaxLen /\ \E r \in Row : rs' = Append(rs, [r EXCEPT !.el = Number(Len(rs) + 1)])
P == Placed(rs)
Apart == \A i, j \in 1..Len(P) : i # j => ~Begins(At(P[i]), At(P[j]))
Keeps ==
  /\ Len(Els(rs)) = Len(rs) /\ Len(Pairs(Keyed(rs))) + Cardinality({i \in 1..Len(rs) : rs[i].t = "e"}) = Len(rs)
  /\ \A x, y \in Levels(P) : x # y => ~Begins(x[1], y[1])
  /\ \A x \in Levels(P) : \E i \in 1..Len(P) : x = <<At(P[i]), P[i].el>>
  /\ (P # <<>> => <<At(P[Len(P)]), P[Len(P)].el>> \in Levels(P))
  /\ (Apart => Levels(P) = {<<At(P[i]), P[i].el>> : i \in 1..Len(P)})
  /\ \A p \in Paths : Cardinality(LenAt(Levels(P), p)) <= Cardinality(Levels(P))
EmitT == Emit(Env("SCHED_OUT", ""), ToJson(rs))
Spec == Init /\ [][Next]_rs
=============================================================================
