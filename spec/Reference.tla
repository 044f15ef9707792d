------------------------------ MODULE Reference ------------------------------
(* Reference kinds and the absolute path each denotes when it is stored at  *)
(* path/key. ref = [t, n, p]: kind, number, path (or a single key in p).    *)
EXTENDS Naturals, Sequences, FiniteSets, Prims
RefKinds == {"abs", "root", "root_parent", "from_end", "cousin", "removed_cousin", "sibling"}
First(s, n) == SubSeq(s, 1, n)
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* <<>> when the location is too short, otherwise <<absolute path of the target>>
Resolve(ref, path, key) ==
  LET L == Len(path) IN
  CASE ref.t = "abs" -> <<ref.p>>
    [] ref.t = "root" -> IF ref.n > L THEN <<>> ELSE <<First(path, ref.n) \o ref.p>>
    [] ref.t = "root_parent" -> IF ref.n > L \/ L = 0 THEN <<>> ELSE <<First(path, ref.n) \o ref.p \o <<path[L]>> >>
    [] ref.t = "from_end" -> IF ref.n > L THEN <<>> ELSE <<First(path, L - ref.n) \o ref.p>>
    [] ref.t \in {"cousin", "removed_cousin"} -> IF L = 0 THEN <<>> ELSE <<Front(path) \o ref.p \o <<key>> >>
    [] ref.t = "sibling" -> <<path \o ref.p>>
\* resolving without a key: the cousins need it
ResolveNoKey(ref, path) == IF ref.t \in {"cousin", "removed_cousin"} THEN <<>> ELSE Resolve(ref, path, "")
\* an inversion, where one of the seven kinds can express it relative to the target
Invert(ref, path, key) ==
  LET L == Len(path) IN
  CASE ref.t = "abs" -> <<[t |-> "abs", n |-> 0, p |-> Append(path, key)]>>
    [] ref.t \in {"root", "root_parent"} ->
         IF ref.n > L \/ (ref.t = "root" /\ ref.p = <<>>) THEN <<>>
         ELSE <<[t |-> "root", n |-> ref.n, p |-> SubSeq(path, ref.n + 1, L) \o <<key>>]>>
    [] ref.t = "from_end" -> IF ref.n > L \/ ref.p = <<>> \/ Len(ref.p) > 255 THEN <<>>
         ELSE <<[t |-> "from_end", n |-> Len(ref.p) - 1, p |-> SubSeq(path, L - ref.n + 1, L) \o <<key>>]>>
    [] ref.t = "cousin" -> IF L = 0 THEN <<>> ELSE <<[t |-> "cousin", n |-> 0, p |-> <<path[L]>>]>>
    [] ref.t = "removed_cousin" -> IF L = 0 \/ Len(ref.p) > 255 THEN <<>>
         ELSE <<[t |-> "from_end", n |-> Len(ref.p), p |-> <<path[L], key>>]>>
    [] ref.t = "sibling" -> <<[t |-> "sibling", n |-> 0, p |-> <<key>>]>>
\* inv, stored at the target of ref, leads back to path/key
LeadsBack(ref, inv, path, key) ==
  LET t == Resolve(ref, path, key) IN
  (t # <<>> /\ t[1] # <<>>) => Resolve(inv, Front(t[1]), t[1][Len(t[1])]) = <<Append(path, key)>>
=============================================================================
