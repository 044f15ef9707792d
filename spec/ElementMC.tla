------------------------------ MODULE ElementMC ------------------------------
(* Every element over small field values: what is written is read back, two *)
(* elements are never written alike, and contributions agree with kinds.    *)
EXTENDS Element, Json, TLC
CONSTANTS Bs, Sums, BigSums, Ns, Ps, Paths
VARIABLES el
PathSet == {<<>>, <<"">>, <<"61", "6262">>}
opts(S) == {<<>>} \cup {<<x>> : x \in S}
refs == {[t |-> t, n |-> n, p |-> p] : t \in {"root", "root_parent", "from_end"}, n \in Ps, p \in Paths}
        \cup {[t |-> t, n |-> 0, p |-> p] : t \in {"abs", "removed_cousin"}, p \in Paths}
        \cup {[t |-> t, n |-> 0, p |-> <<b>>] : t \in {"cousin", "sibling"}, b \in Bs}
Of(k) ==
  LET fs == {Layout(k)[i] : i \in 1..Len(Layout(k))} IN
  {[k |-> k, b |-> b, s |-> s, n |-> n, root |-> r, ref |-> f, hop |-> h, fl |-> fl, p |-> p] :
     b \in IF "b" \in fs THEN Bs ELSE {""},
     s \in IF "s" \in fs THEN Sums ELSE IF "S" \in fs THEN BigSums ELSE {"0"},
     n \in IF "n" \in fs THEN Ns ELSE IF "N" \in fs THEN {x \in Ns : ILess(x, "65536")} ELSE {"0"},
     r \in IF "root" \in fs THEN opts(Bs) ELSE {<<>>},
     f \in IF "ref" \in fs THEN refs ELSE {[t |-> "abs", n |-> 0, p |-> <<>>]},
     h \in IF "hop" \in fs THEN opts(Ps) ELSE {<<>>},
     fl \in opts(Bs), p \in IF "p" \in fs THEN Ps ELSE {0}}
Init == /\ \E k \in KindSet : el \in Of(k)
        /\ Emit(Env("SCHED_OUT", ""), ToJson([el |-> el]))
Next == FALSE /\ UNCHANGED el
Spec == Init /\ [][Next]_el
RoundTrip == LET b == EncEl(el) IN REl(b, 0) = <<el, BLen(b)>>
\* no cut of it is an element, and its first byte tells its kind
Cuts == LET b == EncEl(el) IN
        /\ BAt(b, 0) = Disc(el.k)
        /\ \A n \in 0..(BLen(b) - 1) : REl(BSub(b, 0, n), 0) = <<>>
Agree == /\ Sum(el) = "0" \/ el.k \in HasSum
         /\ (el.k \notin HasCount) => Count(el) = "1"
         /\ InTree(el, "countsumtree") = [t |-> "countsum", n |-> Count(el), s |-> Sum(el)]
         /\ Is(el).any_tree = (OfTree(el) # <<>>) /\ Is(el).any_tree = ~(el.k \in Items \cup {"ref"})
=============================================================================
