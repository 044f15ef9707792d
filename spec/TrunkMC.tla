------------------------------- MODULE TrunkMC -------------------------------
(* Reading a balanced tree chunk by chunk: the trunk, then a branch for a    *)
(* boundary key, and so on. At every moment each key was seen or lies under  *)
(* exactly one boundary key still to be read; at the end all were seen.      *)
EXTENDS Trunk, TLC, Json, FiniteSets
CONSTANTS HMax, DMax, HEmit
Node(l, r) == <<[k |-> "", v |-> "", sup |-> "", own |-> "1", l |-> l, r |-> r]>>
RECURSIVE Shapes(_)
Shapes(h) == IF h = 0 THEN {<<>>} ELSE IF h = 1 THEN {Node(<<>>, <<>>)}
             ELSE {Node(l, r) : l \in Shapes(h - 1), r \in Shapes(h - 1)}
                  \cup {Node(l, r) : l \in Shapes(h - 1), r \in Shapes(h - 2)}
                  \cup {Node(l, r) : l \in Shapes(h - 2), r \in Shapes(h - 1)}
RECURSIVE Size(_)
Size(t) == IF t = <<>> THEN 0 ELSE 1 + Size(t[1].l) + Size(t[1].r)
RECURSIVE Number(_, _)
Number(t, n) == IF t = <<>> THEN <<>>
                ELSE LET m == n + Size(t[1].l) IN <<[t[1] EXCEPT !.k = BE(2 * m + 1, 1), !.l = Number(t[1].l, n), !.r = Number(t[1].r, m + 1)]>>
RECURSIVE Shape(_)
Shape(t) == IF t = <<>> THEN <<>> ELSE <<Shape(t[1].l), Shape(t[1].r)>>
VARIABLES t, d, seen, left
vars == <<t, d, seen, left>>
KeysOf(ns) == {ns[i].k : i \in DOMAIN ns}
Heads(ts) == {ts[i][1].k : i \in DOMAIN ts}
Init == /\ \E h \in 0..HMax : \E s \in Shapes(h) : t = Number(s, 0)
        /\ d \in 1..DMax
        /\ seen = KeysOf(Top(t, d)) /\ left = Heads(Bound(t, d))
Next == \E k \in left : \E e \in 2..DMax :
          LET b == Sub(t, k) IN
          /\ seen' = seen \cup KeysOf(Top(b, e))
          /\ left' = (left \ {k}) \cup Heads(Bound(b, e))
          /\ UNCHANGED <<t, d>>
All == KeysOf(TEntries(t))
\* what a boundary key's branch still holds
Below(k) == KeysOf(TEntries(Sub(t, k))) \ {k}
Covered ==
  /\ left \subseteq seen /\ seen \subseteq All
  /\ KeysOf(Above(t, left)) = seen
  /\ \A k \in All \ seen : \E b \in left : Leads(t, k, left) = <<b>> /\ k \in Below(b)
  /\ \A b \in left : Below(b) # {} /\ Below(b) \cap seen = {}
  /\ left = {} <=> seen = All
Heights == LET n == ToString(Size(t)) IN THeight(t) <= MaxHeight(n) /\ (Size(t) > 0 => MaxHeight(n) < 99)
\* a chunk as deep as the highest tree of this size leaves nothing
Enough == d >= MaxHeight(ToString(Size(t))) => left = {}
Splits == \A max \in 1..DMax : \A min \in {<<>>} \cup {<<m>> : m \in 1..max} :
            LET hh == 3 * d s == SplitFor(hh, max, min)
                RECURSIVE Sum(_) Sum(x) == IF x = <<>> THEN 0 ELSE x[1] + Sum(Tail(x)) IN
            /\ Sum(s) = hh /\ Len(s) = CeilDiv(hh, max) /\ \A i \in DOMAIN s : s[i] \in 1..max
            /\ (Len(s) > 1 /\ min # <<>>) => s[1] >= min[1]
            /\ \A i \in 2..Len(s) : (i > 2 => s[i] <= s[i - 1]) /\ s[i] <= s[1]
EmitT == THeight(t) <= HEmit /\ seen = KeysOf(Top(t, d)) /\ left = Heads(Bound(t, d)) => Emit(Env("SCHED_OUT", ""), ToJson([t |-> Shape(t), d |-> d]))
Spec == Init /\ [][Next]_vars
=============================================================================
