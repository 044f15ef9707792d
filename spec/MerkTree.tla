------------------------------ MODULE MerkTree ------------------------------
(* How a key-value tree absorbs a sorted batch of puts and deletes: the     *)
(* batch is split around each node, fresh subtrees are built from the       *)
(* middle out, removed nodes are replaced by the edge of the taller child,  *)
(* and every node on the way back is rebalanced by rotations.               *)
(* Trees: <<>> or <<key, left, right, height>>; batches: sequences of       *)
(* [k, op] with ascending keys.                                             *)
EXTENDS Naturals, Integers, Sequences
H(t) == IF t = <<>> THEN 0 ELSE t[4]
Max(a, b) == IF a > b THEN a ELSE b
N(k, a, b) == <<k, a, b, 1 + Max(H(a), H(b))>>
Kid(t, left) == IF left THEN t[2] ELSE t[3]
Set(t, left, c) == IF left THEN N(t[1], c, t[3]) ELSE N(t[1], t[2], c)
BF(t) == H(t[3]) - H(t[2])
RECURSIVE Balance(_), Rotate(_, _)
Balance(t) ==
  IF BF(t) \in {-1, 0, 1} THEN t
  ELSE LET left == BF(t) < 0
           c == Kid(t, left)
           u == IF left = (BF(c) > 0) THEN Set(t, left, Rotate(c, ~left)) ELSE t
       IN Rotate(u, left)
Rotate(t, left) ==
  LET c == Kid(t, left) g == Kid(c, ~left)
  IN Balance(Set(c, ~left, Balance(Set(t, left, g))))
RECURSIVE RemoveEdge(_, _)
RemoveEdge(t, left) ==    \* <<edge node, rest>>
  IF Kid(t, left) = <<>> THEN <<t, Kid(t, ~left)>>
  ELSE LET e == RemoveEdge(Kid(t, left), left) IN <<e[1], Balance(Set(t, left, e[2]))>>
PromoteEdge(t, left, short) ==
  LET e == RemoveEdge(t, left) IN Balance(Set(Set(e[1], ~left, e[2]), left, short))
Remove(t) ==
  LET left == H(t[2]) > H(t[3]) IN
  IF t[2] # <<>> /\ t[3] # <<>> THEN PromoteEdge(Kid(t, left), ~left, Kid(t, ~left)) ELSE Kid(t, left)
\* the first index whose key is >= k
Search(b, k) == CHOOSE i \in 1..(Len(b) + 1) : (\A j \in 1..(i - 1) : b[j].k < k) /\ (i = Len(b) + 1 \/ b[i].k >= k)
Before(b, i) == SubSeq(b, 1, i - 1)
After(b, i) == SubSeq(b, i + 1, Len(b))
RECURSIVE ApplyTo(_, _), Apply(_, _), Build(_), Recurse(_, _, _)
ApplyTo(t, b) == IF t = <<>> THEN Build(b) ELSE Apply(t, b)
Build(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET mid == Len(b) \div 2 + 1 IN
       IF b[mid].op = "del" THEN ApplyTo(Build(Before(b, mid)), After(b, mid))
       ELSE Recurse(N(b[mid].k, <<>>, <<>>), Before(b, mid), After(b, mid))
Recurse(t, lb, rb) ==
  LET u == IF lb = <<>> THEN t ELSE Set(t, TRUE, ApplyTo(t[2], lb))
      w == IF rb = <<>> THEN u ELSE Set(u, FALSE, ApplyTo(u[3], rb))
  IN Balance(w)
Apply(t, b) ==
  LET i == Search(b, t[1])
      hit == i <= Len(b) /\ b[i].k = t[1] IN
  IF hit /\ b[i].op = "del"
  THEN LET r == Remove(t)
           x == IF i = 1 THEN r ELSE ApplyTo(r, Before(b, i))
       IN IF i = Len(b) THEN x ELSE ApplyTo(x, After(b, i))
  ELSE Recurse(t, Before(b, i), IF hit THEN After(b, i) ELSE SubSeq(b, i, Len(b)))
RECURSIVE Keys(_), AVL(_)
Keys(t) == IF t = <<>> THEN <<>> ELSE Keys(t[2]) \o <<t[1]>> \o Keys(t[3])
AVL(t) == t = <<>> \/ (BF(t) \in {-1, 0, 1} /\ AVL(t[2]) /\ AVL(t[3]))
Ordered(t) == LET k == Keys(t) IN \A i \in 1..(Len(k) - 1) : k[i] < k[i + 1]
=============================================================================
