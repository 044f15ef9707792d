---------------------------- MODULE MerkAttackMC ----------------------------
(* Verification of a proof over a small key-value tree against an attacker  *)
(* who assembles it from the true nodes, shown to any degree, and one       *)
(* invented entry, with every operation of the proof language. Hashes are   *)
(* symbolic: a stack entry's hash is the true hash of a subtree only if it  *)
(* is that subtree. Sound: what verifies to the root hash is the answer.    *)
(* Oriented = FALSE (operations of both directions may be mixed) and        *)
(* HashLeaf = FALSE (entries may hang below a bare hash) are the two        *)
(* defects the code had; TLC finds a forgery for each.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Prims
CONSTANTS MaxOps, Oriented, HashLeaf, BothWays
Leaf(k) == [k |-> k, l |-> <<>>, r |-> <<>>]
Shapes == {[k |-> 20, l |-> <<Leaf(10)>>, r |-> <<Leaf(30)>>],
           [k |-> 20, l |-> <<Leaf(10)>>, r |-> <<>>],
           [k |-> 20, l |-> <<>>, r |-> <<Leaf(30)>>],
           Leaf(20)}
RECURSIVE Sub(_)
Sub(t) == {t} \cup UNION {Sub(t.l[i]) : i \in 1..Len(t.l)} \cup UNION {Sub(t.r[i]) : i \in 1..Len(t.r)}
KeysOf(t) == {s.k : s \in Sub(t)}
At(t, k) == CHOOSE s \in Sub(t) : s.k = k
Shown == {"hash", "kvhash", "digest", "kv"}
Fakes == {15, 25}
\* stack entries: [n: node kind, k: key, ch: what hangs left and right: sequences of 0/1 hashes]
\* a hash is the key of the true subtree it is the hash of, or 0
HashOf(t, e) ==
  IF e.n = "hash" THEN e.k
  ELSE IF e.n = "fake" THEN 0
  ELSE LET s == At(t, e.k) want == <<[i \in 1..Len(s.l) |-> s.l[i].k], [i \in 1..Len(s.r) |-> s.r[i].k]>> IN
       IF e.ch = want THEN e.k ELSE 0
VARIABLES tree, ops, stack, seen
vars == <<tree, ops, stack, seen>>
Dirs == IF BothWays THEN {"push", "pushinv"} ELSE {"push"}
Used(k) == \E i \in 1..Len(seen) : seen[i][2] = k
Push(d, n, k) ==
  /\ Len(stack) < 3
  /\ n # "fake" => ~Used(k)
  /\ n = "fake" => \A i \in 1..Len(seen) : seen[i][1] # "fake"
  /\ stack' = Append(stack, [n |-> n, k |-> k, ch |-> <<<<>>, <<>>>>])
  /\ seen' = Append(seen, <<n, k, d>>)
  /\ ops' = Append(ops, [o |-> d, n |-> n, k |-> k])
\* attach child below parent; left: as its left child
Attach(name, parentOnTop, left) ==
  /\ Len(stack) >= 2
  /\ LET a == stack[Len(stack)] b == stack[Len(stack) - 1]
         p == IF parentOnTop THEN a ELSE b
         c == IF parentOnTop THEN b ELSE a
         side == IF left THEN 1 ELSE 2
     IN /\ p.ch[side] = <<>>
        /\ HashLeaf => p.n # "hash"
        /\ stack' = SubSeq(stack, 1, Len(stack) - 2) \o <<[p EXCEPT !.ch[side] = <<HashOf(tree, c)>>]>>
        \* keep only assemblies that can still have a true hash
        /\ IF p.n \in {"hash", "fake"} THEN TRUE
           ELSE LET s == At(tree, p.k) want == IF left THEN s.l ELSE s.r IN
                IF want = <<>> THEN FALSE ELSE want[1].k = HashOf(tree, c)
  /\ ops' = Append(ops, [o |-> name, n |-> "", k |-> 0])
  /\ UNCHANGED seen
Init == tree \in Shapes /\ ops = <<>> /\ stack = <<>> /\ seen = <<>>
Next == /\ Len(ops) < MaxOps /\ UNCHANGED tree
        /\ \/ \E d \in Dirs, n \in Shown, k \in KeysOf(tree) : Push(d, n, k)
           \/ \E d \in Dirs, k \in Fakes : Push(d, "fake", k)
           \/ Attach("parent", TRUE, TRUE) \/ Attach("child", FALSE, FALSE)
           \/ (BothWays /\ (Attach("parentinv", TRUE, FALSE) \/ Attach("childinv", FALSE, TRUE)))
Spec == Init /\ [][Next]_vars
RootMatches == Len(stack) = 1 /\ HashOf(tree, stack[1]) = tree.k
Names(n) == n \in {"digest", "kv", "fake"}
Has(n) == n \in {"kv", "fake"}
OrderOk == \A i, j \in 1..Len(seen) : (i < j /\ Names(seen[i][1]) /\ Names(seen[j][1])
              /\ \A m \in (i + 1)..(j - 1) : ~Names(seen[m][1])) =>
              IF seen[j][3] = "push" THEN seen[i][2] < seen[j][2] ELSE seen[i][2] > seen[j][2]
\* queries: intervals [lo, hi] of keys
Queries == {<<a, b>> \in (5..35) \X (5..35) : a <= b /\ a % 5 = 0 /\ b % 5 = 0}
In(q, k) == q[1] <= k /\ k <= q[2]
OneWay(left) == \A i \in 1..Len(ops) : ops[i].o \in (IF left THEN {"push", "parent", "child"} ELSE {"pushinv", "parentinv", "childinv"})
\* keys between neighbours named in the visiting order are all accounted for unless something hidden is between
Bound(i, left) == IF i = 0 THEN (IF left THEN -1 ELSE 1000) ELSE IF i = Len(seen) + 1 THEN (IF left THEN 1000 ELSE -1) ELSE seen[i][2]
Gaps == {<<i, j>> \in (0..Len(seen)) \X (1..(Len(seen) + 1)) : i < j - 1 /\ (i = 0 \/ Names(seen[i][1])) /\ (j = Len(seen) + 1 \/ Names(seen[j][1]))
          /\ \A m \in (i + 1)..(j - 1) : ~Names(seen[m][1])}
GapHits(g, q, left) == LET a == Bound(g[1], left) b == Bound(g[2], left)
                           lo == IF left THEN a ELSE b hi == IF left THEN b ELSE a
                       IN \E k \in 0..40 : k % 5 = 0 /\ lo < k /\ k < hi /\ In(q, k)
Accepts(q, left) ==
  /\ RootMatches /\ OrderOk
  /\ Oriented => OneWay(left)
  /\ \A i \in 1..Len(seen) : seen[i][1] = "digest" => ~In(q, seen[i][2])
  /\ \A g \in Gaps : ~GapHits(g, q, left)
RECURSIVE Said(_, _)
Said(q, s) == IF s = <<>> THEN <<>> ELSE (IF Has(s[1][1]) /\ In(q, s[1][2]) THEN <<<<s[1][2], s[1][1] = "kv">>>> ELSE <<>>) \o Said(q, Tail(s))
RECURSIVE SortedKeys(_)
SortedKeys(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedKeys(S \ {m})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Truth(q, left) == LET ks == SortedKeys({k \in KeysOf(tree) : In(q, k)}) o == IF left THEN ks ELSE Rev(ks) IN [i \in 1..Len(o) |-> <<o[i], TRUE>>]
Sound == RootMatches => \A q \in Queries : \A left \in {TRUE, FALSE} : Accepts(q, left) => Said(q, seen) = Truth(q, left)
\* every interval query has an accepted assembly among those explored: checked by the driver's honest proofs
Out == RootMatches => Emit(Env("SCHED_OUT", ""), ToJson([tree |-> tree, ops |-> ops]))
=============================================================================
