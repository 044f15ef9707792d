------------------------------- MODULE Query -------------------------------
(* What a nested query selects in an (unbounded) hierarchy of keys.         *)
(* Query:  [items, def, cond, left, par]; branch: [path: seq of 0/1 paths,  *)
(* sub: seq of 0/1 queries]; cond: seq of <<item, branch>>, first match     *)
(* wins. A selected key whose branch is empty is itself the answer;         *)
(* otherwise the branch is followed below it: first its path, then its      *)
(* subquery (or, without one, the end of the path is the answer).           *)
EXTENDS QueryItem
Bare(b) == b.path = <<>> /\ b.sub = <<>>
BPath(b) == IF b.path = <<>> THEN <<>> ELSE b.path[1]
RECURSIVE FirstCond(_, _)
FirstCond(cond, k) == IF cond = <<>> THEN <<>>
                      ELSE IF QIn(cond[1][1], k) THEN <<cond[1][2]>> ELSE FirstCond(Tail(cond), k)
Branch(q, k) == LET c == FirstCond(q.cond, k) IN IF c = <<>> THEN q.def ELSE c[1]
Seg(p, a) == SubSeq(p, a, Len(p))
\* the path of keys p (non-empty) is an answer of q
RECURSIVE Sel(_, _)
Sel(q, p) ==
  /\ QAnyIn(q.items, p[1])
  /\ LET b == Branch(q, p[1]) s == BPath(b) n == Len(s) IN
     IF Bare(b) THEN Len(p) = 1
     ELSE IF b.sub = <<>> THEN Seg(p, 2) = s
     ELSE /\ Len(p) > n + 1
          /\ SubSeq(p, 2, n + 1) = s
          /\ Sel(b.sub[1], Seg(p, n + 2))
\* q looks inside the element at p
RECURSIVE Into(_, _)
Into(q, p) ==
  /\ QAnyIn(q.items, p[1])
  /\ LET b == Branch(q, p[1]) s == BPath(b) n == Len(s) IN
     IF Bare(b) THEN FALSE
     ELSE IF Len(p) <= n + 1
          THEN /\ Seg(p, 2) = SubSeq(s, 1, Len(p) - 1)
               /\ Len(p) = n + 1 => b.sub # <<>>
          ELSE SubSeq(p, 2, n + 1) = s /\ b.sub # <<>> /\ Into(b.sub[1], Seg(p, n + 2))
RECURSIVE AllWf(_)
BranchWf(b) == /\ (b.path # <<>> => b.path[1] # <<>>)
               /\ (b.sub # <<>> => AllWf(b.sub[1]))
AllWf(q) == /\ \A n \in 1..Len(q.items) : ~QEmpty(q.items[n])
            /\ BranchWf(q.def) /\ \A n \in 1..Len(q.cond) : BranchWf(q.cond[n][2])
=============================================================================
