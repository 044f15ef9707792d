----------------------------- MODULE GroveBatch -----------------------------
(* Batches: what a list of operations amounts to. An operation is           *)
(*   [b: what, p, k, el, ref, hop, fl, trust, kind, beh, val]               *)
(* The result does not depend on the order in which they are listed, as     *)
(* long as no two of them name the same place.                              *)
EXTENDS Grove
Puts == {"ior", "ifn", "ifs", "ik", "rep", "pat"}
Dels == {"del", "delt"}
At(o) == Append(o.p, o.k)
\* two operations for one place, or something put below what is deleted
Contradicts(ops) ==
  \/ \E i, j \in DOMAIN ops : i < j /\ At(ops[i]) = At(ops[j])
  \/ \E i, j \in DOMAIN ops : ops[i].b \in Puts /\ ops[j].b \in Dels /\ Under(At(ops[j]), ops[i].p)
\* the last one counts
Latest(ops) == {i \in DOMAIN ops : ~\E j \in DOMAIN ops : j > i /\ At(ops[j]) = At(ops[i])}
EmptyBut(T, p, ks) == IF T[p].k \in Merks THEN DOMAIN T[p].es \subseteq ks ELSE T[p].vals = <<>>
\* keys of tree p that go, whatever is skipped
Going(ops, on, p) == {ops[i].k : i \in {j \in on : ops[j].p = p /\ (ops[j].b = "del" \/ (ops[j].b = "delt" /\ ops[j].beh # "skip"))}}
Checks(o) == o.b = "delt" /\ o.beh \in {"error", "skip"}
Remains(T, ops, on, i) == Checks(ops[i]) /\ (IF IsTree(T, At(ops[i])) THEN ~EmptyBut(T, At(ops[i]), Going(ops, on, At(ops[i]))) ELSE FALSE)
\* the batch as one operation on T; hash as for Insert
Rest(T, ops, no, nt, check, hash(_, _)) ==
  LET on == Latest(ops)
      skip == {i \in on : (ops[i].b = "delt" /\ ops[i].beh = "skip" /\ Remains(T, ops, on, i)) \/ (ops[i].b = "ifs" /\ Has(T, ops[i].p, ops[i].k))}
      act == on \ skip
      dels == {i \in act : ops[i].b \in Dels}
      puts == {i \in act : ops[i].b \in Puts}
      refr == {i \in act : ops[i].b = "refresh"}
      touch == {i \in act : ops[i].b = "touch"}
      gone == UNION {Below(T, At(ops[i])) : i \in dels}
      cut(X, i) == IF Has(X, ops[i].p, ops[i].k) THEN Delete1(X, ops[i].p, ops[i].k) ELSE X
      D == [p \in DOMAIN T \ gone |->
              [T[p] EXCEPT !.es = [k \in DOMAIN T[p].es \ {ops[i].k : i \in {j \in dels : ops[j].p = p}} |-> T[p].es[k]]]]
      \* what the batch puts where; refreshed references are put as well
      fresh(i) == IF ops[i].trust THEN [Blank("ref") EXCEPT !.ref = ops[i].ref, !.hop = ops[i].hop, !.fl = ops[i].fl]
                  ELSE T[ops[i].p].es[ops[i].k].e
      what(i) == IF ops[i].b = "refresh" THEN fresh(i) ELSE Static(ops[i].el)
      all == puts \cup refr
      news == {i \in all : what(i).k \in Trees}
      roots == {At(ops[i]) : i \in news}
      E == [p \in (DOMAIN D \ UNION {Below(D, At(ops[i])) : i \in all}) \cup roots |->
              IF p \in roots THEN LET i == CHOOSE i \in news : At(ops[i]) = p IN EmptyTree(what(i).k, what(i).p) ELSE D[p]]
      U0 == [p \in DOMAIN E |->
              LET mine == {i \in all : ops[i].p = p} IN
              IF mine = {} THEN E[p]
              ELSE [E[p] EXCEPT !.es = [k \in DOMAIN @ \cup {ops[i].k : i \in mine} |->
                      IF \E i \in mine : ops[i].k = k THEN [e |-> what(CHOOSE i \in mine : ops[i].k = k), rh |-> ""] ELSE @[k]]]]
      refs == {i \in all : what(i).k = "ref"}
      hops(i) == IF what(i).hop = <<>> THEN MaxHops ELSE IF what(i).hop[1] > MaxHops THEN MaxHops ELSE what(i).hop[1]
      first(i) == R!Resolve(what(i).ref, ops[i].p, ops[i].k)
      goal(i) == IF first(i) = <<>> THEN <<>> ELSE Follow(U0, first(i)[1], {}, hops(i))
      U == [p \in DOMAIN U0 |->
              LET mine == {i \in refs : ops[i].p = p} IN
              IF mine = {} THEN U0[p]
              ELSE [U0[p] EXCEPT !.es = [k \in DOMAIN @ |->
                      IF \E i \in mine : ops[i].k = k
                      THEN LET i == CHOOSE i \in mine : ops[i].k = k IN [@[k] EXCEPT !.rh = hash(U0, goal(i))]
                      ELSE @[k]]]]
      touched == {ops[i].p : i \in act}
  IN CASE ops = <<>> -> Same(T, Ok(0))
       [] check /\ Contradicts(ops) -> Fail(T)
       [] \E i \in on : BLen(ops[i].k) > 255 -> Fail(T)
       \* an emptiness check needs a tree
       [] \E i \in on : Checks(ops[i]) /\ ~IsTree(T, At(ops[i])) -> Fail(T)
       [] \E i \in on : ops[i].b = "delt" /\ ops[i].beh = "error" /\ Remains(T, ops, on, i) -> Fail(T)
       \* the options are about what is asked for, also where it would be skipped
       [] \E i \in on : ops[i].b \in Puts /\ Has(T, ops[i].p, ops[i].k) /\ (no \/ ops[i].b = "ifn") -> Fail(T)
       [] nt /\ (\E i \in on : ops[i].b \in Puts /\ Has(T, ops[i].p, ops[i].k) /\ T[ops[i].p].es[ops[i].k].e.k \in Trees) -> Fail(T)
       [] \E i \in refr : ~ops[i].trust /\ (IF Has(T, ops[i].p, ops[i].k) THEN T[ops[i].p].es[ops[i].k].e.k # "ref" ELSE TRUE) -> Fail(T)
       [] \E i \in all \cup touch : ~IsMerk(E, ops[i].p) -> Fail(T)
       [] \E i \in puts : ops[i].el.k \in Merks /\ ops[i].el.root # <<>> -> Fail(T)
       [] \E i \in on : ops[i].b \in Puts /\ ops[i].el.k \in {"sumitem", "itemsum"} /\ ops[i].p \in DOMAIN E /\ ~AllowsSum(E[ops[i].p].k) -> Fail(T)
       \* changing what is inside of something that is to become no tree
       [] \E i \in act, j \in on : ops[j].b \notin Dels /\ Under(At(ops[j]), ops[i].p) /\ (IF ops[j].b \in {"refresh", "touch"} THEN TRUE ELSE ops[j].el.k \notin Trees) -> Fail(T)
       \* deleting where nothing ever was
       [] \E i \in dels : ~IsMerk(T, ops[i].p) /\ ~IsMerk(E, ops[i].p) -> Fail(T)
       \* deleting what is changed at the same time, unless nothing is left of it
       [] \E i \in dels : LET t == At(ops[i]) IN
            /\ t \in DOMAIN T /\ T[t].k \in Merks
            /\ \E j \in act : Under(t, ops[j].p)
            /\ \/ DOMAIN T[t].es \ {ops[j].k : j \in {m \in dels : ops[m].p = t}} # {}
               \/ \E j \in all \cup touch : ops[j].p = t -> Fail(T)
       [] \E i \in refs : goal(i) = <<>> -> Fail(T)
       [] \E i \in refs : U0[goal(i)[1]].es[goal(i)[2]].e.k \in Trees -> Fail(T)
       [] \E p \in DOMAIN U : ~Fits(Agg(U, p)) -> Fail(T)
       [] OTHER -> [Res(U, 0) EXCEPT !.st = IF \E p \in touched \cap DOMAIN U : Tight(U, p) THEN {"ok", "err"} ELSE @]
\* what is appended [b: "app", p, k, kind, val] is appended first, in the order listed
Vals(ops, at) == LET m == SelectSeq(ops, LAMBDA o : o.b = "app" /\ At(o) = at) IN [i \in 1..Len(m) |-> m[i].val]
Batch(T, ops, no, nt, check, hash(_, _)) ==
  LET app == {i \in DOMAIN ops : ops[i].b = "app"}
      first == {i \in app : ~\E j \in app : j < i /\ At(ops[j]) = At(ops[i])}
      ats == {At(ops[i]) : i \in app}
      rest == SelectSeq([i \in DOMAIN ops |-> IF i \in first THEN [b |-> "touch", p |-> ops[i].p, k |-> ops[i].k] ELSE ops[i]], LAMBDA o : o.b # "app")
  IN IF app = {} THEN Rest(T, ops, no, nt, check, hash)
     ELSE IF check /\ \/ \E i, j \in app : i < j /\ At(ops[i]) = At(ops[j]) /\ ops[i].kind = ops[j].kind /\ ops[i].val = ops[j].val
                      \/ \E i \in app, j \in DOMAIN ops : ops[j].b \in Dels /\ At(ops[i]) = At(ops[j])
     THEN Fail(T)
     ELSE IF \E i \in app : ~IsOf(T, ops[i].p, ops[i].k, ops[i].kind) \/ ~ValOk(ops[i].kind, ops[i].val) THEN Fail(T)
     ELSE IF \E c \in ats : ~Room(T[c], Len(Vals(ops, c))) THEN Fail(T)
     ELSE LET U == [c \in DOMAIN T |-> IF c \in ats THEN [T[c] EXCEPT !.vals = @ \o Vals(ops, c)] ELSE T[c]]
              r == Rest(U, rest, no, nt, check, hash)
          IN IF "err" \in r.st /\ "ok" \notin r.st THEN Fail(T) ELSE [r EXCEPT !.w = TRUE]
=============================================================================
