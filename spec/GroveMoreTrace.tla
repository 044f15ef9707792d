-------------------------- MODULE GroveMoreTrace --------------------------
(* A recording of several databases, one of them in use: a first one and    *)
(* checkpoints, each with a hierarchy and auxiliary data beside it          *)
(* (GroveAux). Operations may meet a fault of the store or a crash.         *)
EXTENDS GroveLog, GroveAux
VARIABLES aux, ov, here, cps
more == <<aux, ov, here, cps>>
SetOf(q) == {q[i] : i \in DOMAIN q}
\* the rows of the auxiliary column that make a of b
Rows(a, b) == {<<Cat(<<Zeros(32), k>>), IF k \in DOMAIN b THEN <<b[k]>> ELSE <<>>>> :
               k \in {k \in DOMAIN a \cup DOMAIN b : ~(k \in DOMAIN a /\ k \in DOMAIN b) \/ a[k] # b[k]}}
Aux(r, b) == SetOf(r.ad) = Rows(aux, b) /\ aux' = b
AuxSame(r) == r.ad = <<>> /\ UNCHANGED aux
\* --- crashes: what is stored in between is what was there before or what is to be there after ---
\* m is a store: U with the auxiliary data b
Holds(m, U, b) ==
  LET all == DOMAIN T \cup DOMAIN U
      pre == [p \in all |-> Prefix(p)]
      hit == {p \in all : \E i \in DOMAIN m.diff : m.diff[i].p = pre[p]}
      diff == [p \in hit |-> m.diff[CHOOSE i \in DOMAIN m.diff : m.diff[i].p = pre[p]]]
      now == [p \in DOMAIN U |-> Sight(U, p, diff, seen)]
  IN SetOf(m.ad) = Rows(aux, b) /\ Stores(T, U, seen, now, diff, m.diff) /\ m.rh = now[<<>>].hash
Between(r, U, b) == "mid" \in DOMAIN r =>
  \A i \in DOMAIN r.mid : IF r.mid[i].diff = <<>> /\ r.mid[i].ad = <<>> THEN r.mid[i].rh = seen[<<>>].hash
                          ELSE IF Holds(r.mid[i], T, aux) THEN TRUE ELSE Holds(r.mid[i], U, b)
\* --- faults: a failure that is reported leaves everything as it was ---
Failed(r) == IF "hit" \in DOMAIN r THEN r.hit /\ r.st = "err" ELSE FALSE
\* a fault while something is only read shows nothing else
Still(r) == Unchanged(r) /\ r.ad = <<>>
\* --- operations on auxiliary data ---
AuxOps == {"putaux", "delaux", "getaux"}
AuxAct(r) ==
  LET o == r.op x == r.x a == AuxView(aux, ov, x) k == o.k
      v == IF o.o = "putaux" THEN <<o.val>> ELSE <<>>
      b == Over(aux, Put2(NoKeys, k, v)) IN
  /\ r.st = "ok" /\ Unchanged(r) /\ UNCHANGED <<txs, here, cps>>
  /\ IF o.o = "getaux" THEN r.v = (IF k \in DOMAIN a THEN <<a[k]>> ELSE <<>>) /\ AuxSame(r) /\ UNCHANGED ov
     ELSE IF x = 0 THEN /\ Aux(r, b) /\ Between(r, T, b)
                        \* deleting what is not there may be no change
                        /\ ov' \in Quietly(b = aux, Bump(ov, Put2(NoKeys, k, v)), ov)
     ELSE AuxSame(r) /\ ov' = Stage(ov, x, k, v)
After(r) == IF r.e # "op" THEN T ELSE LET res == Do(T, r.op, HashOut) IN IF res.w THEN res.T ELSE T
\* a reported failure in a transaction that shows a write of it failed: nothing of the operation is in it
Lost(r) == /\ Still(r) /\ UNCHANGED <<aux, here, cps>>
           /\ IF r.e = "commit" THEN txs' = Without(txs, r.x) /\ ov' = Leave(ov, r.x)
              ELSE UNCHANGED <<txs, ov>>
\* --- checkpoints ---
Now == [T |-> T, seen |-> seen, txs |-> txs, aux |-> aux, ov |-> ov]
Copy == [T |-> T, seen |-> seen, txs |-> None, aux |-> aux, ov |-> None]
Exists(n) == n = here \/ n \in DOMAIN cps
Use(n) == LET d == cps[n] IN
  /\ here' = n /\ cps' = (here :> Now) @@ [m \in DOMAIN cps \ {n} |-> cps[m]]
  /\ T' = d.T /\ seen' = d.seen /\ txs' = d.txs /\ aux' = d.aux /\ ov' = d.ov
Nothing(r) == Still(r) /\ UNCHANGED <<txs, aux, ov, here, cps>>
More(r) ==
  CASE r.e = "new" -> Step(r) /\ aux' = NoKeys /\ ov' = None /\ here' = 0 /\ cps' = None
    [] Failed(r) -> Lost(r)
    [] r.e = "op" /\ r.op.o \in AuxOps -> AuxAct(r)
    \* what reading many things shows when one of them cannot be read is open
    [] r.e = "op" /\ r.op.o \in {"verify", "query", "aggsum", "prove"} /\ "hit" \in DOMAIN r /\ r.hit -> r.st # "panic" /\ Nothing(r)
    \* what a transaction that cannot commit any more shows: C21
    [] r.e = "op" /\ (IF r.x = 0 THEN FALSE ELSE txs[r.x].stale) -> Nothing(r)
    [] r.e = "op" -> Step(r) /\ AuxSame(r) /\ UNCHANGED <<ov, here, cps>> /\ (IF "mid" \in DOMAIN r /\ r.x = 0 THEN Between(r, T', aux) ELSE Between(r, T, aux))
    [] r.e = "begin" -> Step(r) /\ AuxSame(r) /\ ov' = (r.x :> Idle) @@ ov /\ UNCHANGED <<here, cps>>
    [] r.e = "commit" ->
         /\ UNCHANGED <<here, cps>>
         /\ IF ov[r.x].bad
            THEN r.st = "err" /\ Still(r) /\ UNCHANGED aux /\ txs' = Without(txs, r.x) /\ ov' = Leave(ov, r.x)
            ELSE LET b == IF MayCommit(txs, r.x) THEN Over(aux, ov[r.x].w) ELSE aux IN
                 /\ Step(r) /\ Aux(r, b) /\ Between(r, T', b)
                 /\ ov' = (IF MayCommit(txs, r.x) THEN Bump(Leave(ov, r.x), ov[r.x].w) ELSE Leave(ov, r.x))
    [] r.e = "drop" -> Step(r) /\ AuxSame(r) /\ ov' = Leave(ov, r.x) /\ UNCHANGED <<here, cps>>
    [] r.e = "undo" -> Step(r) /\ AuxSame(r) /\ ov' = [ov EXCEPT ![r.x] = Idle] /\ UNCHANGED <<here, cps>>
    [] r.e = "reopen" -> Nothing(r)
    [] r.e = "cp" -> IF Exists(r.n) THEN r.st = "err" /\ Nothing(r)
                     ELSE r.st = "ok" /\ Still(r) /\ cps' = (r.n :> Copy) @@ cps /\ UNCHANGED <<txs, aux, ov, here>>
    [] r.e = "use" -> IF r.n \notin DOMAIN cps THEN r.st = "err" /\ Nothing(r)
                      ELSE r.st = "ok" /\ r.diff = <<>> /\ r.ad = <<>> /\ Use(r.n) /\ r.rh = seen'[<<>>].hash
    [] r.e = "cpdel" -> IF ~Exists(r.n) THEN r.st = "err" /\ ~r.there /\ Nothing(r)
                        ELSE IF r.open THEN r.st = "err" /\ r.there /\ Nothing(r)
                        ELSE r.st = "ok" /\ ~r.there /\ Still(r) /\ cps' = [n \in DOMAIN cps \ {r.n} |-> cps[n]] /\ UNCHANGED <<txs, aux, ov, here>>
    [] r.e = "spare" -> r.st = "err" /\ r.there /\ Nothing(r)
    [] OTHER -> FALSE
Init == l = 1 /\ T = T0 /\ seen = [x \in {<<>>} |-> NoSight] /\ txs = None /\ aux = NoKeys /\ ov = None /\ here = 0 /\ cps = None
Next == l <= Len(Trace) /\ l' = l + 1 /\ More(Trace[l])
Spec == Init /\ [][Next]_<<vars, more>>
=============================================================================
