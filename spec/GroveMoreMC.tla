---------------------------- MODULE GroveMoreMC ----------------------------
(* Several databases (a first one and checkpoints of it), each with a       *)
(* hierarchy and auxiliary data, two transactions, and a store that may     *)
(* fail or stop. What a database holds is what its committed changes make   *)
(* of what it was made from, one after the other; nothing else does.        *)
(* Acts: "aux", "tx", "fault", "cp".                                        *)
EXTENDS Grove, GroveTx, GroveAux, Json, SequencesExt
CONSTANTS Acts, Xs, Cps, Steps
VARIABLES T, txs, aux, ov, here, cps, done, mine, hist
\* done: the changes that made this database, in order; mine: those of every transaction
vars == <<T, txs, aux, ov, here, cps, done, mine, hist>>
In(p, k, e) == [o |-> "insert", p |-> p, k |-> k, el |-> e, no |-> FALSE, nt |-> TRUE]
Grows == {In(<<>>, "02", Blank("sumtree")), In(<<"02">>, "01", [Blank("sumitem") EXCEPT !.s = "5"])}
         \cup {[o |-> "delete", p |-> <<>>, k |-> "02", allow |-> TRUE, err |-> TRUE, val |-> FALSE]}
         \cup (IF "fault" \in Acts THEN {In(<<>>, "03", [Blank("mmr") EXCEPT !.n = "0"]), [o |-> "append", p |-> <<>>, k |-> "03", kind |-> "mmr", val |-> "ab"],
                                         [o |-> "clear", p |-> <<"02">>, check |-> TRUE, allow |-> TRUE, err |-> TRUE]} ELSE {})
Sides == IF "aux" \in Acts THEN {[o |-> "putaux", k |-> k, val |-> v] : k \in {"02", ""}, v \in {"", "aa"}} \cup {[o |-> "delaux", k |-> k] : k \in {"02", ""}} ELSE {}
Reads == IF "aux" \in Acts THEN {[o |-> "getaux", k |-> k] : k \in {"02", ""}} ELSE {[o |-> "raw", p |-> <<"02">>, k |-> "01"]}
Ops == Grows \cup Sides
H1(U, f) == ""
Do1(U, o) == CASE o.o = "insert" -> Insert(U, o.p, o.k, o.el, o.no, o.nt, H1)
               [] o.o = "delete" -> Delete(U, o.p, o.k, o.allow, o.err)
               [] o.o = "clear" -> Clear(U, o.p, o.check, o.allow, o.err)
               [] o.o = "append" -> AppendTo(U, o.p, o.k, o.kind, o.val)
               [] OTHER -> Same(U, Ok(0))
Val(o) == IF o.o = "putaux" THEN <<o.val>> ELSE <<>>
Side(o) == o.o \in {"putaux", "delaux"}
Aux1(a, o) == IF Side(o) THEN Over(a, Put2(NoKeys, o.k, Val(o))) ELSE a
RECURSIVE Replay(_, _)
Replay(d, os) == IF os = <<>> THEN d ELSE Replay([T |-> Do1(d.T, Head(os)).T, aux |-> Aux1(d.aux, Head(os))], Tail(os))
Zero == [T |-> T0, aux |-> NoKeys]
Act(o, x) == o @@ [x |-> x]
Ev(e, x) == [o |-> e, x |-> x]
Nth(e, n) == [o |-> e, n |-> n]
Say(a) == hist' = Append(hist, a)
None2 == [x \in {} |-> Fresh(T0)]
Init == /\ T = T0 /\ txs = None2 /\ aux = NoKeys /\ ov = [x \in {} |-> Idle] /\ here = 0 /\ cps = [n \in {} |-> Zero]
        /\ done = <<>> /\ mine = [x \in Xs |-> <<>>] /\ hist = <<>>
Keep == UNCHANGED <<here, cps>>
Takes(o, x) == Side(o) \/ Do1(View(T, txs, x), o).w
\* a change that reaches the store
Lands(o) ==
  /\ T' = Do1(T, o).T /\ aux' = Aux1(aux, o) /\ done' = Append(done, o) /\ mine' = mine
  /\ IF Side(o) THEN ov' = Bump(ov, Put2(NoKeys, o.k, Val(o))) /\ txs' = txs ELSE txs' = Touch(txs) /\ ov' = ov
Stays == UNCHANGED <<T, txs, aux, ov, done, mine>>
Outside(o) == Say(Act(o, 0)) /\ Keep /\ (IF Takes(o, 0) THEN Lands(o) ELSE Stays)
Inside(o, x) ==
  /\ Say(Act(o, x)) /\ Keep /\ UNCHANGED <<T, aux, done>>
  /\ IF ~Takes(o, x) \/ (txs[x].stale /\ ~Side(o)) THEN UNCHANGED <<txs, ov, mine>>
     ELSE /\ mine' = [mine EXCEPT ![x] = Append(@, o)]
          /\ IF Side(o) THEN ov' = Stage(ov, x, o.k, Val(o)) /\ txs' = txs
             ELSE txs' = Wrote(txs, x, Do1(View(T, txs, x), o).T) /\ ov' = ov
Begin(x) == /\ x \notin DOMAIN txs /\ (\A y \in Xs : y < x => y \in DOMAIN txs) /\ Say(Ev("begin", x)) /\ Keep
            /\ txs' = Begun(T, txs, x) /\ ov' = (x :> Idle) @@ ov /\ mine' = [mine EXCEPT ![x] = <<>>] /\ UNCHANGED <<T, aux, done>>
May(x) == MayCommit(txs, x) /\ ~ov[x].bad
Ends(x) == mine' = [mine EXCEPT ![x] = <<>>]
Landed(x) == /\ T' = Committed(T, txs, x) /\ txs' = AfterCommit(txs, x) /\ aux' = Over(aux, ov[x].w) /\ ov' = Bump(Leave(ov, x), ov[x].w)
             /\ done' = done \o mine[x] /\ Ends(x)
Gone(x) == txs' = Without(txs, x) /\ ov' = Leave(ov, x) /\ Ends(x) /\ UNCHANGED <<T, aux, done>>
Commit(x) == x \in DOMAIN txs /\ Say(Ev("commit", x)) /\ Keep /\ (IF May(x) THEN Landed(x) ELSE Gone(x))
Forget(x) == x \in DOMAIN txs /\ Say(Ev("drop", x)) /\ Keep /\ Gone(x)
Undo(x) == /\ x \in DOMAIN txs /\ Say(Ev("undo", x)) /\ Keep /\ txs' = Undone(T, txs, x) /\ ov' = [ov EXCEPT ![x] = Idle] /\ Ends(x) /\ UNCHANGED <<T, aux, done>>
\* --- faults and crashes: the change is there, or nothing of it ---
Modes == {[mode |-> "crash", at |-> 0]} \cup {[mode |-> "write", at |-> i] : i \in 0..1} \cup {[mode |-> "read", at |-> i] : i \in {0, 2}}
Faulty(o, m) == Say(Act(o, 0) @@ m) /\ Keep /\ (\/ (Takes(o, 0) /\ Lands(o)) \/ ((m.mode # "crash" \/ ~Takes(o, 0)) /\ Stays))
FaultyCommit(x, m) == x \in DOMAIN txs /\ Say(Ev("commit", x) @@ m) /\ Keep /\ (\/ (May(x) /\ Landed(x)) \/ ((m.mode # "crash" \/ ~May(x)) /\ Gone(x)))
Reopen == DOMAIN txs = {} /\ hist # <<>> /\ hist[Len(hist)].o # "reopen" /\ Say([o |-> "reopen"]) /\ Keep /\ Stays
\* --- checkpoints ---
Now == [T |-> T, txs |-> txs, aux |-> aux, ov |-> ov, done |-> done, mine |-> mine]
Copy == [T |-> T, txs |-> None2, aux |-> aux, ov |-> [x \in {} |-> Idle], done |-> done, mine |-> [x \in Xs |-> <<>>]]
Take(n) == n # here /\ n \notin DOMAIN cps /\ Say(Nth("cp", n)) /\ cps' = (n :> Copy) @@ cps /\ here' = here /\ Stays
Use(n) == /\ n \in DOMAIN cps /\ Say(Nth("use", n)) /\ here' = n /\ cps' = (here :> Now) @@ [m \in DOMAIN cps \ {n} |-> cps[m]]
          /\ LET d == cps[n] IN T' = d.T /\ txs' = d.txs /\ aux' = d.aux /\ ov' = d.ov /\ done' = d.done /\ mine' = d.mine
Unmake(n) == n \in DOMAIN cps \ {0} /\ Say(Nth("cpdel", n)) /\ here' = here /\ cps' = [m \in DOMAIN cps \ {n} |-> cps[m]] /\ Stays
Next == Len(hist) < Steps /\
        \/ \E o \in Ops : Outside(o)
        \/ "tx" \in Acts /\ (\/ (\E x \in DOMAIN txs, o \in Ops : Inside(o, x))
                             \/ \E x \in Xs : Begin(x) \/ Commit(x) \/ Forget(x) \/ Undo(x))
        \/ "fault" \in Acts /\ (\/ (\E o \in Ops, m \in Modes : Faulty(o, m))
                                \/ (\E x \in Xs, m \in Modes : FaultyCommit(x, m))
                                \/ Reopen)
        \/ "cp" \in Acts /\ \E n \in Cps \cup {0} : \/ (n # 0 /\ Take(n)) \/ Use(n) \/ Unmake(n)
\* a database holds what its changes make of nothing
Serial == Replay(Zero, done) = [T |-> T, aux |-> aux]
Copies == \A n \in DOMAIN cps : Replay(Zero, cps[n].done) = [T |-> cps[n].T, aux |-> cps[n].aux]
\* what a transaction that may commit sees is its changes on top of that
Current == \A x \in DOMAIN txs : May(x) => Replay([T |-> T, aux |-> aux], mine[x]) = [T |-> View(T, txs, x), aux |-> AuxView(aux, ov, x)]
\* auxiliary data is what was last written, whatever happened to the hierarchy, and the other way round
Apart == /\ Replay(Zero, SelectSeq(done, LAMBDA o : Side(o))).aux = aux
         /\ Replay(Zero, SelectSeq(done, LAMBDA o : ~Side(o))).T = T
EmitS == Emit(Env("SCHED_OUT", ""), ToJson(hist
          \o SetToSeq({Act(o, x) : o \in Reads, x \in {0} \cup DOMAIN txs})
          \o SetToSeq({Ev("commit", x) : x \in DOMAIN txs}) \o SetToSeq({Act(o, 0) : o \in Reads})
          \o (IF here # 0 THEN <<Nth("use", 0)>> ELSE IF 1 \in DOMAIN cps THEN <<Nth("use", 1)>> ELSE <<>>) \o SetToSeq({Act(o, 0) : o \in Reads})))
See == <<T, txs, aux, ov, here, cps, mine, IF "fault" \in Acts /\ hist # <<>> THEN hist[Len(hist)] ELSE <<>> >>
Spec == Init /\ [][Next]_vars
=============================================================================
