----------------------------- MODULE GroveTxMC -----------------------------
(* Operations inside and outside two transactions, in every order. What is  *)
(* committed is what the committed changes make of the empty hierarchy one  *)
(* after the other; nobody sees what is not committed; a transaction whose  *)
(* changes may rest on something that is no more cannot commit.             *)
EXTENDS Grove, GroveTx, Json, SequencesExt
CONSTANTS Xs, Steps
VARIABLES T, txs, done, mine, hist
\* done: the changes committed, in order; mine: those of every transaction
vars == <<T, txs, done, mine, hist>>
In(p, k, e) == [o |-> "insert", p |-> p, k |-> k, el |-> e, no |-> FALSE, nt |-> TRUE]
Ops == {In(<<>>, "01", [Blank("item") EXCEPT !.b = "0a"]), In(<<>>, "02", Blank("sumtree")), In(<<>>, "03", [Blank("mmr") EXCEPT !.n = "0"]),
        In(<<"02">>, "01", [Blank("sumitem") EXCEPT !.s = "5"]), In(<<"02">>, "02", [Blank("sumitem") EXCEPT !.s = "-2"])}
       \cup {[o |-> "delete", p |-> <<>>, k |-> k, allow |-> TRUE, err |-> TRUE, val |-> FALSE] : k \in {"01", "02"}}
       \cup {[o |-> "append", p |-> <<>>, k |-> "03", kind |-> "mmr", val |-> "ab"]}
H1(U, f) == ""
Do1(U, o) == CASE o.o = "insert" -> Insert(U, o.p, o.k, o.el, o.no, o.nt, H1)
               [] o.o = "delete" -> Delete(U, o.p, o.k, o.allow, o.err)
               [] OTHER -> AppendTo(U, o.p, o.k, o.kind, o.val)
RECURSIVE Replay(_, _)
Replay(U, os) == IF os = <<>> THEN U ELSE Replay(Do1(U, Head(os)).T, Tail(os))
Act(o, x) == o @@ [x |-> x]
Ev(e, x) == [o |-> e, x |-> x]
Say(a) == hist' = Append(hist, a)
Init == T = T0 /\ txs = [x \in {} |-> Fresh(T0)] /\ done = <<>> /\ mine = [x \in Xs |-> <<>>] /\ hist = <<>>
Outside(o) ==
  LET res == Do1(T, o) IN
  /\ Say(Act(o, 0)) /\ mine' = mine
  /\ IF res.w THEN T' = res.T /\ txs' = Touch(txs) /\ done' = Append(done, o) ELSE UNCHANGED <<T, txs, done>>
Inside(o, x) ==
  LET res == Do1(View(T, txs, x), o) IN
  /\ Say(Act(o, x)) /\ UNCHANGED <<T, done>>
  /\ IF res.w /\ ~txs[x].stale THEN txs' = Wrote(txs, x, res.T) /\ mine' = [mine EXCEPT ![x] = Append(@, o)] ELSE UNCHANGED <<txs, mine>>
Begin(x) == x \notin DOMAIN txs /\ (\A y \in Xs : y < x => y \in DOMAIN txs) /\ txs' = Begun(T, txs, x) /\ Say(Ev("begin", x)) /\ mine' = [mine EXCEPT ![x] = <<>>] /\ UNCHANGED <<T, done>>
Commit(x) ==
  /\ x \in DOMAIN txs /\ Say(Ev("commit", x)) /\ T' = Committed(T, txs, x) /\ txs' = AfterCommit(txs, x)
  /\ done' = (IF MayCommit(txs, x) THEN done \o mine[x] ELSE done) /\ mine' = [mine EXCEPT ![x] = <<>>]
Forget(x) == x \in DOMAIN txs /\ Say(Ev("drop", x)) /\ txs' = Without(txs, x) /\ mine' = [mine EXCEPT ![x] = <<>>] /\ UNCHANGED <<T, done>>
Undo(x) == x \in DOMAIN txs /\ Say(Ev("undo", x)) /\ txs' = Undone(T, txs, x) /\ mine' = [mine EXCEPT ![x] = <<>>] /\ UNCHANGED <<T, done>>
Next == Len(hist) < Steps /\
        \/ \E o \in Ops : Outside(o)
        \/ \E x \in DOMAIN txs, o \in Ops : Inside(o, x)
        \/ \E x \in Xs : Begin(x) \/ Commit(x) \/ Forget(x) \/ Undo(x)
\* what is committed is the sequence of the committed changes
Serial == T = Replay(T0, done)
\* a transaction that may commit has built on what is committed
Current == \A x \in DOMAIN txs : ~txs[x].stale => View(T, txs, x) = Replay(T, mine[x])
\* schedules: of every state one, and what every operation makes of it
EmitS == Emit(Env("SCHED_OUT", ""), ToJson(hist \o SetToSeq({Act(o, x) : o \in {o \in Ops : ~Do1(T, o).w}, x \in {0}})
          \o SetToSeq(UNION {{Act(o, x) : o \in {o \in Ops : ~txs[x].stale /\ ~Do1(View(T, txs, x), o).w}} : x \in DOMAIN txs})
          \o SetToSeq({Ev("commit", x) : x \in DOMAIN txs})))
See == <<T, txs, mine>>
Spec == Init /\ [][Next]_vars
=============================================================================
