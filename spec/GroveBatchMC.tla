---------------------------- MODULE GroveBatchMC ----------------------------
(* Every small batch on a few hierarchies. A batch that is refused changes  *)
(* nothing; the order in which it lists its operations does not matter; and *)
(* one that is accepted does what its operations do one after the other in  *)
(* some order, so that nothing is stored by a batch which could not be      *)
(* stored without it. Batches become schedules for the real database.       *)
EXTENDS GroveBatch, TLC, Json, SequencesExt
CONSTANTS Most, Every, Emits
VARIABLES start, ix, T
vars == <<start, ix, T>>
It(b) == [Blank("item") EXCEPT !.b = b]
Sm(s) == [Blank("sumitem") EXCEPT !.s = s]
Rf(t) == [Blank("ref") EXCEPT !.ref = [t |-> "abs", n |-> 0, p |-> t]]
Ins(p, k, e) == [o |-> "insert", p |-> p, k |-> k, el |-> e, no |-> FALSE, nt |-> TRUE]
Starts == {
  <<Ins(<<>>, "01", Blank("tree")), Ins(<<>>, "02", It("0a"))>>,
  <<Ins(<<>>, "01", Blank("sumtree")), Ins(<<"01">>, "01", Sm("5")), Ins(<<"01">>, "02", Blank("tree")), Ins(<<>>, "02", Blank("tree"))>>,
  <<Ins(<<>>, "01", Blank("tree")), Ins(<<"01">>, "02", It("0b")), Ins(<<>>, "02", Rf(<<"01", "02">>))>>}
Keys == {"01", "02"}
Places == {<<>>, <<"01">>, <<"02">>}
Els == {It("0c"), Sm("7"), Blank("tree"), Blank("sumtree"), Rf(<<"02">>), Rf(<<"01", "02">>)}
Ops == {[b |-> b, p |-> p, k |-> k, el |-> e] : b \in {"ior"}, p \in Places, k \in Keys, e \in Els}
       \cup {[b |-> "ifn", p |-> p, k |-> k, el |-> It("0d")] : p \in Places, k \in Keys}
       \cup {[b |-> "del", p |-> p, k |-> k] : p \in Places, k \in Keys}
       \cup {[b |-> "delt", p |-> p, k |-> k, kind |-> "tree", beh |-> h] : p \in {<<>>, <<"01">>}, k \in Keys, h \in {"children", "error"}}
H1(U, f) == ""
RECURSIVE Setup(_, _)
Setup(U, h) == IF h = <<>> THEN U ELSE Setup(Insert(U, h[1].p, h[1].k, h[1].el, h[1].no, h[1].nt, H1).T, Tail(h))
Run(U, os) == Batch(U, os, FALSE, FALSE, TRUE, H1)
\* one operation by itself
One(U, o) == CASE o.b = "ior" -> Insert(U, o.p, o.k, o.el, FALSE, FALSE, H1)
               [] o.b = "ifn" -> Insert(U, o.p, o.k, o.el, TRUE, FALSE, H1)
               [] o.b = "delt" /\ o.beh = "error" -> Delete(U, o.p, o.k, FALSE, TRUE)
               [] OTHER -> IF Has(U, o.p, o.k) THEN Delete(U, o.p, o.k, TRUE, FALSE)
                           ELSE IF IsMerk(U, o.p) THEN Same(U, Ok(0)) ELSE Fail(U)
Orders(os) == {[i \in DOMAIN os |-> os[f[i]]] : f \in {f \in [DOMAIN os -> DOMAIN os] : \A i, j \in DOMAIN os : i # j => f[i] # f[j]}}
RECURSIVE Leads(_, _, _)
Leads(U, os, V) == IF os = <<>> THEN U = V
                   ELSE LET r == One(U, os[1]) IN r.st = {"ok"} /\ Leads(r.T, Tail(os), V)
WellFormed(U) ==
  /\ <<>> \in DOMAIN U
  /\ \A p \in DOMAIN U \ {<<>>} : Has(U, Parent(p), Last1(p)) /\ U[Parent(p)].es[Last1(p)].e.k = U[p].k
  /\ \A p \in DOMAIN U : \A k \in DOMAIN U[p].es : U[p].es[k].e.k \in Trees => Append(p, k) \in DOMAIN U
Good(U, os) ==
  LET r == Run(U, os) IN
  /\ ~r.w => r.T = U
  /\ \A x \in Orders(os) : LET y == Run(U, x) IN y.st = r.st /\ y.T = r.T
  /\ r.w => /\ WellFormed(r.T)
            /\ \E x \in Orders(os) : Leads(U, x, r.T)
            /\ \A i \in DOMAIN os : IF os[i].b \in Puts THEN Has(r.T, os[i].p, os[i].k) /\ r.T[os[i].p].es[os[i].k].e = Static(os[i].el)
                                                           /\ (os[i].el.k = "ref" => Get(r.T, os[i].p, os[i].k).st = {"ok"})
                                    ELSE ~Has(r.T, os[i].p, os[i].k)
\* the real batch leaves what is below an overwritten tree where it is, and finds there what it deletes at the same
\* time (see the known findings)
Full(U, o) == IF IsTree(U, At(o)) THEN ~EmptyAt(U, At(o)) ELSE FALSE
Tame(U, os) == \A i \in DOMAIN os : Full(U, os[i]) =>
  /\ os[i].b = "delt"
  /\ \A j \in DOMAIN os : os[j].b \in Puts => os[j].el.k # "ref"
Pick1(os) == LET h == H(<<Utf8(ToJson(os))>>) IN (BAt(h, 1) * 256 + BAt(h, 2)) % (IF Len(os) = 2 THEN Every ELSE 25 * Every) = 0
Ord == SetToSeq(Ops)
List(s) == [i \in DOMAIN s |-> Ord[s[i]]]
EmitT == LET os == List(ix') IN
         (Emits /\ Tame(Setup(T0, start), os) /\ (Len(os) = 1 \/ Pick1(os))) =>
           Emit(Env("SCHED_OUT", ""), ToJson(Append(start, [o |-> "batch", no |-> FALSE, nt |-> FALSE, check |-> TRUE, ops |-> os])))
Init == start \in Starts /\ ix = <<>> /\ T = Setup(T0, start)
\* each set of operations once
Next == /\ Len(ix) < Most
        /\ \E i \in DOMAIN Ord : (IF ix = <<>> THEN TRUE ELSE i > ix[Len(ix)]) /\ ix' = Append(ix, i)
        /\ UNCHANGED <<start, T>>
        /\ Assert(Good(T, List(ix')), <<start, List(ix')>>)
Spec == Init /\ [][Next]_vars
=============================================================================
