------------------------------ MODULE GroveMC ------------------------------
(* Every hierarchy of a few trees, and every operation on it: what is       *)
(* refused changes nothing, what is done changes what it names only, the    *)
(* hierarchy stays well formed, references lead somewhere when written and  *)
(* never in circles. Every step becomes a schedule for the real database.   *)
EXTENDS Grove, TLC, Json, SequencesExt
CONSTANTS Keys, Depth, Nodes, Emits
VARIABLES T, hist
Paths == UNION {[1..n -> Keys] : n \in 0..Depth}
Places == {p \in Paths : Len(p) < Depth}
Values == {[Blank("item") EXCEPT !.b = "0a"], [Blank("sumitem") EXCEPT !.s = "5"], Blank("tree"), Blank("sumtree")}
          \cup {[Blank("ref") EXCEPT !.ref = [t |-> "abs", n |-> 0, p |-> t]] : t \in UNION {[1..n -> Keys] : n \in 1..2}}
Ops == {[o |-> "insert", p |-> p, k |-> k, el |-> e, no |-> FALSE, nt |-> TRUE] : p \in Places, k \in Keys, e \in Values}
       \cup {[o |-> "delete", p |-> p, k |-> k, allow |-> a, err |-> e, val |-> FALSE] : p \in Places, k \in Keys, a \in BOOLEAN, e \in BOOLEAN}
       \cup {[o |-> "delup", p |-> p, k |-> k, allow |-> FALSE, err |-> e, val |-> FALSE, stop |-> s] : p \in Places \ {<<>>}, k \in Keys, e \in BOOLEAN, s \in {<<>>, <<1>>}}
       \cup {[o |-> "clear", p |-> p, check |-> TRUE, allow |-> a, err |-> TRUE] : p \in Places, a \in BOOLEAN}
H1(U, f) == ""
Do1(U, o) == CASE o.o = "insert" -> Insert(U, o.p, o.k, o.el, o.no, o.nt, H1)
               [] o.o = "delete" -> Delete(U, o.p, o.k, o.allow, o.err)
               [] o.o = "delup" -> DeleteUp(U, o.p, o.k, o.allow, o.err, o.stop)
               [] OTHER -> Clear(U, o.p, o.check, o.allow, o.err)
RECURSIVE Size(_, _)
Size(U, ps) == IF ps = {} THEN 0 ELSE LET p == CHOOSE p \in ps : TRUE IN Cardinality(DOMAIN U[p].es) + Size(U, ps \ {p})
Entries(U) == UNION {{<<p, k>> : k \in DOMAIN U[p].es} : p \in DOMAIN U}
\* every tree belongs to an element of its kind, and every tree element has its tree
WellFormed(U) ==
  /\ <<>> \in DOMAIN U
  /\ \A p \in DOMAIN U \ {<<>>} : Has(U, Parent(p), Last1(p)) /\ U[Parent(p)].es[Last1(p)].e.k = U[p].k
  /\ \A f \in Entries(U) : U[f[1]].es[f[2]].e.k \in Trees => Append(f[1], f[2]) \in DOMAIN U
\* no chain of references comes back to where it has been
RECURSIVE Circles(_, _, _)
Circles(U, at, seen) ==
  IF at \in seen THEN TRUE
  ELSE IF ~Has(U, Parent(at), Last1(at)) THEN FALSE
  ELSE LET e == U[Parent(at)].es[Last1(at)].e IN
       e.k = "ref" /\ (LET n == R!Resolve(e.ref, Parent(at), Last1(at)) IN n # <<>> /\ n[1] # <<>> /\ Circles(U, n[1], seen \cup {at}))
NoCircles(U) == \A f \in Entries(U) : ~Circles(U, Append(f[1], f[2]), {})
\* what is not below the named place stays as it is
Named(o) == IF o.o = "clear" THEN o.p ELSE Append(o.p, o.k)
Kept(U, V, o) ==
  /\ \A p \in DOMAIN U : (~Under(Named(o), p) /\ ~Under(p, Named(o))) => p \in DOMAIN V /\ V[p] = U[p]
  /\ \A p \in DOMAIN V : (~Under(Named(o), p) /\ ~Under(p, Named(o))) => p \in DOMAIN U
  /\ o.o # "delup" =>
     \A p \in DOMAIN U : (Under(p, Named(o)) /\ p # Named(o)) =>
       /\ p \in DOMAIN V
       /\ \A k \in DOMAIN U[p].es : k # Named(o)[Len(p) + 1] => k \in DOMAIN V[p].es /\ V[p].es[k] = U[p].es[k]
\* aggregates by their definition: over everything below that counts, tree by tree
RECURSIVE Leaves(_, _)
Leaves(U, p) == LET e(k) == U[p].es[k].e IN
  UNION {IF e(k).k \in {"sumtree"} THEN Leaves(U, Append(p, k)) ELSE {<<p, k>>} : k \in DOMAIN U[p].es}
RECURSIVE SumOf(_, _)
SumOf(U, fs) == IF fs = {} THEN "0" ELSE LET f == CHOOSE f \in fs : TRUE IN IAdd(U[f[1]].es[f[2]].e.s, SumOf(U, fs \ {f}))
Sums(U) == \A p \in DOMAIN U : U[p].k = "sumtree" => Agg(U, p).s = SumOf(U, Leaves(U, p))
Good(U, o, res) ==
  /\ res.w => /\ WellFormed(res.T) /\ NoCircles(res.T) /\ Sums(res.T) /\ Kept(U, res.T, o)
              /\ (o.o = "insert" => Get(res.T, o.p, o.k).st = {"ok"})
              /\ (o.o \in {"delete", "delup"} => ~Has(res.T, o.p, o.k))
              /\ (o.o = "clear" => EmptyAt(res.T, o.p))
  /\ ~res.w => res.T = U
Init == T = T0 /\ hist = <<>>
Next == \E o \in Ops :
          LET res == Do1(T, o) IN
          /\ T' = res.T /\ hist' = Append(hist, o)
          /\ Assert(Good(T, o, res), <<T, o, res>>)
Small == Size(T, DOMAIN T) <= Nodes
\* schedules: every step that changes something, and in every state, one after the other, all that must not
EmitT == ((Emits /\ T' # T) => Emit(Env("SCHED_OUT", ""), ToJson(hist'))) /\ Size(T', DOMAIN T') <= Nodes
EmitS == Emits => Emit(Env("SCHED_OUT", ""), ToJson(hist \o SetToSeq({o \in Ops : ~Do1(T, o).w})))
View == T
Spec == Init /\ [][Next]_<<T, hist>>
=============================================================================
