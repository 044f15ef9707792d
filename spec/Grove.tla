------------------------------- MODULE Grove -------------------------------
(* The database: a hierarchy of trees, T: path -> tree, where a tree is     *)
(*   [k: kind, p: chunk power or height, es: key -> entry, vals, sin]       *)
(* and an entry is [e: element without its computed fields, rh: value hash  *)
(* of the element a reference led to when it was written ("?": unknown)].   *)
(* A tree element at path/key has its tree at path \o <<key>>. Every        *)
(* operation o takes T to [st, v, T, w]: the outcomes allowed, the result,  *)
(* the next state if it succeeds, and whether it writes at all.             *)
EXTENDS Store
LOCAL AM == INSTANCE Mmr WITH stored <- <<>>, cur <- <<>>
LOCAL AB == INSTANCE Bulk WITH vals <- <<>>, height <- 0, flushed <- 0, saved <- <<>>
LOCAL AD == INSTANCE Dense WITH vals <- <<>>, height <- 0
LOCAL AC == INSTANCE Commitment
None == [x \in {} |-> 0]
EmptyTree(kind, p) == [k |-> kind, p |-> p, es |-> None, vals |-> <<>>, sin |-> ""]
T0 == [x \in {<<>>} |-> EmptyTree("tree", 0)]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Last1(p) == p[Len(p)]
Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p      \* q is p or below it
Below(T, p) == {q \in DOMAIN T : Under(p, q)}
IsTree(T, p) == p \in DOMAIN T
IsMerk(T, p) == p \in DOMAIN T /\ T[p].k \in Merks
EmptyAt(T, p) == IF T[p].k \in Merks THEN DOMAIN T[p].es = {} ELSE T[p].vals = <<>>
Drop(T, ps) == [q \in DOMAIN T \ ps |-> T[q]]
\* --- computed fields ---
RECURSIVE Agg(_, _)
RECURSIVE Total(_, _, _)
Fill(T, p, k) ==
  LET e == T[p].es[k].e c == Append(p, k) IN
  IF e.k \notin Trees THEN e
  ELSE IF e.k \in Appends THEN [e EXCEPT !.n = Dec(IF e.k = "mmr" THEN AM!MSize(Len(T[c].vals)) ELSE Len(T[c].vals))]
  ELSE LET a == Agg(T, c) IN [e EXCEPT !.s = a.s, !.n = a.n, !.root = IF EmptyAt(T, c) THEN <<>> ELSE <<"">>]
Total(T, p, ks) == IF ks = {} THEN NoAgg
                   ELSE LET k == CHOOSE k \in ks : TRUE IN Add(Total(T, p, ks \ {k}), InTree(Fill(T, p, k), T[p].k))
Agg(T, p) == IF T[p].k = "tree" THEN NoAgg ELSE Total(T, p, DOMAIN T[p].es)
\* every aggregate on the way from p to the root fits
RECURSIVE FitsUp(_, _)
FitsUp(T, p) == Fits(Agg(T, p)) /\ (p = <<>> \/ FitsUp(T, Parent(p)))
\* could a sum over some of the entries (in some order) leave the range?
RECURSIVE Reach(_, _, _, _)
Reach(T, p, ks, neg) == IF ks = {} THEN [n |-> "0", s |-> "0"]
  ELSE LET k == CHOOSE k \in ks : TRUE r == Reach(T, p, ks \ {k}, neg) f == InTree(Fill(T, p, k), T[p].k) IN
       [n |-> IAdd(r.n, f.n), s |-> IF ILess(f.s, "0") = neg THEN IAdd(r.s, f.s) ELSE r.s]
RECURSIVE Tight(_, _)
Tight(T, p) ==
  LET t == Feature(T[p].k, "0", "0").t hi == Reach(T, p, DOMAIN T[p].es, FALSE) lo == Reach(T, p, DOMAIN T[p].es, TRUE) IN
  \/ (t # "basic" /\ (~Fits([t |-> t, n |-> hi.n, s |-> hi.s]) \/ ~Fits([t |-> t, n |-> "0", s |-> lo.s])))
  \/ (p # <<>> /\ Tight(T, Parent(p)))
\* --- reading ---
MaxHops == 10
RECURSIVE Follow(_, _, _, _)
\* <<>> or <<path, key>> of the first element that is no reference
Follow(T, at, seen, hops) ==
  IF hops = 0 \/ at = <<>> \/ at \in seen THEN <<>>
  ELSE LET p == Parent(at) k == Last1(at) IN
       IF ~IsMerk(T, p) THEN <<>>
       ELSE IF k \notin DOMAIN T[p].es THEN <<>>
       ELSE LET e == T[p].es[k].e IN
            IF e.k # "ref" THEN <<p, k>>
            ELSE LET n == R!Resolve(e.ref, p, k) IN IF n = <<>> THEN <<>> ELSE Follow(T, n[1], seen \cup {at}, hops - 1)
Has(T, p, k) == IsMerk(T, p) /\ k \in DOMAIN T[p].es
\* something on the way of p is no tree
Blocked(T, p) == \E i \in 1..Len(p) : LET q == SubSeq(p, 1, i) IN Has(T, Parent(q), Last1(q)) /\ ~IsTree(T, q)
Err == [st |-> {"err"}, v |-> 0, w |-> FALSE]
Ok(v) == [st |-> {"ok"}, v |-> v, w |-> FALSE]
Found(T, f) == IF f = <<>> THEN Err ELSE Ok(Fill(T, f[1], f[2]))
Get(T, p, k) ==
  IF ~Has(T, p, k) THEN Err
  ELSE LET e == T[p].es[k].e IN
       IF e.k # "ref" THEN Ok(Fill(T, p, k))
       ELSE LET n == R!Resolve(e.ref, p, k) IN IF n = <<>> THEN Err ELSE Found(T, Follow(T, n[1], {}, MaxHops))
IsEmpty(T, p) == IF ~IsTree(T, p) THEN Err ELSE Ok(EmptyAt(T, p))
Subtrees(T, p) == {p} \cup Below(T, p)
\* --- writing ---
Res(T, v) == [st |-> {"ok"}, v |-> v, w |-> TRUE, T |-> T]
Same(T, r) == [x \in DOMAIN r \cup {"T"} |-> IF x = "T" THEN T ELSE IF x = "w" THEN FALSE ELSE r[x]]
Fail(T) == Same(T, Err)
\* the sums must fit; a sum that comes close to not fitting may be refused
Checked(T, r, p) == IF "err" \in r.st THEN r
                    ELSE IF ~FitsUp(r.T, p) THEN Fail(T)
                    ELSE IF Tight(r.T, p) THEN [r EXCEPT !.st = {"ok", "err"}] ELSE r
\* the element with its computed fields cleared
Static(e) == IF e.k \in Merks THEN [e EXCEPT !.root = <<>>, !.s = "0", !.n = "0"] ELSE IF e.k \in Appends THEN [e EXCEPT !.n = "0"] ELSE e
\* value hash of what a reference at at leads to; VHs: path, key -> hash
Put1(T, p, k, e, rh) ==
  LET c == Append(p, k)
      U == Drop(T, Below(T, c))
      es == U[p].es
      n == [x \in DOMAIN es \cup {k} |-> IF x = k THEN [e |-> Static(e), rh |-> rh] ELSE es[x]]
      V == [U EXCEPT ![p].es = n]
  IN IF e.k \in Trees THEN [q \in DOMAIN V \cup {c} |-> IF q = c THEN EmptyTree(e.k, e.p) ELSE V[q]] ELSE V
Target(T, e, p, k) == LET n == R!Resolve(e.ref, p, k) IN IF n = <<>> THEN <<>> ELSE Follow(T, n[1], {}, MaxHops)
\* hash(T, f): value hash of the element at f = <<path, key>>
Insert(T, p, k, e, no, nt, hash(_, _)) ==
  LET f == IF e.k = "ref" THEN Target(T, e, p, k) ELSE <<>> IN
  IF \/ BLen(k) > 255 \/ ~IsMerk(T, p) THEN Fail(T)
  ELSE IF k \in DOMAIN T[p].es /\ (no \/ (nt /\ T[p].es[k].e.k \in Trees)) THEN Fail(T)
  ELSE IF e.k = "ref" /\ f = <<>> THEN Fail(T)
  ELSE IF e.k \in Merks /\ e.root # <<>> THEN Fail(T)
  ELSE IF e.k \in {"sumitem", "itemsum"} /\ ~AllowsSum(T[p].k) THEN Fail(T)
  ELSE LET U == Put1(T, p, k, e, IF e.k = "ref" THEN hash(T, f) ELSE "") IN
       \* a reference that would lead back to itself leads to nothing
       IF e.k = "ref" /\ Target(U, e, p, k) = <<>> THEN Fail(T)
       ELSE Checked(T, Res(U, 0), p)
Delete1(T, p, k) ==
  LET U == Drop(T, Below(T, Append(p, k))) es == U[p].es IN [U EXCEPT ![p].es = [x \in DOMAIN es \ {k} |-> es[x]]]
Delete(T, p, k, allow, err) ==
  IF ~Has(T, p, k) THEN Fail(T)
  ELSE IF T[p].es[k].e.k \in Trees /\ ~EmptyAt(T, Append(p, k)) /\ ~allow
  THEN IF err THEN Fail(T) ELSE Same(T, Ok(FALSE))
  ELSE Checked(T, Res(Delete1(T, p, k), TRUE), p)
Clear(T, p, check, allow, err) ==
  IF ~IsTree(T, p) THEN Fail(T)
  ELSE IF T[p].k \in Appends THEN Res([T EXCEPT ![p].vals = <<>>, ![p].sin = ""], TRUE)
  ELSE IF check /\ ~allow /\ (\E k \in DOMAIN T[p].es : T[p].es[k].e.k \in Trees)
  THEN IF err THEN Fail(T) ELSE Same(T, Ok(FALSE))
  \* clearing an empty root tree writes nothing
  ELSE IF p = <<>> /\ T[p].es = None THEN Same(T, Ok(TRUE))
  ELSE Checked(T, Res([Drop(T, Below(T, p) \ {p}) EXCEPT ![p].es = None], TRUE), p)
\* --- append-only trees: p is the chunk power or the height ---
AppendHash(t) == CASE t.k = "ct" -> AC!CtRoot(t.vals, t.p)
                   [] t.vals = <<>> -> NullHash
                   [] t.k = "mmr" -> AM!MRoot(t.vals)
                   [] t.k = "bulk" -> AB!BRoot(t.vals, t.p)
                   [] t.k = "dense" -> AD!DRoot(t.vals, t.p)
\* what an append reports as the root
AppendRoot(t) == IF t.k = "ct" THEN AC!AnchorOf(AC!Commitments(t.vals)) ELSE AppendHash(t)
IsOf(T, p, k, kind) == IF Has(T, p, k) THEN T[p].es[k].e.k = kind ELSE FALSE
Room(t, n) == t.k # "dense" \/ Len(t.vals) + n <= 2^t.p - 1
ValOk(kind, v) == kind = "ct" => AC!NoteOk(v)
AppendTo(T, p, k, kind, v) ==
  LET c == Append(p, k) IN
  IF ~IsOf(T, p, k, kind) THEN Fail(T)
  ELSE IF ~Room(T[c], 1) \/ ~ValOk(kind, v) THEN Fail(T)
  ELSE LET U == [T EXCEPT ![c].vals = Append(@, v)] IN Res(U, <<AppendRoot(U[c]), Len(T[c].vals)>>)
Entry(s, i) == IF ILess(i, Dec(Len(s))) THEN <<s[ToInt(i) + 1]>> ELSE <<>>
Look1(t, what, i) ==
  CASE what = "root" -> IF t.k = "dense" /\ t.vals = <<>> THEN NullHash ELSE AppendRoot(t)
    [] what = "count" -> Len(t.vals)
    [] what = "get" -> Entry(t.vals, i)
    [] what = "chunk" -> LET n == AB!BChunks(t.vals, t.p) IN IF ILess(i, Dec(n)) THEN <<AB!BlobOf(AB!BChunk(t.vals, t.p, ToInt(i)))>> ELSE <<>>
    [] what = "chunks" -> AB!BChunks(t.vals, t.p)
    [] what = "buffer" -> AB!BBuffer(t.vals, t.p)
ReadOf(T, p, k, kind, what, i) == IF IsOf(T, p, k, kind) THEN Ok(Look1(T[Append(p, k)], what, i)) ELSE Err
RECURSIVE UpOps(_, _, _, _, _, _)
\* <<"err">>, <<"none">> or <<"ops", number of levels deleted>>
UpOps(T, p, k, allow, err, stop) ==
  IF stop = <<Len(p)>> THEN <<"none">>
  ELSE IF p = <<>> \/ ~Has(T, p, k) THEN <<"err">>
  ELSE LET full == T[p].es[k].e.k \in Trees /\ ~EmptyAt(T, Append(p, k)) IN
       IF full THEN IF ~allow THEN IF err THEN <<"err">> ELSE <<"none">> ELSE <<"err">>
       ELSE LET up == UpOps(Delete1(T, p, k), Parent(p), Last1(p), FALSE, FALSE, stop) IN
            CASE up[1] = "err" -> up [] up[1] = "none" -> <<"ops", 1>> [] OTHER -> <<"ops", up[2] + 1>>
RECURSIVE UpDo(_, _, _, _)
UpDo(T, p, k, n) == IF n = 0 THEN T ELSE LET U == Delete1(T, p, k) IN IF n = 1 THEN U ELSE UpDo(U, Parent(p), Last1(p), n - 1)
DeleteUp(T, p, k, allow, err, stop) ==
  LET u == UpOps(T, p, k, allow, err, stop) IN
  IF u[1] # "ops" THEN Fail(T)
  ELSE Checked(T, Res(UpDo(T, p, k, u[2]), u[2]), SubSeq(p, 1, Len(p) - (u[2] - 1)))
=============================================================================
