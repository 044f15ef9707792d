-------------------------- MODULE GroveProofTrace ---------------------------
(* Proofs of path queries over a hierarchy of trees. An honest proof        *)
(* verifies to the root hash and the answer; a proof of any provenance that *)
(* verifies to the root hash gives the answer.                              *)
EXTENDS GroveProof, Json, TLC, IOUtils
E == INSTANCE Element
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, db, root, els, pq, ans
vars == <<l, db, root, els, pq, ans>>
Row3(rs) == [i \in 1..Len(rs) |-> <<rs[i][1], rs[i][2], rs[i][3]>>]
\* the answer as each verifying function states it
ElOf(v) == els[CHOOSE i \in 1..Len(els) : els[i][1] = v][2]
\* the keys the query names, each with its element or without
Named ==
  LET t == Terminal(pq.q, pq.path, 0)
      val(x) == LET hit == SelectSeq(Nonempty(ans.rows), LAMBDA w : w[1] = x[1] /\ w[2] = x[2]) IN
                IF hit = <<>> THEN "" ELSE hit[Len(hit)][3]
  IN IF t.ok THEN {<<t.v[i][1], t.v[i][2], val(t.v[i])>> : i \in 1..Len(t.v)} ELSE {}
Truth(api, v) ==
  CASE api \in {"absence", "subabs"} ->
         LET got == Row3(v.set) IN
         /\ SetOf(got) \subseteq Named /\ Named \subseteq SetOf(got)
    [] api = "raw" -> v.set = ans.rows
    [] api \in {"info", "subinfo"} -> /\ Row3(v.set) = Row3(Nonempty(ans.rows)) /\ ans.last # ""
                       /\ <<v.ft>> = E!OfTree(ElOf(ans.last))
    [] OTHER -> Row3(v.set) = Row3(Nonempty(ans.rows))
\* one proof for several queries: each is read out of it, unless another looks
\* inside what it selects, or for other positions of an append-only layer
RECURSIVE Upward(_)
Upward(q) == LET ok(b) == \A i \in 1..Len(b.sub) : Upward(b.sub[i]) IN q.left /\ ok(q.def) /\ \A i \in 1..Len(q.cond) : ok(q.cond[i][2])
RECURSIVE InPositions(_, _, _, _)
InPositions(m, q, path, y) ==
  IF y.t = "merk" THEN \A i \in 1..Len(y.subs) : InPositions(m, q, Append(path, y.subs[i][1]), y.subs[i][2])
  ELSE LET a == PQAt(q, path) b == PQAt(m, path) IN
       IF a.st = "query" /\ b.st = "query"
       THEN              /\ \A i \in 1..Len(b.q.items) : \A x \in {b.q.items[i].a, b.q.items[i].b} :
                             x = "" \/ BLen(x) = (IF y.t = "dense" THEN 2 ELSE 8)
                         /\ Picked(y, a.q.items) = Picked(y, b.q.items)
       ELSE a.st # "path"
Reads(x, a) == x.st = "ok" /\ x.v.root = root /\ Row3(x.v.set) = Row3(Nonempty(a.rows))
Refused(x) == x.st = "err" \/ (x.st = "ok" /\ x.v.root # root)
ManyOk(r) ==
  LET n == Len(r.pqs)
      as == [i \in 1..n |-> AnswerOf(r.pqs[i], db)]
      hidden(i) == \E j \in 1..Len(as[i].rows) : LET x == as[i].rows[j] IN Type(x[3]) \notin SimpleTypes /\ GoesOn(PQAt(r.merged, x[1]), x[2])
      fits == (\A j \in 1..n : InPositions(r.merged, r.pqs[j], <<>>, db)) /\ \A j \in 1..n : Upward(r.pqs[j].q)
      c == r.chain
  IN /\ \A i \in 1..n : \/ Reads(r.subs[i], as[i])
                        \/ Refused(r.subs[i]) /\ (~fits \/ hidden(i))
     /\ IF \A i \in 1..n : ~Refused(r.subs[i])
        THEN /\ c.st = "ok" /\ c.v.root = root /\ c.v.sets = [i \in 1..n |-> r.subs[i].v.set]
             /\ r.args = SubSeq(c.v.sets, 1, n - 1)
        ELSE c.st # "panic" /\ (c.st = "err" \/ c.v.root # root)
     /\ r.none = "err"
\* one tree in the other, written as a list
RECURSIVE Nested(_, _)
Nested(flat, d) ==
  IF flat = <<>> THEN d
  ELSE LET x == flat[1] IN [f \in DOMAIN x \ {"into"} |-> IF f = "subs" THEN << <<x.into, Nested(Tail(flat), d)>> >> ELSE x[f]]
Step(r) ==
  CASE r.e = "new" ->
         LET d == Nested(r.flat, r.db) IN
         /\ db' = d /\ root' = r.root /\ els' = r.els /\ UNCHANGED <<pq, ans>>
         /\ Committed(d) /\ LayerHash(d) = r.root
    [] r.e = "query" -> pq' = r.pq /\ ans' = AnswerOf(r.pq, db) /\ UNCHANGED <<db, root, els>>
    [] r.e = "honest" ->
         /\ UNCHANGED <<db, root, els, pq, ans>>
         /\ IF r.api \in {"absence", "subabs"} /\ ~(LET t == Terminal(pq.q, pq.path, 0) IN t.ok /\ Len(t.v) <= pq.limit[1])
            THEN r.st = "err" \* only for a limited number of named keys
            ELSE IF r.api \in {"info", "subinfo"} /\ ans.last = "" THEN r.st = "err"
            ELSE r.st = "ok" /\ r.v.root = root /\ Truth(r.api, r.v)
    [] r.e = "many" -> UNCHANGED <<db, root, els, pq, ans>> /\ ManyOk(r)
    \* a proof of any provenance
    [] r.e = "forged" ->
         /\ UNCHANGED <<db, root, els, pq, ans>>
         /\ r.st \in {"ok", "err"}
         /\ (r.st = "ok" /\ r.v.root = root) => Truth(r.api, r.v)
    \* more layers than the query asks for: only what reads a part of a proof passes over them
    [] r.e = "surplus" ->
         /\ UNCHANGED <<db, root, els, pq, ans>>
         /\ IF r.api \in {"verify", "info"} THEN r.st = "err"
            ELSE r.st = "ok" /\ r.v.root = root /\ Truth(r.api, r.v)
    [] OTHER -> FALSE
Init == l = 1 /\ db = <<>> /\ root = "" /\ els = <<>> /\ pq = <<>> /\ ans = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
