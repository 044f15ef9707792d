------------------------------ MODULE GroveLog ------------------------------
(* A recording of a database: T is the committed hierarchy, seen what is    *)
(* physically stored for each tree of it ([hash, agg, rk]), txs the open    *)
(* transactions with the hierarchy each of them sees.                       *)
EXTENDS GroveProve, GroveTx, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, T, seen, txs
vars == <<l, T, seen, txs>>
\* --- what is stored ---
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Prefix(p) == IF p = <<>> THEN Zeros(32)
             ELSE H(Rev(p) \o <<LEnc(Dec(Len(p)), 8)>> \o [i \in 1..Len(p) |-> Byte(BLen(Rev(p)[i]))])
\* key of the node nothing links to
RootKey(ns) == LET linked == UNION {{ns[i].l[1].k : x \in DOMAIN ns[i].l} \cup {ns[i].r[1].k : x \in DOMAIN ns[i].r} : i \in DOMAIN ns}
                   free == {ns[i].k : i \in DOMAIN ns} \ linked
               IN IF free = {} THEN <<>> ELSE <<CHOOSE k \in free : TRUE>>
NoSight == [hash |-> NullHash, agg |-> NoAgg, rk |-> <<>>, ok |-> TRUE]
\* d: path -> changed rows of that tree
Look2(U, p, d) ==
  IF \E i \in DOMAIN d.nodes : "raw" \in DOMAIN d.nodes[i] THEN [NoSight EXCEPT !.ok = FALSE]
  ELSE LET rk == RootKey(d.nodes) x == Look(ByKey(d.nodes), rk, U[p].k, 40) IN
       [hash |-> x.hash, agg |-> x.agg, rk |-> rk,
        ok |-> /\ x.ok /\ Sorted(x.ks) /\ Len(x.ks) = Len(d.nodes) /\ {x.ks[i] : i \in DOMAIN x.ks} = DOMAIN U[p].es
               /\ (IF p = <<>> THEN rk = <<>> \/ d.rk = rk ELSE d.rk = <<>>)]      \* a key that leads to no node: no root
Sight(U, p, diff, old) ==
  IF U[p].k \in Appends
  THEN IF p \in DOMAIN T /\ p \in DOMAIN old THEN IF T[p] = U[p] THEN old[p] ELSE [NoSight EXCEPT !.hash = AppendHash(U[p])]
       ELSE [NoSight EXCEPT !.hash = AppendHash(U[p])]
  ELSE IF p \in DOMAIN diff THEN Look2(U, p, diff[p])
  ELSE IF p \in DOMAIN old THEN IF T[p].k \in Appends THEN NoSight ELSE old[p] ELSE NoSight
Stored(e, s) == IF e.k \in Merks THEN EncEl([e EXCEPT !.root = s.rk, !.s = s.agg.s, !.n = s.agg.n]) ELSE EncEl(e)
EntryOk(U, p, n, now) ==
  LET x == U[p].es[n.k] e == Fill(U, p, n.k) c == Append(p, n.k) s == IF c \in DOMAIN now THEN now[c] ELSE NoSight IN
  /\ n.v = Stored(e, s)
  /\ n.f = InTree(e, U[p].k)
  /\ \/ x.rh = "?"
     \/ n.vh = IF e.k \in Trees THEN Combine(ValueHash(n.v), s.hash)
               ELSE IF e.k = "ref" THEN Combine(ValueHash(n.v), x.rh) ELSE ValueHash(n.v)
\* the change takes what is stored for T1 (known as old) to what U requires; now: sights of U
Stores(T1, U, old, now, diff, dp) ==
  /\ \A i \in DOMAIN dp : dp[i].nodes = <<>> \/ \E p \in DOMAIN diff : Prefix(p) = dp[i].p      \* nothing stored elsewhere
  /\ \A p \in DOMAIN U :
       IF U[p].k \in Appends
       THEN U[p].vals = <<>> => (IF p \in DOMAIN diff THEN diff[p].nodes = <<>> ELSE (p \in DOMAIN T1 => T1[p].vals = <<>>))
       ELSE IF p \in DOMAIN diff
       THEN now[p].ok /\ \A i \in DOMAIN diff[p].nodes : EntryOk(U, p, diff[p].nodes[i], now)
       ELSE IF p \notin DOMAIN T1 THEN U[p].es = None
       ELSE /\ U[p].es = T1[p].es
            /\ \A k \in DOMAIN U[p].es : LET c == Append(p, k) IN c \in DOMAIN U => (c \in DOMAIN old /\ now[c] = old[c])
  /\ \A p \in DOMAIN T1 \ DOMAIN U : EmptyAt(T1, p) \/ p \in DOMAIN diff
  /\ \A p \in DOMAIN diff \ DOMAIN U : diff[p].nodes = <<>>
\* rows: what changed in the store, by prefix
Moves(U, rows, rh) ==
  LET all == DOMAIN T \cup DOMAIN U
      pre == [p \in all |-> Prefix(p)]
      hit == {p \in all : \E i \in DOMAIN rows : rows[i].p = pre[p]}
      diff == [p \in hit |-> rows[CHOOSE i \in DOMAIN rows : rows[i].p = pre[p]]]
      now == [p \in DOMAIN U |-> Sight(U, p, diff, seen)]
  IN /\ Stores(T, U, seen, now, diff, rows)
     /\ T' = U /\ seen' = now /\ rh = now[<<>>].hash
\* --- operations ---
HashOut(U, f) == LET e == Fill(U, f[1], f[2]) c == Append(f[1], f[2]) IN
                 ValueHash(Stored(e, IF e.k \in Merks THEN seen[c] ELSE NoSight))
HashIn(U, f) == LET e == Fill(U, f[1], f[2]) IN IF e.k \in Merks THEN "?" ELSE ValueHash(EncEl(e))
Norm(e) == IF e.k \in Merks /\ e.root # <<>> THEN [e EXCEPT !.root = <<"">>] ELSE e
Do(U, o, hash(_, _)) ==
  CASE o.o = "insert" -> Insert(U, o.p, o.k, o.el, o.no, o.nt, hash)
    [] o.o = "ine" -> IF BLen(o.k) <= 255 /\ Has(U, o.p, o.k) THEN Same(U, Ok(FALSE))
                      ELSE [Insert(U, o.p, o.k, o.el, FALSE, TRUE, hash) EXCEPT !.v = TRUE]
    [] o.o = "iner" -> IF BLen(o.k) <= 255 /\ Has(U, o.p, o.k) THEN Same(U, Ok(<<Fill(U, o.p, o.k)>>))
                       ELSE [Insert(U, o.p, o.k, o.el, FALSE, TRUE, hash) EXCEPT !.v = <<>>]
    [] o.o = "icv" -> LET old == IF Has(U, o.p, o.k) THEN <<Fill(U, o.p, o.k)>> ELSE <<>> IN
                      IF BLen(o.k) <= 255 /\ old = <<o.el>> THEN Same(U, Ok(<<FALSE, <<>> >>))
                      ELSE [Insert(U, o.p, o.k, o.el, FALSE, TRUE, hash) EXCEPT !.v = <<TRUE, old>>]
    [] o.o = "delete" -> [Delete(U, o.p, o.k, o.allow, o.err) EXCEPT !.v = 0]
    [] o.o = "delempty" -> Delete(U, o.p, o.k, FALSE, FALSE)
    [] o.o = "delup" -> DeleteUp(U, o.p, o.k, o.allow, o.err, o.stop)
    [] o.o = "clear" -> Clear(U, o.p, o.check, o.allow, o.err)
    [] o.o = "append" -> AppendTo(U, o.p, o.k, o.kind, o.val)
    [] o.o = "aread" -> Same(U, ReadOf(U, o.p, o.k, o.kind, o.what, o.i))
    [] o.o = "batch" -> Batch(U, o.ops, o.no, o.nt, o.check, hash)
    [] o.o = "get" -> Same(U, Get(U, o.p, o.k))
    [] o.o = "raw" -> Same(U, IF Has(U, o.p, o.k) THEN Ok(Fill(U, o.p, o.k)) ELSE Err)
    [] o.o = "rawopt" -> IF Has(U, o.p, o.k) THEN Same(U, Ok(<<Fill(U, o.p, o.k)>>))
                         \* a path through something that is no tree may be an error
                         ELSE Same(U, [Ok(<<>>) EXCEPT !.st = IF Blocked(U, o.p) THEN {"ok", "err"} ELSE @])
    [] o.o = "has" -> Same(U, Ok(Has(U, o.p, o.k)))
    [] o.o = "follow" -> Same(U, Found(U, Follow(U, o.p, {}, MaxHops)))
    [] o.o = "empty" -> Same(U, IsEmpty(U, o.p))
    [] o.o = "trees" -> Same(U, Ok(Subtrees(U, o.p)))
    [] o.o = "query" -> Same(U, Query(U, o))
    [] o.o = "aggsum" -> Same(U, Sums(U, o))
    [] o.o \in {"prove", "provemany"} -> Same(U, Ok(0))
    [] o.o = "verify" -> Same(U, Ok(0))
Range(s) == {s[i] : i \in DOMAIN s}
\* what the recording shows for a result
Shows(o, v) ==
  CASE o.o \in {"get", "raw", "follow"} -> Norm(v)
    [] o.o \in {"iner", "rawopt"} -> IF v = <<>> THEN v ELSE <<Norm(v[1])>>
    [] o.o = "icv" -> <<v[1], IF v[2] = <<>> THEN v[2] ELSE <<Norm(v[2][1])>> >>
    [] o.o = "trees" -> Range(v)
    [] o.o = "query" /\ o.api \in {"raw", "query"} ->
         [v EXCEPT !.rows = [i \in DOMAIN @ |-> LET x == @[i] IN Append(SubSeq(x, 1, Len(x) - 1), Norm(x[Len(x)]))]]
    [] o.o = "query" /\ o.api \in {"rawkeys", "keys"} ->
         {<<v[i][1], v[i][2], IF v[i][3] = <<>> THEN <<>> ELSE <<Norm(v[i][3][1])>> >> : i \in DOMAIN v}
    [] OTHER -> v
\* --- proofs ---
Shown(rows) == [i \in DOMAIN rows |-> <<rows[i][1], rows[i][2], IF rows[i][3] = <<>> THEN <<>> ELSE <<Norm(rows[i][3][1])>> >>]
Ones(rows) == [i \in DOMAIN rows |-> <<rows[i][1], rows[i][2], <<rows[i][3]>> >>]
\* x: the outcome of a verification, w: the answer it may give
Match(api, x, w, a) ==
  /\ x.st = "ok" /\ x.v.root = seen[<<>>].hash
  /\ IF api \in {"absence", "subabs"} THEN SetOfSeq(Shown(x.v.rows)) = w ELSE Shown(x.v.rows) = Ones(w)
  /\ api \in {"info", "subinfo"} => <<x.v.ft>> = OfTree(a.last[1])
Refused(x) == x.st = "err" \/ (x.st = "ok" /\ x.v.root # seen[<<>>].hash)
TellProof(r) ==
  LET pq == r.op.pq a == Proved(T, pq) IN
  IF ~Provable(T, pq) \/ a.st = "err" THEN r.st = "err"
  ELSE /\ r.st \in (IF a.st = "any" THEN {"ok", "err"} ELSE {"ok"})
       /\ r.st = "ok" => \A api \in Apis : LET w == Verified(api, pq, a) x == r.v[api] IN
            \/ x.st = "err" /\ w = <<>>
            \/ Refused(x) /\ a.st = "any"
            \/ IF w = <<>> THEN FALSE ELSE Match(api, x, w[1], a)
\* one proof for several queries; each of them is read out of it unless
\* another looks inside what it selects
RECURSIVE Upward(_)
Upward(q) == LET ok(b) == \A i \in 1..Len(b.sub) : Upward(b.sub[i]) IN q.left /\ ok(q.def) /\ \A i \in 1..Len(q.cond) : ok(q.cond[i][2])
TellMany(r) ==
  LET qs == r.op.pqs n == Len(qs) IN
  IF r.merged = <<>> THEN r.st = "err" /\ \E i \in 1..n : qs[i].limit # <<>> \/ qs[i].offset # <<>>
  ELSE LET m == r.merged[1] all == Proved(T, m)
           as == [i \in 1..n |-> Proved(T, qs[i])]
           hidden(i) == \E j \in 1..Len(as[i].rows) : LET x == as[i].rows[j] IN x[3].k \in Trees /\ Q!GoesOn(Q!PQAt(m, x[1]), x[2])
           \* a tree is proved in one direction
           sure(i) == as[i].st = "ok" /\ ~hidden(i) /\ \A j \in 1..n : Upward(qs[j].q)
       IN IF all.st = "err" \/ ~Provable(T, m) THEN r.st = "err"
          ELSE /\ r.st \in (IF all.st = "any" THEN {"ok", "err"} ELSE {"ok"})
               /\ r.st = "ok" =>
                    /\ \A i \in 1..n : LET x == r.v.subs[i] IN
                         \/ Refused(x) /\ (~sure(i) \/ all.st = "any")
                         \/ Match("subset", x, Solid(as[i].rows), as[i])
                    /\ LET c == r.v.chain IN
                       IF \A i \in 1..n : ~Refused(r.v.subs[i])
                       THEN /\ c.st = "ok" /\ c.v.root = seen[<<>>].hash
                            /\ c.v.sets = [i \in 1..n |-> r.v.subs[i].v.rows]
                            /\ c.v.args = SubSeq(c.v.sets, 1, n - 1)
                       ELSE c.st # "panic" /\ (all.st = "any" \/ c.st = "err")
                    /\ r.v.none = "err"
Tell(r, res) == IF r.op.o = "prove" THEN TellProof(r) ELSE IF r.op.o = "provemany" THEN TellMany(r) ELSE r.st \in res.st /\ (IF "any" \in DOMAIN res THEN TRUE ELSE r.st = "ok" => Shows(r.op, r.v) = res.v)
Unchanged(r) == r.diff = <<>> /\ r.rh = seen[<<>>].hash /\ UNCHANGED <<T, seen>>
\* what changes nothing may or may not write something
Quietly(same, new, old) == IF same THEN {new, old} ELSE {new}
Step(r) ==
  CASE r.e = "new" -> T' = T0 /\ seen' = [x \in {<<>>} |-> NoSight] /\ txs' = None
    [] r.e = "op" /\ r.x = 0 ->
         LET res == Do(T, r.op, HashOut) IN
         /\ Tell(r, res)
         /\ IF r.st = "ok" /\ res.w THEN Moves(res.T, r.diff, r.rh) /\ txs' \in Quietly(res.T = T, Touch(txs), txs)
            ELSE Unchanged(r) /\ UNCHANGED txs
    [] r.e = "op" /\ r.x # 0 ->
         /\ Unchanged(r)
         /\ IF txs[r.x].stale THEN r.st # "panic" /\ UNCHANGED txs
            ELSE LET U == View(T, txs, r.x) res == Do(U, r.op, HashIn) IN
                 /\ Tell(r, res)
                 /\ txs' \in IF r.st = "ok" /\ res.w THEN Quietly(res.T = U, Wrote(txs, r.x, res.T), txs) ELSE {txs}
    [] r.e = "begin" -> Unchanged(r) /\ txs' = Begun(T, txs, r.x)
    [] r.e = "commit" ->
         /\ r.st = (IF MayCommit(txs, r.x) THEN "ok" ELSE "err")
         /\ txs' = AfterCommit(txs, r.x)
         /\ LET U == Committed(T, txs, r.x) IN IF txs[r.x].wrote /\ MayCommit(txs, r.x) THEN Moves(U, r.diff, r.rh) ELSE Unchanged(r)
    [] r.e = "drop" -> Unchanged(r) /\ txs' = Without(txs, r.x)
    [] r.e = "undo" -> Unchanged(r) /\ txs' = Undone(T, txs, r.x)
    [] r.e = "reopen" -> Unchanged(r) /\ UNCHANGED txs
    [] r.e = "twin" -> r.same /\ r.rh = seen[<<>>].hash /\ UNCHANGED <<T, seen, txs>>
    [] OTHER -> FALSE
=============================================================================
