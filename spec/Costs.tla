-------------------------------- MODULE Costs --------------------------------
(* Operation costs. Counters are unbounded integers written in decimal and  *)
(* capped when added. Removed bytes are a record [t, s]: t is "none",       *)
(* "basic" or "sect"; s is a set of entries [id, ep, n], the amount removed *)
(* for owner id in epoch ep (basic: one entry for the anonymous owner in    *)
(* the unknown epoch).                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, Prims
CONSTANTS Cap32, Cap64
Anon == Zeros(32)
Unknown == 65535
Add32(a, b) == IMin(IAdd(a, b), Cap32)
Add64(a, b) == IMin(IAdd(a, b), Cap64)
Max32 == "4294967295"
Max64 == "18446744073709551615"
\* --- removed bytes ---
RNone == [t |-> "none", s |-> {}]
RBasic(n) == [t |-> "basic", s |-> {[id |-> Anon, ep |-> Unknown, n |-> n]}]
REntry(r, id, ep) == {x \in r.s : x.id = id /\ x.ep = ep}
RAmount(r, id, ep) == LET e == REntry(r, id, ep) IN IF e = {} THEN "0" ELSE (CHOOSE x \in e : TRUE).n
RSlots(r) == {<<x.id, x.ep>> : x \in r.s}
\* every owner's and epoch's amount is added
RAdd(a, b) ==
  [t |-> IF a.t = "none" THEN b.t ELSE IF b.t = "none" THEN a.t
         ELSE IF a.t = "basic" /\ b.t = "basic" THEN "basic" ELSE "sect",
   s |-> {[id |-> k[1], ep |-> k[2], n |-> Add32(RAmount(a, k[1], k[2]), RAmount(b, k[1], k[2]))]
            : k \in RSlots(a) \cup RSlots(b)}]
RECURSIVE RSum(_)
RSum(s) == IF s = {} THEN "0" ELSE LET x == CHOOSE x \in s : TRUE IN IAdd(x.n, RSum(s \ {x}))
RTotal(r) == IMin(RSum(r.s), Cap32)
RHas(r) == \E x \in r.s : x.n # "0"
\* --- storage costs [a: added, r: replaced, rm: removed] ---
SZero == [a |-> "0", r |-> "0", rm |-> RNone]
SAdd(x, y) == [a |-> Add32(x.a, y.a), r |-> Add32(x.r, y.r), rm |-> RAdd(x.rm, y.rm)]
SVerifies(x, len) == IEq(IAdd(x.a, x.r), len)
STransition(x) ==
  LET add == x.a # "0" rep == x.r # "0" rem == RHas(x.rm) IN
  IF add THEN IF rem THEN "replace" ELSE IF rep THEN "bigger" ELSE "new"
  ELSE IF rem THEN IF rep THEN "smaller" ELSE "delete"
  ELSE IF rep THEN "same" ELSE "none"
SWorse(x, y) == ILeq(y.a, x.a) /\ ILeq(y.r, x.r) /\ ILeq(RTotal(x.rm), RTotal(y.rm))
SChanges(x) == x.a # "0" \/ RTotal(x.rm) # "0"
\* --- operation costs [seek, st, load, hash, sin] ---
Zero == [seek |-> "0", st |-> SZero, load |-> "0", hash |-> "0", sin |-> "0"]
Add(x, y) == [seek |-> Add32(x.seek, y.seek), st |-> SAdd(x.st, y.st), load |-> Add64(x.load, y.load),
              hash |-> Add32(x.hash, y.hash), sin |-> Add32(x.sin, y.sin)]
Worse(x, y) == ILeq(y.seek, x.seek) /\ SWorse(x.st, y.st) /\ ILeq(y.load, x.load)
               /\ ILeq(y.hash, x.hash) /\ ILeq(y.sin, x.sin)
\* --- costs of a key and a value [k, v: storage costs, new, nv: booleans] ---
KVAdd(x, y) == [k |-> SAdd(x.k, y.k), v |-> SAdd(x.v, y.v), new |-> x.new /\ y.new, nv |-> x.nv /\ y.nv]
\* bytes needed to write down a length
LenSize(n) == IF ILess(n, "128") THEN "1" ELSE IF ILess(n, "16384") THEN "2"
              ELSE IF ILess(n, "2097152") THEN "3" ELSE IF ILess(n, "268435456") THEN "4" ELSE "5"
Paid(n) == IAdd(n, LenSize(n))
SubOr0(a, b) == IF ILess(a, b) THEN "0" ELSE ISub(a, b)
\* the cost of moving the root of a tree from a key of length o (<<>>: no root before) to one of length n
RootCost(o, n) ==
  IF o = <<>> THEN [k |-> [SZero EXCEPT !.a = "34"], v |-> [SZero EXCEPT !.a = Paid(n)], new |-> TRUE, nv |-> FALSE]
  ELSE LET p == Paid(n) q == Paid(o[1]) IN
       [k |-> [SZero EXCEPT !.r = "34"],
        v |-> IF ILess(q, p) THEN [SZero EXCEPT !.a = ISub(p, q), !.r = q]
              ELSE IF ILess(p, q) THEN [SZero EXCEPT !.r = p, !.rm = RBasic(ISub(q, p))]
              ELSE [SZero EXCEPT !.r = p],
        new |-> FALSE, nv |-> FALSE]
FeatureSize(kind) == IF kind = "one" THEN "8" ELSE "16"
\* The paid size of a value: ch = <<>>, or <<sum, left, right>> for a tree node, whose children links and
\* aggregate are not paid by their actual length: the node pays instead for its parent's link to it.
ChildLen(c) == IF c = <<>> THEN "0" ELSE IAdd(c[1], c[2])
PaidValue(klen, vlen, ch) ==
  IF ch = <<>> THEN Paid(vlen)
  ELSE LET bare == SubOr0(SubOr0(SubOr0(vlen, "2"), ChildLen(ch[2])), ChildLen(ch[3]))
           f == IF ch[1] = <<>> THEN "0" ELSE FeatureSize(ch[1][1])
           own == IF ch[1] = <<>> THEN bare ELSE IAdd(SubOr0(bare, ch[1][2]), f)
       IN ISum(<<Paid(own), klen, "4", f>>)
\* info = <<>> or <<key value cost>>; the outcome is <<>> (refused) or <<new cost>>
AddKV(c, klen, vlen, ch, info) ==
  LET pk == Paid(klen)
      pv == IF info # <<>> /\ ~info[1].nv THEN IAdd(info[1].v.a, info[1].v.r) ELSE PaidValue(klen, vlen, ch)
      plus(s) == [c EXCEPT !.st = SAdd(c.st, s)]
  IN IF info = <<>> THEN <<[c EXCEPT !.st = SAdd(SAdd(c.st, [SZero EXCEPT !.a = pk]), [SZero EXCEPT !.a = pv])]>>
     ELSE IF (info[1].new /\ ~SVerifies(info[1].k, pk)) \/ ~SVerifies(info[1].v, pv) THEN <<>>
     ELSE <<[c EXCEPT !.st = SAdd(SAdd(c.st, info[1].k), info[1].v)]>>
\* --- chaining: a context is [ok, val, cost]; a step runs or is skipped ---
\* steps: how (kind of combinator), ok and val (what the step itself does), cost (of the step)
Chain(x, s) ==
  CASE s.how = "map"         -> [x EXCEPT !.val = IF x.ok THEN IAdd(x.val, s.val) ELSE x.val]
    [] s.how = "map_err"     -> [x EXCEPT !.val = IF x.ok THEN x.val ELSE IAdd(x.val, s.val)]
    [] s.how = "flat_map"    -> [ok |-> s.ok, val |-> s.val, cost |-> Add(x.cost, s.cost)]
    [] s.how \in {"flat_map_ok", "macro", "macro_into"} ->
         IF x.ok THEN [ok |-> s.ok, val |-> s.val, cost |-> Add(x.cost, s.cost)] ELSE x
    [] s.how \in {"no_add", "into_no_add"} -> IF x.ok THEN [ok |-> s.ok, val |-> s.val, cost |-> x.cost] ELSE x
    [] s.how = "dflt"        -> IF s.ok THEN [x EXCEPT !.ok = TRUE, !.val = s.val]
                                ELSE [ok |-> FALSE, val |-> s.val, cost |-> Zero]
    [] s.how = "add_cost"    -> [x EXCEPT !.cost = Add(x.cost, s.cost)]
    [] s.how = "flatten_cost" -> [x EXCEPT !.cost = Add(x.cost, s.cost)]
    [] s.how = "flatten_res" -> IF x.ok THEN [x EXCEPT !.ok = s.ok, !.val = s.val] ELSE x
    [] s.how = "for_ok"      -> x
    [] s.how = "unwrap_add"  -> [x EXCEPT !.cost = Add(x.cost, s.cost)]
=============================================================================
