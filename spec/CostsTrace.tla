----------------------------- MODULE CostsTrace -----------------------------
EXTENDS Naturals, Sequences, Prims, Json, TLC, IOUtils
C == INSTANCE Costs WITH Cap32 <- "4294967295", Cap64 <- "18446744073709551615"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* recorded removed bytes list their entries; empty lists of epochs do not matter
Rm(r) == [t |-> r.t, s |-> {r.s[i] : i \in 1..Len(r.s)}]
St(x) == [x EXCEPT !.rm = Rm(x.rm)]
Op(x) == [x EXCEPT !.st = St(x.st)]
KV(x) == [x EXCEPT !.k = St(x.k), !.v = St(x.v)]
Opt(f(_), s) == IF s = <<>> THEN <<>> ELSE <<f(s[1])>>
Ctx(x) == [x EXCEPT !.cost = Op(x.cost)]
Stp(x) == [x EXCEPT !.cost = Op(x.cost)]
RECURSIVE ChainOk(_, _, _)
ChainOk(x, steps, outs) ==
  steps = <<>> \/ LET y == C!Chain(x, Stp(steps[1])) IN
                  Ctx(outs[1]) = y /\ ChainOk(y, Tail(steps), Tail(outs))
Step(r) ==
  CASE r.e = "rm"  -> /\ r.st = "ok"
                      /\ LET a == Rm(r.a) b == Rm(r.b) IN
                         /\ Rm(r.v.sum) = C!RAdd(a, b) /\ Rm(r.v.inplace) = C!RAdd(a, b)
                         /\ r.v.total = C!RTotal(a) /\ r.v.has = C!RHas(a)
                         /\ r.v.less = ILess(C!RTotal(a), C!RTotal(b))
                         /\ r.v.leq = ILeq(C!RTotal(a), C!RTotal(b))
    [] r.e = "st"  -> /\ r.st = "ok"
                      /\ LET a == St(r.a) b == St(r.b) IN
                         /\ St(r.v.sum) = C!SAdd(a, b) /\ St(r.v.inplace) = C!SAdd(a, b)
                         /\ r.v.transition = C!STransition(a)
                         /\ r.v.worse = C!SWorse(a, b) /\ r.v.changes = C!SChanges(a)
    [] r.e = "op"  -> /\ r.st = "ok"
                      /\ LET a == Op(r.a) b == Op(r.b) IN
                         /\ Op(r.v.sum) = C!Add(a, b) /\ Op(r.v.inplace) = C!Add(a, b)
                         /\ r.v.worse = C!Worse(a, b) /\ r.v.nothing = (a = C!Zero)
    [] r.e = "with" -> r.st = "ok" /\ LET n == r.n IN
                      /\ Op(r.v.seek) = [C!Zero EXCEPT !.seek = n]
                      /\ Op(r.v.written) = [C!Zero EXCEPT !.st.a = n]
                      /\ Op(r.v.load) = [C!Zero EXCEPT !.load = n]
                      /\ Op(r.v.freed) = [C!Zero EXCEPT !.st.rm = C!RBasic(n)]
                      /\ Op(r.v.hash) = [C!Zero EXCEPT !.hash = n]
    [] r.e = "kv"  -> /\ r.st = "ok"
                      /\ LET a == KV(r.a) b == KV(r.b) IN
                         /\ KV(r.v.sum) = C!KVAdd(a, b) /\ KV(r.v.inplace) = C!KVAdd(a, b)
                         /\ Rm(r.v.removed) = C!RAdd(a.k.rm, a.v.rm)
    [] r.e = "verify" -> /\ r.st = "ok"
                      /\ LET a == St(r.a) IN
                         /\ r.v.plain = C!SVerifies(a, r.len)
                         /\ r.v.new = C!SVerifies(a, r.len) /\ r.v.old
    [] r.e = "root" -> r.st = "ok" /\ KV(r.v) = C!RootCost(r.old, r.new)
    [] r.e = "addkv" -> LET w == C!AddKV(Op(r.c0), r.klen, r.vlen, r.ch, Opt(KV, r.info)) IN
                        /\ r.st = "ok"
                        /\ r.v.ok = (w # <<>>)
                        /\ Op(r.v.cost) = IF w = <<>> THEN Op(r.c0) ELSE w[1]
    [] r.e = "chain" -> r.st = "ok" /\ ChainOk(Ctx(r.x), r.steps, r.v)
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
