----------------------------- MODULE FlagsTrace -----------------------------
EXTENDS Flags, Json, TLC, IOUtils
C == INSTANCE Costs WITH Cap32 <- "4294967295", Cap64 <- "18446744073709551615"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur
SetOf(s) == {s[i] : i \in 1..Len(s)}
Rm(r) == [t |-> r.t, s |-> SetOf(r.s)]
F(x) == [x EXCEPT !.m = SetOf(x.m)]
Some(s) == IF s = <<>> THEN <<>> ELSE <<F(s[1])>>
St(x) == [x EXCEPT !.rm = Rm(x.rm)]
Upd(r) == LET st == St(r.cost) IN Update(C!STransition(st), st.a, st.rm, SetOf(r.ids), r.old, r.new)
Same(v, w) == v.ok = w.ok /\ v.flags = w.flags /\ (w.ok => v.changed = w.changed)
Step(r) ==
  CASE r.e = "layout" ->          \* a flags value: encode, sizes, decode again
         /\ r.st = "ok" /\ UNCHANGED cur
         /\ LET f == F(r.f) IN
            /\ r.v.bytes = Enc(f) /\ r.v.len = Size(f)
            /\ Some(r.v.back) = <<f>>
            /\ r.v.base = f.base /\ r.v.own = f.own /\ r.v.multi = f.multi /\ SetOf(r.v.m) = f.m
            /\ r.v.type = TypeByte(f)
            /\ r.v.same              \* all the ways to and from element flags agree
            /\ F(r.v.setown) = (IF f.own = <<>> THEN f ELSE [f EXCEPT !.own = <<r.o>>])
            /\ F(r.v.single) = Single(f.base, f.own)
    [] r.e = "read" ->
         /\ UNCHANGED cur /\ r.st = "ok"
         /\ LET w == Read(r.b) IN
            IF r.b = "" THEN r.v.ok /\ r.v.none
            ELSE IF w = <<>> THEN ~r.v.ok
            ELSE r.v.ok /\ ~r.v.none /\ Some(r.v.f) = w
    [] r.e = "combine" ->
         /\ UNCHANGED cur /\ r.st = "ok"
         /\ LET a == F(r.a) b == F(r.b) rm == Rm(r.rm) IN
            /\ Some(r.v.added) = CombineAdded(a, b, r.n, r.strat)
            /\ Some(r.v.removed) = CombineRemoved(a, b, rm, SetOf(r.ids), r.strat)
            /\ Some(r.v.fresh) = <<b>>
    [] r.e = "split" ->
         /\ UNCHANGED cur /\ r.st = "ok"
         /\ LET f == F(r.f) IN Rm(r.v.key) = SplitKey(f, r.k) /\ Rm(r.v.value) = SplitValue(f, r.n)
    [] r.e = "splitb" ->
         /\ UNCHANGED cur /\ r.st = "ok" /\ r.v.after = r.b
         /\ LET w == Split(r.b, r.k, r.n) IN
            IF w = <<>> THEN ~r.v.ok ELSE r.v.ok /\ Rm(r.v.key) = w[1] /\ Rm(r.v.value) = w[2]
    [] r.e = "update" -> UNCHANGED cur /\ r.st = "ok" /\ Same(r.v, Upd(r))
    \* the life of an element
    [] r.e = "new" -> r.st = "ok" /\ cur' = Enc(Single(r.ep, r.own)) /\ r.v = cur'
    [] r.e = "life" ->
         /\ r.st = "ok"
         /\ LET f == Read(cur)[1] b == Enc(Single(r.ep, r.own))
                rm == IF r.op = "rem" THEN SplitValue(f, r.n) ELSE RNone
                w == Update(CASE r.op = "add" -> "bigger" [] r.op = "rem" -> "smaller" [] OTHER -> "same",
                            r.n, rm, {x.id : x \in rm.s}, <<cur>>, b)
            IN /\ Rm(r.v.refund) = rm
               /\ Same(r.v.upd, w)
               /\ cur' = IF w.ok THEN w.flags ELSE cur
    [] OTHER -> FALSE
Init == l = 1 /\ cur = ""
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, cur>>
=============================================================================
