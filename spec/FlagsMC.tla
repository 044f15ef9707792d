------------------------------- MODULE FlagsMC -------------------------------
(* Every short life of one element: updates that add or remove bytes, or    *)
(* keep the size, in the same or a later epoch, by the same or another      *)
(* owner. The lives are replayed against the implementation.                *)
EXTENDS Flags, Json, TLC
CONSTANTS MaxEpoch, Amounts, Owners, Depth
VARIABLES f, hist
vars == <<f, hist>>
Own == {<<>>} \cup {<<BRepeat(o, 32)>> : o \in Owners}
Now == IF hist = <<>> THEN 1 ELSE hist[Len(hist)].ep
New(ep, o) == Single(ep, o)
AfterRemoval(x, ep, o, n) ==
  LET rm == SplitValue(x, n) IN CombineRemoved(x, New(ep, o), rm, {e.id : e \in rm.s}, "theirs")
Do(op, ep, o, n) ==
  LET r == CASE op = "add" -> CombineAdded(f, New(ep, o), n, "theirs")
             [] op = "rem" -> AfterRemoval(f, ep, o, n)
             [] OTHER -> <<f>> IN
  /\ r # <<>> /\ f' = r[1]
  /\ hist' = Append(hist, [op |-> op, ep |-> ep, own |-> o, n |-> n])
  /\ (Len(hist') = Depth => Emit(Env("SCHED_OUT", ""), ToJson(hist')))
Init == \E o \in Own : f = Single(1, o) /\ hist = <<[op |-> "new", ep |-> 1, own |-> o, n |-> "0"]>>
Next == Len(hist) < Depth /\ \E ep \in Now..MaxEpoch : \E o \in Own :
          \/ \E n \in Amounts : Do("add", ep, o, n) \/ Do("rem", ep, o, n)
          \/ Do("same", ep, o, "0")
Spec == Init /\ [][Next]_vars
Sane == WellFormed(f) /\ f.base = 1
RoundTrip == Read(Enc(f)) = <<f>>
RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN "0" ELSE LET x == CHOOSE x \in s : TRUE IN IAdd(x.n, Sum(s \ {x}))
SplitOk == \A n \in Amounts \cup {"0", Max32} :
  LET s == SplitValue(f, n).s IN
  /\ Sum(s) = n
  /\ \A x \in s : /\ x.id = Id(f) /\ x.ep \in {f.base} \cup Epochs(f.m)
                  /\ x.ep # f.base => ILeq(x.n, SubOr0(Bytes(f.m, x.ep), Overhead))
                  \* everything newer is used up first
                  /\ x.n # "0" => \A e \in Epochs(f.m) : e > x.ep =>
                       \E y \in s : y.ep = e /\ y.n = SubOr0(Bytes(f.m, e), Overhead)
\* adding changes one epoch by the amount added; removing leaves what was not refunded
Conserves == [][LET h == hist'[Len(hist')] IN
  /\ f'.base = f.base
  /\ h.op = "add" /\ h.ep > f.base =>
       /\ \A e \in Epochs(f.m) \ {h.ep} : e \in Epochs(f'.m) /\ Bytes(f'.m, e) = Bytes(f.m, e)
       /\ Epochs(f'.m) \subseteq Epochs(f.m) \cup {h.ep}
       /\ Bytes(f'.m, h.ep) = IAdd(h.n, IF h.ep \in Epochs(f.m) THEN Bytes(f.m, h.ep) ELSE "0")
  /\ h.op = "rem" /\ h.ep > f.base =>
       LET t == SplitValue(f, h.n).s
           took(e) == Sum({x \in t : x.ep = e}) IN
       /\ Epochs(f'.m) \subseteq Epochs(f.m)
       /\ \A e \in Epochs(f.m) : LET rest == ISub(Bytes(f.m, e), took(e)) IN
            IF e \in Epochs(f'.m) THEN Bytes(f'.m, e) = rest ELSE ILeq(rest, Overhead)
  /\ h.op = "same" => f' = f]_vars
=============================================================================
