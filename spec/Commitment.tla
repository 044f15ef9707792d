----------------------------- MODULE Commitment -----------------------------
(* Commitment trees. The notes' commitments are the leaves of a Merkle tree *)
(* of depth 32 of which only the frontier is kept: [n: number of leaves     *)
(* (decimal string), leaf: the last one, om: roots of the complete subtrees *)
(* to the left of it, lowest first]. The notes themselves are kept by a     *)
(* bulk append tree. The hash (Sinsemilla) is a stand-in, see stubs/orchard.*)
EXTENDS Naturals, Sequences, Prims
LOCAL INSTANCE TLC
LOCAL B == INSTANCE Bulk WITH vals <- <<>>, height <- 0, flushed <- 0, saved <- <<>>
Depth == 32
FieldOk(x) == BLen(x) = 32 /\ BAt(x, 31) < 64
Combine32(l, a, b) == LET h == H(<<Utf8("sinsemilla-model"), BE(Dec(l), 1), a, b>>) IN Cat(<<BSub(h, 0, 31), BE(Dec(BAt(h, 31) % 64), 1)>>)
RECURSIVE EmptyTab(_)
EmptyTab(k) == IF k = 0 THEN <<Cat(<<"02", Zeros(31)>>)>> ELSE LET t == EmptyTab(k - 1) IN Append(t, Combine32(k - 1, t[k], t[k]))
Empties == EmptyTab(31)
EmptyAnchor == "ae2935f1dfd8a24aed7c70df7de3a668eb7a49b1319880dde2bbd9031ae5d82f"
\* --- the tree over all leaves ---
RECURSIVE Level(_, _)
Level(s, l) == IF l = Depth THEN s[1]
               ELSE Level(TLCEval([i \in 1..((Len(s) + 1) \div 2) |-> Combine32(l, s[2 * i - 1], IF 2 * i <= Len(s) THEN s[2 * i] ELSE Empties[l + 1])]), l + 1)
AnchorOf(cs) == IF cs = <<>> THEN EmptyAnchor ELSE Level(cs, 0)
\* --- the frontier ---
NoFrontier == [n |-> "0", leaf |-> "", om |-> <<>>]
IsOdd(n) == ISub(n, IMul("2", IDiv(n, "2"))) # "0"
\* p: position shifted right by l, h: root of the subtree of height l with the last leaf
RECURSIVE Climb(_, _, _, _)
Climb(p, l, h, om) == IF l = Depth THEN h
                      ELSE IF IsOdd(p) THEN Climb(IDiv(p, "2"), l + 1, Combine32(l, om[1], h), Tail(om))
                      ELSE Climb(IDiv(p, "2"), l + 1, Combine32(l, h, Empties[l + 1]), om)
Anchor(f) == IF f.n = "0" THEN EmptyAnchor ELSE Climb(ISub(f.n, "1"), 0, f.leaf, f.om)
RECURSIVE Carry(_, _, _, _)
Carry(p, l, h, om) == IF IsOdd(p) THEN Carry(IDiv(p, "2"), l + 1, Combine32(l, om[1], h), Tail(om)) ELSE <<h>> \o om
Push(f, c) == [n |-> IAdd(f.n, "1"), leaf |-> c, om |-> IF f.n = "0" THEN <<>> ELSE Carry(ISub(f.n, "1"), 0, f.leaf, f.om)]
RECURSIVE PushAll(_, _)
PushAll(f, cs) == IF cs = <<>> THEN f ELSE PushAll(Push(f, cs[1]), Tail(cs))
FrontierFrom(cs) == PushAll(NoFrontier, cs)
Full(f) == f.n = IPow2(32)
RECURSIVE Ones(_)
Ones(n) == IF n = "0" THEN 0 ELSE (IF IsOdd(n) THEN 1 ELSE 0) + Ones(IDiv(n, "2"))
RECURSIVE TrailOnes(_)
TrailOnes(n) == IF IsOdd(n) THEN 1 + TrailOnes(IDiv(n, "2")) ELSE 0
\* Sinsemilla calls reported for a push
PushCalls(f) == 32 + IF f.n = "0" THEN 0 ELSE TrailOnes(ISub(f.n, "1"))
FrontierBytes(f) == IF f.n = "0" THEN "00" ELSE Cat(<<"01", BE(ISub(f.n, "1"), 8), f.leaf, BE(Dec(Len(f.om)), 1), Cat(f.om)>>)
\* <<>> or <<frontier>>; what follows it is ignored (older versions kept more there)
FrontierOf(b) ==
  IF b # "" /\ BSub(b, 0, 1) = "00" THEN <<NoFrontier>>
  ELSE IF BLen(b) < 42 THEN <<>>
  ELSE LET p == UnBE(BSub(b, 1, 9)) k == BAt(b, 41) IN
       IF \/ BSub(b, 0, 1) # "01" \/ BLen(b) < 42 + 32 * k \/ ~ILess(p, IPow2(32)) THEN <<>>
       ELSE IF Ones(p) # k \/ ~FieldOk(BSub(b, 9, 41)) \/ \E i \in 1..k : ~FieldOk(BSub(b, 10 + 32 * i, 42 + 32 * i)) THEN <<>>
       ELSE <<[n |-> IAdd(p, "1"), leaf |-> BSub(b, 9, 41), om |-> [i \in 1..k |-> BSub(b, 10 + 32 * i, 42 + 32 * i)]]>>
\* --- the whole tree: vs are notes: commitment, nullifier, ciphertext ---
NoteSize == 280
NoteOk(v) == BLen(v) = NoteSize /\ FieldOk(BSub(v, 0, 32))
Commitments(vs) == [i \in 1..Len(vs) |-> BSub(vs[i], 0, 32)]
StateRoot(anchor, bulk) == H(<<Utf8("ct_state"), anchor, bulk>>)
CtRoot(vs, h) == StateRoot(AnchorOf(Commitments(vs)), B!BRoot(vs, h))
=============================================================================
