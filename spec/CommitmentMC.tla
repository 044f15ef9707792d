---------------------------- MODULE CommitmentMC ----------------------------
(* The frontier carries all there is to know of the leaves.                 *)
EXTENDS Commitment, TLC
CONSTANT N
VARIABLES cs, f
Leaves == {Cat(<<Zeros(31), "01">>), Cat(<<"ff", Zeros(30), "3f">>)}
Init == cs = <<>> /\ f = NoFrontier
Next == Len(cs) < N /\ \E c \in Leaves : cs' = Append(cs, c) /\ f' = Push(f, c)
Spec == Init /\ [][Next]_<<cs, f>>
Same == /\ f.n = Dec(Len(cs)) /\ Anchor(f) = AnchorOf(cs)
        /\ FrontierOf(FrontierBytes(f)) = <<f>>
        /\ cs # <<>> => Len(f.om) = Ones(Dec(Len(cs) - 1))
=============================================================================
