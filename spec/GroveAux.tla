------------------------------ MODULE GroveAux ------------------------------
(* Auxiliary data: values by key beside the hierarchy. aux is what is       *)
(* committed; ov has for every open transaction what it has written (a      *)
(* value or, deleted, none) over whatever is committed, and whether somebody*)
(* else has committed a change of one of those keys since: then it cannot   *)
(* commit any more.                                                         *)
LOCAL INSTANCE TLC
NoKeys == [k \in {} |-> <<>>]
Put2(f, k, v) == (k :> v) @@ f
Over(aux, w) == LET gone == {k \in DOMAIN w : w[k] = <<>>} IN
                [k \in (DOMAIN aux \cup DOMAIN w) \ gone |-> IF k \in DOMAIN w THEN w[k][1] ELSE aux[k]]
AuxView(aux, ov, x) == IF x = 0 THEN aux ELSE Over(aux, ov[x].w)
Idle == [w |-> NoKeys, bad |-> FALSE]
\* the change w becomes visible to everybody but who made it
Bump(ov, w) == [y \in DOMAIN ov |-> [ov[y] EXCEPT !.bad = @ \/ DOMAIN ov[y].w \cap DOMAIN w # {}]]
Stage(ov, x, k, v) == [ov EXCEPT ![x].w = Put2(@, k, v)]
Leave(ov, x) == [y \in DOMAIN ov \ {x} |-> ov[y]]
=============================================================================
