---------------------------- MODULE GroveAttackMC ----------------------------
(* One entry of a tree in a proof of a hierarchy of trees, against an       *)
(* attacker who shows it in any node form, with any claimed value and any   *)
(* layer attached below, for a query that ends at the entry or goes on      *)
(* below it. Hashes are symbolic terms. Sound: what is accepted states the  *)
(* truth about the entry. Each constant is a rule of verification that was  *)
(* missing or incomplete in the code; without it TLC finds a forgery.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Prims
CONSTANTS RefsResolved,   \* an unresolved reference is not accepted
          EmptyChecked,   \* an empty tree's value hash is checked also where the query goes on below it
          ChildForAll,    \* a non-Merk tree shown without its contents needs its child hash checked too
          UnusedChecked,  \* a layer attached where the query ends must match
          TypedLayers     \* the kind of a layer must be the kind of its tree
Kinds == {"item", "ref", "empty", "emptysum", "tree", "sumtree", "provcount", "mmr", "bulk", "ct", "dense"}
Simple == {"item"}
NonMerk == {"mmr", "bulk", "ct", "dense"}
Full == {"tree", "sumtree", "provcount"} \cup NonMerk
Empty == {"empty", "emptysum"}
\* a value: whose it is and what kind it reads as
V(w, k) == [who |-> w, kind |-> k]
True(k) == V("true", k)
Res == V("res", "item")
Lies == {V("lie", k) : k \in Kinds}
\* hash terms as sequences
Hv(v) == <<"value", v.who, v.kind>>
Comb(a, b) == <<"comb", a, b>>
Null == <<"null">>
Own == <<"own">>
Sup(k) == CASE k = "ref" -> <<Hv(Res)>> [] k \in Empty -> <<Null>> [] k \in Full -> <<Own>> [] OTHER -> <<>>
VHash(k) == IF Sup(k) = <<>> THEN Hv(True(k)) ELSE Comb(Hv(True(k)), Sup(k)[1])
\* layers to attach: the true one, showing its answer or not; another tree's; a Merk reading of the true
\* contents of a dense tree, which has the same root
Lows == {"none", "own", "other", "alien"}
LRoot(k, y) == CASE y = "own" -> Own [] y = "alien" -> (IF k = "dense" THEN Own ELSE <<"alien">>) [] OTHER -> <<"other">>
LMerk(k, y) == CASE y = "own" -> k \notin NonMerk [] OTHER -> TRUE
Forms == {"kv", "vh", "ft", "child", "ref", "kvcount", "refcount", "digest"}
VARIABLES kind, on, form, claim, low, done
vars == <<kind, on, form, claim, low, done>>
Init == kind \in Kinds /\ on \in BOOLEAN /\ form = "" /\ claim = True(kind) /\ low = "none" /\ done = FALSE
Show == /\ ~done /\ done' = TRUE
        /\ form' \in Forms
        /\ claim' \in {True(kind), Res} \cup Lies
        /\ low' \in (IF kind \in Full \cup {"empty"} THEN Lows ELSE {"none", "other", "alien"})
        /\ UNCHANGED <<kind, on>>
Next == Show
Spec == Init /\ [][Next]_vars
\* --- the key-value proof: what the node's hash covers; the rest may be chosen to fit ---
ByHash ==
  CASE form \in {"kv", "kvcount"} -> Hv(claim) = VHash(kind)
    [] form \in {"vh", "ft"} -> claim.kind \notin Simple
    [] form = "child" -> claim.kind \notin Simple /\ Sup(kind) # <<>> /\ claim = True(kind)
    [] form \in {"ref", "refcount"} -> Sup(kind) # <<>> /\ <<Hv(claim)>> = Sup(kind)
    [] OTHER -> FALSE \* a digest of a selected key is no answer
\* --- the hierarchy ---
k == claim.kind
Accepts ==
  /\ ByHash
  /\ RefsResolved => k # "ref"
  /\ IF low # "none"
     THEN /\ k \in Full
          /\ IF on THEN /\ Comb(Hv(claim), LRoot(kind, low)) = VHash(kind)
                        /\ IF TypedLayers THEN LMerk(kind, low) = (k \notin NonMerk) ELSE LMerk(kind, low) \/ k \in NonMerk
             ELSE UnusedChecked => (form = "child" \/ Comb(Hv(claim), LRoot(kind, low)) = VHash(kind))
     ELSE /\ (k \in Empty /\ (~on \/ EmptyChecked)) => Comb(Hv(claim), Null) = VHash(kind)
          /\ k \in Full => ~on
          /\ (k \in Full /\ (ChildForAll \/ k \notin NonMerk)) => form = "child"
\* what it states: the value of the entry, nothing (an empty tree gone into), or the contents of a layer
Stated == IF ~on \/ k \notin Empty \cup Full THEN <<"value", claim>>
          ELSE IF low = "none" THEN <<"nothing">> ELSE <<"contents", low>>
Truth == IF kind = "ref" THEN <<"value", Res>>
         ELSE IF ~on \/ kind \notin Empty \cup Full THEN <<"value", True(kind)>>
         ELSE IF kind \in Empty THEN <<"nothing">> ELSE <<"contents", "own">>
Sound == (done /\ Accepts) => Stated = Truth
\* the honest showing is accepted
Honest == [item |-> "kv", ref |-> "ref", empty |-> "vh", emptysum |-> "vh"]
Complete == (done /\ low = (IF on /\ kind \in Full THEN "own" ELSE "none")
             /\ claim = (IF kind = "ref" THEN Res ELSE True(kind))
             /\ form = (IF kind \in DOMAIN Honest THEN Honest[kind] ELSE IF on THEN "vh" ELSE "child")) => Accepts
Out == (~done /\ ~on) => Emit(Env("SCHED_OUT", ""), ToJson([kind |-> kind, claims |-> <<"true", "res", "lie">>]))
=============================================================================
