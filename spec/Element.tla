------------------------------- MODULE Element -------------------------------
(* Elements: the fifteen kinds, what each contributes and how it is stored. *)
(* el = [k, b, s, n, root, ref, hop, fl, p]: kind, item bytes, sum, count   *)
(* (or size), root key (<<>> or <<key>>), reference, hop limit, flags,      *)
(* chunk power or height. Fields a kind does not have are "", "0", 0, <<>>. *)
EXTENDS Wire, FiniteSets
R == INSTANCE Reference
Kinds == <<"item", "ref", "tree", "sumitem", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree",
           "itemsum", "provcountsumtree", "ct", "mmr", "bulk", "dense">>
KindSet == {Kinds[i] : i \in 1..15}
Disc(k) == (CHOOSE i \in 1..15 : Kinds[i] = k) - 1
Names == [item |-> "item", ref |-> "reference", tree |-> "tree", sumitem |-> "sum item", sumtree |-> "sum tree",
  bigsumtree |-> "big sum tree", counttree |-> "count tree", countsumtree |-> "count sum tree",
  provcounttree |-> "provable count tree", itemsum |-> "item with sum item", provcountsumtree |-> "provable count sum tree",
  ct |-> "commitment tree", mmr |-> "mmr tree", bulk |-> "bulk_append_tree", dense |-> "dense_tree"]
Items == {"item", "sumitem", "itemsum"}
Merks == {"tree", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "provcountsumtree"}
Appends == {"ct", "mmr", "bulk", "dense"}
Trees == Merks \cup Appends
HasBytes == {"item", "itemsum"}
HasSum == {"sumitem", "itemsum", "sumtree", "countsumtree", "provcountsumtree"}
HasCount == {"counttree", "countsumtree", "provcounttree", "provcountsumtree"}
\* --- what it is ---
Is(e) == [
  sum_tree |-> e.k = "sumtree", big_sum_tree |-> e.k = "bigsumtree", basic_tree |-> e.k = "tree", any_tree |-> e.k \in Trees,
  commitment |-> e.k = "ct", mmr |-> e.k = "mmr", bulk |-> e.k = "bulk", dense |-> e.k = "dense",
  non_merk |-> e.k \in Appends,
  non_empty |-> e.k \in Appends \/ (e.k \in Merks /\ e.root # <<>>),
  non_empty_merk |-> e.k \in Merks /\ e.root # <<>>,
  reference |-> e.k = "ref", any_item |-> e.k \in Items, basic_item |-> e.k = "item", has_basic |-> e.k \in HasBytes,
  sum_item |-> e.k \in {"sumitem", "itemsum"}, item_sum |-> e.k = "itemsum"]
Sum(e) == IF e.k \in HasSum THEN e.s ELSE "0"
BigSum(e) == IF e.k \in HasSum \cup {"bigsumtree"} THEN e.s ELSE "0"
Count(e) == IF e.k \in HasCount THEN e.n ELSE "1"
EntryCount(e) == IF e.k \in Appends THEN <<e.n>> ELSE <<>>
AsItem(e) == IF e.k \in HasBytes THEN <<e.b>> ELSE <<>>
AsSumItem(e) == IF e.k \in {"sumitem", "itemsum"} THEN <<e.s>> ELSE <<>>
AsSumTree(e) == IF e.k = "sumtree" THEN <<e.s>> ELSE <<>>
AsRef(e) == IF e.k = "ref" THEN <<e.ref>> ELSE <<>>
Absolute(e, path, key) ==
  IF e.k # "ref" \/ e.ref.t = "abs" THEN <<e>>
  ELSE LET a == R!Resolve(e.ref, path, key) IN
       IF a = <<>> THEN <<>> ELSE <<[e EXCEPT !.ref = [t |-> "abs", n |-> 0, p |-> a[1]]]>>
\* --- kinds on their own ---
Simple(k) == k \in Items
ProofNode(k, parent) ==        \* parent: <<>> or <<kind>>
  LET counted == parent # <<>> /\ parent[1] \in {"provcounttree", "provcountsumtree"} IN
  IF Simple(k) THEN IF counted THEN "KvCount" ELSE "Kv"
  ELSE IF k = "ref" THEN IF counted THEN "KvRefValueHashCount" ELSE "KvRefValueHash"
  ELSE IF counted THEN "KvValueHashFeatureType" ELSE "KvValueHash"
\* --- the tree it stands for ---
TreeKinds == <<"tree", "sumtree", "bigsumtree", "counttree", "countsumtree", "provcounttree", "provcountsumtree",
               "ct", "mmr", "bulk", "dense">>
TreeType(e) == IF e.k \in Trees THEN <<[k |-> e.k, p |-> IF e.k \in {"ct", "bulk", "dense"} THEN e.p ELSE 0]>> ELSE <<>>
\* what an entry contributes to a tree of a kind: [t, n, s]
Feature(k, n, s) ==
  CASE k = "sumtree" -> [t |-> "sum", n |-> "0", s |-> s]
    [] k = "bigsumtree" -> [t |-> "bigsum", n |-> "0", s |-> s]
    [] k = "counttree" -> [t |-> "count", n |-> n, s |-> "0"]
    [] k = "countsumtree" -> [t |-> "countsum", n |-> n, s |-> s]
    [] k = "provcounttree" -> [t |-> "provcount", n |-> n, s |-> "0"]
    [] k = "provcountsumtree" -> [t |-> "provcountsum", n |-> n, s |-> s]
    [] OTHER -> [t |-> "basic", n |-> "0", s |-> "0"]
InTree(e, parent) == Feature(parent, Count(e), IF parent = "bigsumtree" THEN BigSum(e) ELSE Sum(e))
OfTree(e) == IF e.k \in Trees THEN <<Feature(e.k, e.n, e.s)>> ELSE <<>>
AllowsSum(k) == k \in {"sumtree", "bigsumtree", "countsumtree", "provcountsumtree"}
\* --- layout ---
RefKindAt == <<"abs", "root", "root_parent", "from_end", "cousin", "removed_cousin", "sibling">>
RefTag(t) == (CHOOSE i \in 1..7 : RefKindAt[i] = t) - 1
EncRef(r) == Cat(<<Byte(RefTag(r.t)),
                   IF r.t \in {"root", "root_parent", "from_end"} THEN Byte(r.n) ELSE "",
                   IF r.t \in {"cousin", "sibling"} THEN Bytes(r.p[1]) ELSE Path(r.p)>>)
Fields(e) ==
  CASE e.k = "item" -> <<Bytes(e.b)>>
    [] e.k = "ref" -> <<EncRef(e.ref), Opt(e.hop, Byte)>>
    [] e.k = "tree" -> <<Opt(e.root, Bytes)>>
    [] e.k = "sumitem" -> <<BinI(e.s)>>
    [] e.k \in {"sumtree", "bigsumtree"} -> <<Opt(e.root, Bytes), BinI(e.s)>>
    [] e.k \in {"counttree", "provcounttree"} -> <<Opt(e.root, Bytes), BinU(e.n)>>
    [] e.k \in {"countsumtree", "provcountsumtree"} -> <<Opt(e.root, Bytes), BinU(e.n), BinI(e.s)>>
    [] e.k = "itemsum" -> <<Bytes(e.b), BinI(e.s)>>
    [] e.k = "mmr" -> <<BinU(e.n)>>
    [] OTHER -> <<BinU(e.n), Byte(e.p)>>
EncEl(e) == Cat(<<Byte(Disc(e.k))>> \o Fields(e) \o <<Opt(e.fl, Bytes)>>)
\* --- reading ---
Blank(k) == [k |-> k, b |-> "", s |-> "0", n |-> "0", root |-> <<>>, ref |-> [t |-> "abs", n |-> 0, p |-> <<>>],
             hop |-> <<>>, fl |-> <<>>, p |-> 0]
RRef(b, i) ==
  LET t == RNum(b, i, 4) IN
  IF t = <<>> \/ ~ILess(t[1], "7") THEN <<>>
  ELSE LET k == RefKindAt[ToInt(t[1]) + 1]
           n == IF k \in {"root", "root_parent", "from_end"} THEN RByte(b, t[2]) ELSE <<0, t[2]>>
       IN IF n = <<>> THEN <<>>
          ELSE LET one == k \in {"cousin", "sibling"}
                   p == IF one THEN RBytes(b, n[2]) ELSE RPath(b, n[2])
               IN IF p = <<>> THEN <<>>
                  ELSE <<[t |-> k, n |-> n[1], p |-> IF one THEN <<p[1]>> ELSE p[1]], p[2]>>
\* the fields of a kind in order
Layout(k) ==
  CASE k = "item" -> <<"b">> [] k = "ref" -> <<"ref", "hop">> [] k = "tree" -> <<"root">> [] k = "sumitem" -> <<"s">>
    [] k = "sumtree" -> <<"root", "s">> [] k = "bigsumtree" -> <<"root", "S">>
    [] k \in {"counttree", "provcounttree"} -> <<"root", "n">>
    [] k \in {"countsumtree", "provcountsumtree"} -> <<"root", "n", "s">>
    [] k = "itemsum" -> <<"b", "s">> [] k = "mmr" -> <<"n">> [] k = "dense" -> <<"N", "p">> [] OTHER -> <<"n", "p">>
RECURSIVE RFields(_, _, _, _)
RFields(b, i, e, fs) ==
  IF fs = <<>> THEN <<e, i>>
  ELSE LET f == fs[1]
           r == CASE f = "b" -> RBytes(b, i) [] f = "ref" -> RRef(b, i) [] f = "hop" -> ROpt(b, i, RByte)
                  [] f = "root" -> ROpt(b, i, RBytes) [] f = "s" -> RInt(b, i, 8) [] f = "S" -> RInt(b, i, 16)
                  [] f = "n" -> RNum(b, i, 8) [] f = "N" -> RNum(b, i, 2) [] f = "p" -> RByte(b, i) [] OTHER -> ROpt(b, i, RBytes)
           name == CASE f = "S" -> "s" [] f = "N" -> "n" [] OTHER -> f
       IN IF r = <<>> THEN <<>> ELSE RFields(b, r[2], [e EXCEPT ![name] = r[1]], Tail(fs))
REl(b, i) ==
  LET t == RNum(b, i, 4) IN
  IF t = <<>> \/ ~ILess(t[1], "15") THEN <<>>
  ELSE LET k == Kinds[ToInt(t[1]) + 1] IN RFields(b, t[2], Blank(k), Layout(k) \o <<"fl">>)
\* --- room an item takes ---
VSize(n) == BLen(VarInt(n))
ItemSpace(n, fl) == ISum(<<n, Dec(VSize(n)), fl, Dec(VSize(fl)), "1">>)
=============================================================================
