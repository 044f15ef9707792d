----------------------------- MODULE TrunkTrace -----------------------------
(* Trunk and branch proofs. An honest proof verifies to the root hash and    *)
(* shows the top of the target tree exactly, with its boundary; a proof of   *)
(* any provenance that verifies to the root hash shows true entries only,    *)
(* all of those above the boundary it claims, and a true boundary.           *)
EXTENDS Trunk, Json, TLC, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, db, root
vars == <<l, db, root>>
Layer(i) == db.layers[i]
\* each tree on the path commits to the tree below it
World(d, h) ==
  \/ d.layers = <<>>
  \/ /\ Len(d.layers) = Len(d.path) + 1
     /\ THash(d.layers[1].counted, d.layers[1].tree) = h
     /\ \A i \in 1..Len(d.layers) : TBalanced(d.layers[i].tree) /\ TOrdered(d.layers[i].tree)
     /\ \A i \in 1..Len(d.path) : Sub(d.layers[i].tree, d.path[i])[1].sup = THash(d.layers[i + 1].counted, d.layers[i + 1].tree)
Rows2(x) == [i \in 1..Len(x) |-> <<x[i][1], x[i][2]>>]
Entries2(ns) == [i \in 1..Len(ns) |-> Pair(ns[i])]
LeafKeys(v) == {v.leaf[i][1] : i \in 1..Len(v.leaf)}
\* what is said about a boundary node is true; its count is part of its hash in counted trees only
InfoTrue(i, s, c) == i.h = THash(c, s) /\ (c => (i.n = <<>> \/ i.n = <<TCount(s)>>))
\* keys are told the boundary node they lie under
TraceTrue(v, t) ==
  \A i \in 1..Len(v.trace) :
    LET k == v.trace[i][1] got == v.trace[i][2]
        shown == \E j \in 1..Len(v.els) : v.els[j][1] = k
        want == IF shown THEN <<>> ELSE Leads(t, k, LeafKeys(v))
    IN /\ Len(got) = Len(want)
       /\ want # <<>> => got[1][1] = want[1] /\ \E j \in 1..Len(v.leaf) : v.leaf[j][1] = want[1] /\ v.leaf[j][2] = got[1][2]
\* from the parent of a shown node up, but not to the top node: the first that holds enough, or the highest
AncTrue(v, t, c) ==
  \A i \in 1..Len(v.anc) :
    LET k == v.anc[i][1] min == v.anc[i][2] got == v.anc[i][3]
        shown == \E j \in 1..Len(v.els) : v.els[j][1] = k
        w == Way(t, k)
        n == Len(w)
        enough == {j \in 2..(n - 1) : c /\ ILeq(min, TCount(w[j]))}
        j == IF enough # {} THEN CHOOSE x \in enough : \A y \in enough : y <= x ELSE 2
    IN IF ~shown \/ n <= 2 THEN got = <<>>
       ELSE got # <<>> /\ got[1] = <<n - j, IF c THEN TCount(w[j]) ELSE "0", w[j][1].k, THash(c, w[j])>>
HonestTop(v, t, d, c) ==
  /\ Rows2(v.els) = Entries2(Top(t, d))
  /\ LET b == Bound(t, d) IN
     /\ Len(v.leaf) = Len(b)
     /\ \A i \in 1..Len(b) : v.leaf[i][1] = b[i][1].k /\ InfoTrue(v.leaf[i][2], b[i], c)
AnyTop(v, t, c) ==
  /\ \A i \in 1..Len(v.leaf) : LET s == Sub(t, v.leaf[i][1]) IN s # <<>> /\ InfoTrue(v.leaf[i][2], s, c)
  /\ Rows2(v.els) = Entries2(Above(t, LeafKeys(v)))
TrunkTrue(r) ==
  LET i == Len(r.q.path) + 1
      y == Layer(i)
      n == TCount(y.tree)
      h == IF n = "0" THEN 0 ELSE MaxHeight(n)
      ds == IF n = "0" THEN <<>> ELSE SplitFor(h, r.q.max, IF y.counted THEN r.q.min ELSE <<>>)
  IN /\ i > 1 /\ i <= Len(db.layers) /\ SubSeq(db.path, 1, i - 1) = r.q.path
     /\ r.v.max = h /\ r.v.depths = ds
     /\ IF r.honest THEN HonestTop(r.v, y.tree, IF n = "0" THEN 0 ELSE ds[1], y.counted) /\ AncTrue(r.v, y.tree, y.counted)
        ELSE AnyTop(r.v, y.tree, y.counted)
     /\ TraceTrue(r.v, y.tree)
BranchTrue(r) ==
  LET y == Layer(Len(db.layers))
      s == Sub(y.tree, r.q.key)
  IN /\ r.v.root = r.want /\ s # <<>> /\ r.want = THash(y.counted, s)
     /\ IF r.honest THEN HonestTop(r.v, s, r.q.depth, y.counted) /\ AncTrue(r.v, s, y.counted) ELSE AnyTop(r.v, s, y.counted)
     /\ TraceTrue(r.v, s)
\* the keys with something cut off below them
CutBelow(t, d) == LET b == Bound(t, d) IN [i \in 1..Len(b) |-> b[i][1].k]
Traced(t, d, got) ==
  \A i \in 1..Len(got) :
    LET k == got[i][1] w == Way(t, k) s == w[Len(w)][1]
        \* k lies in a subtree that is cut off
        under == Len(w) > d
    IN got[i][2] = IF under THEN <<w[d][1].k>> ELSE <<>>
SetOfSeq(s) == {s[i] : i \in 1..Len(s)}
MerkTrue(r) ==
  LET y == Layer(Len(db.layers)) s == Sub(y.tree, r.key) IN
  /\ Len(r.v.keys) = Cardinality(SetOfSeq(r.v.keys)) /\ SetOfSeq(r.v.keys) = SetOfSeq(CutBelow(y.tree, r.at))
  /\ r.v.ok = (HashDepths(y.tree, r.at) \subseteq {r.claim})
  /\ Traced(y.tree, r.at, r.v.trace) /\ Traced(s, r.bd, r.v.branch)
Step(r) ==
  CASE r.e = "new" -> db' = r.db /\ root' = r.root /\ World(r.db, r.root)
    [] r.e = "trunk" ->
         /\ UNCHANGED <<db, root>>
         /\ IF r.honest THEN r.st = "ok" /\ r.v.root = root /\ TrunkTrue(r)
            ELSE r.st \in {"ok", "err"} /\ ((r.st = "ok" /\ r.v.root = root) => TrunkTrue(r))
    [] r.e = "branch" ->
         /\ UNCHANGED <<db, root>>
         /\ IF r.honest THEN r.st = "ok" /\ BranchTrue(r) ELSE r.st \in {"ok", "err"} /\ (r.st = "ok" => BranchTrue(r))
    [] r.e = "merk" -> UNCHANGED <<db, root>> /\ r.st = "ok" /\ MerkTrue(r)
    [] r.e = "height" -> UNCHANGED <<db, root>> /\ r.st = "ok" /\ r.v = (IF r.n = "0" THEN 0 ELSE MaxHeight(r.n))
    [] r.e = "depths" ->
         /\ UNCHANGED <<db, root>>
         /\ IF SplitOk(r.max, r.min) THEN r.st = "ok" /\ r.v = SplitFor(r.d, r.max, r.min) ELSE r.st = "err"
    [] OTHER -> FALSE
Init == l = 1 /\ db = [layers |-> <<>>, path |-> <<>>] /\ root = ""
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
