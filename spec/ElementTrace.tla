---------------------------- MODULE ElementTrace ----------------------------
EXTENDS Element, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
Step(r) ==
  CASE r.e = "element" ->          \* everything that can be asked of an element
         /\ r.st = "ok"
         /\ LET e == r.el v == r.v IN
            /\ v.type = e.k /\ v.read = <<e.k>> /\ v.name = Names[e.k]
            /\ v.bytes = EncEl(e) /\ v.size = BLen(v.bytes) /\ v.back = <<e>>
            /\ \A x \in DOMAIN Is(e) : v.is[x] = Is(e)[x]
            /\ v.sum = Sum(e) /\ v.bigsum = BigSum(e) /\ v.count = Count(e) /\ v.countsum = <<Count(e), Sum(e)>>
            /\ v.entries = EntryCount(e)
            /\ v.item = AsItem(e) /\ v.sumitem = AsSumItem(e) /\ v.sumtree = AsSumTree(e) /\ v.ref = AsRef(e)
            /\ v.flags = e.fl /\ v.setflags = [e EXCEPT !.fl = r.fl]
            /\ v.abs = Absolute(e, r.path, r.key) /\ v.absnokey = (IF e.k = "ref" /\ e.ref.t # "abs" /\ R!ResolveNoKey(e.ref, r.path) = <<>>
                                                                   THEN <<>> ELSE Absolute(e, r.path, r.key))
            /\ All(v.treetype, LAMBDA x : x = TreeType(e))
            /\ v.rootkey = (IF e.k \in Trees THEN <<IF e.k \in Merks THEN e.root ELSE <<>> >> ELSE <<>>)
            /\ v.treeflags = (IF e.k \in Trees THEN <<e.fl>> ELSE <<>>)
            /\ v.feature = OfTree(e)
            /\ \A i \in 1..11 : v.intree[i] = InTree(e, TreeKinds[i])
    [] r.e = "kind" ->             \* a kind, read from a type byte
         IF r.n >= 15 THEN r.st = "err"
         ELSE LET k == Kinds[r.n + 1] v == r.v IN
              /\ r.st = "ok" /\ v.kind = k /\ v.disc = r.n /\ v.name = Names[k]
              /\ v.simple = Simple(k) /\ v.combined = ~Simple(k) /\ v.tree = (k \in Trees) /\ v.reference = (k = "ref") /\ v.item = (k \in Items)
              /\ v.alone = ProofNode(k, <<>>)
              /\ \A i \in 1..15 : v.under[i] = ProofNode(k, <<Kinds[i]>>)
    [] r.e = "treekind" ->
         IF r.n >= 11 THEN r.st = "err"
         ELSE LET k == TreeKinds[r.n + 1] v == r.v IN
              /\ r.st = "ok" /\ v.kind = k /\ v.disc = r.n /\ v.element = k
              /\ v.non_merk = (k \in Appends) /\ v.allows_sum = AllowsSum(k) /\ v.empty = Feature(k, "0", "0")
    [] r.e = "typebyte" ->         \* the type of serialized bytes
         IF r.b = "" THEN r.st = "err"
         ELSE IF BAt(r.b, 0) >= 15 THEN r.st = "err" ELSE r.st = "ok" /\ r.v = Kinds[BAt(r.b, 0) + 1]
    [] r.e = "make" ->             \* a constructor
         IF r.want = <<>> THEN r.st = "err" ELSE r.st = "ok" /\ r.v = r.want[1]
    [] r.e = "space" -> r.st = "ok" /\ r.v = ItemSpace(r.n, r.f)
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
