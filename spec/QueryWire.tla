------------------------------ MODULE QueryWire ------------------------------
(* Query items, queries and path queries as bytes.                          *)
EXTENDS Wire, Integers
ItemKinds == <<"key", "range", "rangeinc", "full", "from", "to", "toinc", "after", "afterto", "aftertoinc">>
ItemTag(t) == (CHOOSE i \in 1..10 : ItemKinds[i] = t) - 1
Lower(t) == t \notin {"full", "to", "toinc"}
Upper(t) == t \notin {"key", "full", "from", "after"}
EncItem(i) == Cat(<<Byte(ItemTag(i.t)), IF Lower(i.t) THEN Bytes(i.a) ELSE "", IF Upper(i.t) THEN Bytes(i.b) ELSE "">>)
RItem(b, i) ==
  LET t == RByte(b, i) IN
  IF t = <<>> \/ t[1] > 9 THEN <<>>
  ELSE LET k == ItemKinds[t[1] + 1]
           x == IF Lower(k) THEN RBytes(b, t[2]) ELSE <<"", t[2]>>
       IN IF x = <<>> THEN <<>>
          ELSE LET y == IF Upper(k) THEN RBytes(b, x[2]) ELSE <<"", x[2]>> IN
               IF y = <<>> THEN <<>> ELSE <<[t |-> k, a |-> x[1], b |-> y[1]], y[2]>>
Version == 1
MaxItems == 65536
MaxConds == 1024
MaxDepth == 64
RECURSIVE EncQuery(_)
EncBranch(x) == Cat(<<Opt(x.path, Path), IF x.sub = <<>> THEN "00" ELSE Cat(<<"01", EncQuery(x.sub[1])>>)>>)
EncQuery(q) ==
  Cat(<<Byte(Version), Many(q.items, EncItem), EncBranch(q.def),
        IF q.hascond THEN Cat(<<"01", Many(q.cond, LAMBDA c : Cat(<<EncItem(c[1]), EncBranch(c[2])>>))>>) ELSE "00",
        Bool(q.left), Bool(q.par)>>)
RCount(b, i, max) == LET n == RNum(b, i, 8) IN
                     IF n = <<>> \/ ILess(Dec(max), n[1]) \/ ~ILeq(n[1], Dec(BLen(b) - n[2])) THEN <<>> ELSE <<ToInt(n[1]), n[2]>>
\* a later pair with the same item replaces the value of the earlier one
RECURSIVE PutCond(_, _)
PutCond(cs, c) == IF cs = <<>> THEN <<c>> ELSE IF cs[1][1] = c[1] THEN <<c>> \o Tail(cs) ELSE <<cs[1]>> \o PutCond(Tail(cs), c)
RECURSIVE Conds(_)
Conds(cs) == IF cs = <<>> THEN <<>> ELSE PutCond(Conds(SubSeq(cs, 1, Len(cs) - 1)), cs[Len(cs)])
RECURSIVE RQuery(_, _, _)
\* anything but 1 after the path means that there is no subquery
RBranch(b, i, d) ==
  LET p == ROpt(b, i, RPath)
      f == IF p = <<>> THEN <<>> ELSE RByte(b, p[2])
  IN IF f = <<>> THEN <<>>
     ELSE IF f[1] # 1 THEN <<[path |-> p[1], sub |-> <<>>], f[2]>>
     ELSE LET q == RQuery(b, f[2], d + 1) IN
          IF q = <<>> THEN <<>> ELSE <<[path |-> p[1], sub |-> <<q[1]>>], q[2]>>
RCond(b, i, d) ==
  LET k == RItem(b, i)
      v == IF k = <<>> THEN <<>> ELSE RBranch(b, k[2], d)
  IN IF v = <<>> THEN <<>> ELSE <<<<k[1], v[1]>>, v[2]>>
RQuery(b, i, d) ==
  LET v == RByte(b, i) IN
  IF d > MaxDepth \/ v = <<>> THEN <<>>
  ELSE IF v[1] # Version THEN <<>>
  ELSE LET n == RCount(b, v[2], MaxItems)
           is == IF n = <<>> THEN <<>> ELSE RTimes(b, n[2], n[1], RItem)
           df == IF is = <<>> THEN <<>> ELSE RBranch(b, is[2], d)
           f == IF df = <<>> THEN <<>> ELSE RByte(b, df[2])
           m == IF f = <<>> THEN <<>> ELSE IF f[1] # 1 THEN <<0, f[2]>> ELSE RCount(b, f[2], MaxConds)
           cs == IF m = <<>> THEN <<>> ELSE RTimes(b, m[2], m[1], LAMBDA x, j : RCond(x, j, d))
           l == IF cs = <<>> THEN <<>> ELSE RBool(b, cs[2])
           p == IF l = <<>> THEN <<>> ELSE RBool(b, l[2])
       IN IF p = <<>> THEN <<>>
          ELSE <<[items |-> is[1], def |-> df[1], cond |-> Conds(cs[1]), hascond |-> f[1] = 1, left |-> l[1], par |-> p[1]], p[2]>>
\* --- around a query ---
Dec16(n) == BinU(n)
R16(b, i) == RNum(b, i, 2)
EncSized(s) == Cat(<<EncQuery(s.query), Opt(s.limit, Dec16), Opt(s.offset, Dec16)>>)
RSized(b, i) ==
  LET q == RQuery(b, i, 0)
      l == IF q = <<>> THEN <<>> ELSE ROpt(b, q[2], R16)
      o == IF l = <<>> THEN <<>> ELSE ROpt(b, l[2], R16)
  IN IF o = <<>> THEN <<>> ELSE <<[query |-> q[1], limit |-> l[1], offset |-> o[1]], o[2]>>
EncPQ(p) == Cat(<<Path(p.path), EncSized(p.sized)>>)
RPQ(b, i) ==
  LET p == RPath(b, i) s == IF p = <<>> THEN <<>> ELSE RSized(b, p[2]) IN
  IF s = <<>> THEN <<>> ELSE <<[path |-> p[1], sized |-> s[1]], s[2]>>
EncASQ(q) == Cat(<<Many(q.items, EncItem), Bool(q.left), BinU(q.sum), Opt(q.limit, Dec16)>>)
RASQ(b, i) ==
  LET is == RMany(b, i, RItem)
      l == IF is = <<>> THEN <<>> ELSE RBool(b, is[2])
      s == IF l = <<>> THEN <<>> ELSE RNum(b, l[2], 8)
      m == IF s = <<>> THEN <<>> ELSE ROpt(b, s[2], R16)
  IN IF m = <<>> THEN <<>> ELSE <<[items |-> is[1], left |-> l[1], sum |-> s[1], limit |-> m[1]], m[2]>>
EncASPQ(p) == Cat(<<Path(p.path), EncASQ(p.asq)>>)
RASPQ(b, i) ==
  LET p == RPath(b, i) s == IF p = <<>> THEN <<>> ELSE RASQ(b, p[2]) IN
  IF s = <<>> THEN <<>> ELSE <<[path |-> p[1], asq |-> s[1]], s[2]>>
EncTrunk(t) == Cat(<<Path(t.path), Byte(t.max), Opt(t.min, Byte)>>)
RTrunk(b, i) ==
  LET p == RPath(b, i)
      x == IF p = <<>> THEN <<>> ELSE RByte(b, p[2])
      n == IF x = <<>> THEN <<>> ELSE ROpt(b, x[2], RByte)
  IN IF n = <<>> THEN <<>> ELSE <<[path |-> p[1], max |-> x[1], min |-> n[1]], n[2]>>
EncBranchQ(t) == Cat(<<Path(t.path), Bytes(t.key), Byte(t.depth)>>)
RBranchQ(b, i) ==
  LET p == RPath(b, i)
      k == IF p = <<>> THEN <<>> ELSE RBytes(b, p[2])
      d == IF k = <<>> THEN <<>> ELSE RByte(b, k[2])
  IN IF d = <<>> THEN <<>> ELSE <<[path |-> p[1], key |-> k[1], depth |-> d[1]], d[2]>>
=============================================================================
