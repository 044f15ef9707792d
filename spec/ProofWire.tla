------------------------------ MODULE ProofWire ------------------------------
(* Proof operations and structure proofs as bytes.                          *)
(* op = [o, n, k, v, h, f, c, d]: operation (push, pushinv, parent, child,  *)
(* parentinv, childinv), node kind, key, value, hash, feature [t, n, s],    *)
(* count, child hash; parts a node does not have are blank.                 *)
EXTENDS Wire, Integers
Nodes == <<"hash", "kvhash", "kv", "kvvh", "kvdigest", "ref", "kvft", "kvcount", "hashcount", "refcount", "digestcount", "child">>
NodeSet == {Nodes[i] : i \in 1..12}
\* operation bytes: pushed, pushed inverted, and the same for values of 65536 bytes and more
Codes == [hash |-> <<1, 8, 0, 0>>, kvhash |-> <<2, 9, 0, 0>>, kv |-> <<3, 10, 32, 40>>, kvvh |-> <<4, 11, 33, 41>>,
          kvdigest |-> <<5, 12, 0, 0>>, ref |-> <<6, 13, 34, 42>>, kvft |-> <<7, 14, 35, 43>>, kvcount |-> <<20, 22, 36, 44>>,
          hashcount |-> <<21, 23, 0, 0>>, refcount |-> <<24, 25, 37, 45>>, digestcount |-> <<26, 27, 0, 0>>, child |-> <<28, 29, 46, 47>>]
Parts == [hash |-> <<"h">>, kvhash |-> <<"h">>, kv |-> <<"k", "v">>, kvvh |-> <<"k", "v", "h">>, kvdigest |-> <<"k", "h">>,
          ref |-> <<"k", "v", "h">>, kvft |-> <<"k", "v", "h", "f">>, kvcount |-> <<"k", "v", "c">>, hashcount |-> <<"h", "c">>,
          refcount |-> <<"k", "v", "h", "c">>, digestcount |-> <<"k", "h", "c">>, child |-> <<"k", "v", "h", "f", "d">>]
Moves == [parent |-> 16, child |-> 17, parentinv |-> 18, childinv |-> 19]
Features == <<"basic", "sum", "bigsum", "count", "countsum", "provcount", "provcountsum">>
FeatTag(t) == (CHOOSE i \in 1..7 : Features[i] = t) - 1
FeatParts == [basic |-> <<>>, sum |-> <<"s">>, bigsum |-> <<"S">>, count |-> <<"n">>, countsum |-> <<"n", "s">>,
              provcount |-> <<"n">>, provcountsum |-> <<"n", "s">>]
Two(n, k) == IF ILess(n, "0") THEN BE(IAdd(n, IPow2(8 * k)), k) ELSE BE(n, k)      \* two's complement
UnTwo(b) == LET n == UnBE(b) IN IF ILess(n, IPow2(127)) THEN n ELSE ISub(n, IPow2(128))
EncFeat(f) == Cat(<<Byte(FeatTag(f.t))>> \o
  [i \in 1..Len(FeatParts[f.t]) |-> CASE FeatParts[f.t][i] = "s" -> VarIntS(f.s) [] FeatParts[f.t][i] = "S" -> Two(f.s, 16) [] OTHER -> VarInt(f.n)])
\* what storing a feature is charged, and what its numbers take
FeatCost(t) == CASE t = "basic" -> 1 [] t \in {"bigsum", "countsum", "provcountsum"} -> 17 [] OTHER -> 9
RLeb(b, i) ==          \* seven bits a byte, low first, at most ten bytes
  LET end == {j \in i..(i + 9) : j < BLen(b) /\ BAt(b, j) < 128 /\ \A k \in i..(j - 1) : BAt(b, k) >= 128} IN
  IF end = {} THEN <<>>
  ELSE LET e == CHOOSE j \in end : TRUE
           val[j \in i..e] == IAdd(IMul(Dec(IF BAt(b, j) >= 128 THEN BAt(b, j) - 128 ELSE BAt(b, j)), IPow2(7 * (j - i))),
                                   IF j = i THEN "0" ELSE val[j - 1])
       IN <<val[e], e + 1>>
\* ten bytes can say more than 64 bits: what that means is left open
RU64(b, i) == LET r == RLeb(b, i) IN IF r = <<>> THEN <<>> ELSE IF ILess(r[1], IPow2(64)) THEN r ELSE <<"wide", r[2]>>
RFeat(b, i) ==
  LET t == RByte(b, i) IN
  IF t = <<>> \/ t[1] > 6 THEN <<>>
  ELSE LET k == Features[t[1] + 1] ps == FeatParts[k]
           blank == [t |-> k, n |-> "0", s |-> "0"]
           upto[j \in 0..Len(ps)] ==
             IF j = 0 THEN <<blank, t[2]>>
             ELSE LET p == upto[j - 1] IN
                  IF p = <<>> THEN <<>>
                  ELSE LET x == IF ps[j] = "S" THEN RFixed(b, p[2], 16) ELSE RU64(b, p[2]) IN
                       IF x = <<>> THEN <<>>
                       ELSE CASE ps[j] = "S" -> <<[p[1] EXCEPT !.s = UnTwo(x[1])], x[2]>>
                              [] ps[j] = "s" -> <<[p[1] EXCEPT !.s = IF x[1] = "wide" THEN x[1] ELSE UnZig(x[1])], x[2]>>
                              [] OTHER -> <<[p[1] EXCEPT !.n = x[1]], x[2]>>
       IN upto[Len(ps)]
BlankOp == [o |-> "push", n |-> "", k |-> "", v |-> "", h |-> "", f |-> [t |-> "basic", n |-> "0", s |-> "0"], c |-> "0", d |-> ""]
Large(op) == BLen(op.v) >= 65536
EncOp(op) ==
  IF op.o \in DOMAIN Moves THEN Byte(Moves[op.o])
  ELSE LET big == Large(op)
           ps == Parts[op.n]
           part(p) == CASE p = "h" -> op.h [] p = "k" -> Cat(<<Byte(BLen(op.k)), op.k>>)
                        [] p = "v" -> Cat(<<BE(Dec(BLen(op.v)), IF big THEN 4 ELSE 2), op.v>>)
                        [] p = "f" -> EncFeat(op.f) [] p = "c" -> BE(op.c, 8) [] OTHER -> op.d
       IN Cat(<<Byte(Codes[op.n][(IF big THEN 3 ELSE 1) + (IF op.o = "pushinv" THEN 1 ELSE 0)])>> \o [i \in 1..Len(ps) |-> part(ps[i])])
RShort(b, i, w) == LET n == RFixed(b, i, w) IN
                   IF n = <<>> THEN <<>>
                   ELSE IF ~ILeq(UnBE(n[1]), Dec(BLen(b) - n[2])) THEN <<>>
                   ELSE RFixed(b, n[2], ToInt(UnBE(n[1])))
ROp(b, i) ==
  LET t == RByte(b, i) IN
  IF t = <<>> THEN <<>>
  ELSE LET move == {m \in DOMAIN Moves : Moves[m] = t[1]}
           which == {x \in NodeSet \X (1..4) : Codes[x[1]][x[2]] = t[1] /\ t[1] # 0}
       IN IF move # {} THEN <<[BlankOp EXCEPT !.o = CHOOSE m \in move : TRUE], t[2]>>
          ELSE IF which = {} THEN <<>>
          ELSE LET w == CHOOSE x \in which : TRUE
                   ps == Parts[w[1]]
                   start == [BlankOp EXCEPT !.o = IF w[2] \in {2, 4} THEN "pushinv" ELSE "push", !.n = w[1]]
                   upto[j \in 0..Len(ps)] ==
                     IF j = 0 THEN <<start, t[2]>>
                     ELSE LET p == upto[j - 1] IN
                          IF p = <<>> THEN <<>>
                          ELSE LET x == CASE ps[j] \in {"h", "d"} -> RFixed(b, p[2], 32) [] ps[j] = "k" -> RShort(b, p[2], 1)
                                          [] ps[j] = "v" -> RShort(b, p[2], IF w[2] > 2 THEN 4 ELSE 2)
                                          [] ps[j] = "f" -> RFeat(b, p[2]) [] OTHER -> RFixed(b, p[2], 8)
                               IN IF x = <<>> THEN <<>>
                                  ELSE <<[p[1] EXCEPT ![ps[j]] = IF ps[j] = "c" THEN UnBE(x[1]) ELSE x[1]], x[2]>>
               IN upto[Len(ps)]
\* a whole proof: [ok, ops]; reading stops at the first operation that cannot be read
RECURSIVE ROps(_, _)
ROps(b, i) ==
  IF i >= BLen(b) THEN [ok |-> TRUE, ops |-> <<>>]
  ELSE LET r == ROp(b, i) IN
       IF r = <<>> THEN [ok |-> FALSE, ops |-> <<>>]
       ELSE LET rest == ROps(b, r[2]) IN [ok |-> rest.ok, ops |-> <<r[1]>> \o rest.ops]
WideFeat(f) == f.n = "wide" \/ f.s = "wide"
\* --- structure proofs ---
H32(x) == x
RHash(b, i) == RFixed(b, i, 32)
EncIdx(e) == Cat(<<BinU(e[1]), Bytes(e[2])>>)
EncIdxH(e) == Cat(<<BinU(e[1]), e[2]>>)
RIdx(b, i, w) == LET n == RNum(b, i, w) v == IF n = <<>> THEN <<>> ELSE RBytes(b, n[2]) IN
                 IF v = <<>> THEN <<>> ELSE <<<<n[1], v[1]>>, v[2]>>
RIdxH(b, i) == LET n == RNum(b, i, 2) v == IF n = <<>> THEN <<>> ELSE RHash(b, n[2]) IN
               IF v = <<>> THEN <<>> ELSE <<<<n[1], v[1]>>, v[2]>>
EncMmr(p) == Cat(<<BinU(p.size), Many(p.leaves, EncIdx), Many(p.items, H32)>>)
RMmr(b, i) ==
  LET n == RNum(b, i, 8)
      ls == IF n = <<>> THEN <<>> ELSE RMany(b, n[2], LAMBDA x, j : RIdx(x, j, 8))
      hs == IF ls = <<>> THEN <<>> ELSE RMany(b, ls[2], RHash)
  IN IF hs = <<>> THEN <<>> ELSE <<[size |-> n[1], leaves |-> ls[1], items |-> hs[1]], hs[2]>>
EncDense(p) == Cat(<<Many(p.entries, EncIdx), Many(p.vh, EncIdxH), Many(p.nh, EncIdxH)>>)
RDense(b, i) ==
  LET e == RMany(b, i, LAMBDA x, j : RIdx(x, j, 2))
      v == IF e = <<>> THEN <<>> ELSE RMany(b, e[2], RIdxH)
      n == IF v = <<>> THEN <<>> ELSE RMany(b, v[2], RIdxH)
  IN IF n = <<>> THEN <<>> ELSE <<[entries |-> e[1], vh |-> v[1], nh |-> n[1]], n[2]>>
EncBulk(p) == Cat(<<EncMmr(p.chunks), EncDense(p.buffer)>>)
RBulk(b, i) ==
  LET c == RMmr(b, i) d == IF c = <<>> THEN <<>> ELSE RDense(b, c[2]) IN
  IF d = <<>> THEN <<>> ELSE <<[chunks |-> c[1], buffer |-> d[1]], d[2]>>
\* --- database proofs: layer = [t, b, low]; low: <<key, layer>> by key ---
MaxLayers == 128
RECURSIVE EncLayer(_, _)
EncLayer(x, v) == Cat(<<IF v = 0 THEN "" ELSE Byte(x.t), Bytes(x.b), Many(x.low, LAMBDA e : Cat(<<Bytes(e[1]), EncLayer(e[2], v)>>))>>)
RECURSIVE PutLow(_, _)
PutLow(ls, e) == IF ls = <<>> THEN <<e>>
                 ELSE IF ls[1][1] = e[1] THEN <<e>> \o Tail(ls)
                 ELSE IF BLess(e[1], ls[1][1]) THEN <<e>> \o ls ELSE <<ls[1]>> \o PutLow(Tail(ls), e)
RECURSIVE Lows(_)
Lows(ls) == IF ls = <<>> THEN <<>> ELSE PutLow(Lows(SubSeq(ls, 1, Len(ls) - 1)), ls[Len(ls)])
RECURSIVE RLayer(_, _, _, _)
RLayer(b, i, d, v) ==
  IF d > MaxLayers THEN <<>>
  ELSE LET t == IF v = 0 THEN <<"0", i>> ELSE RNum(b, i, 4)
           p == IF t = <<>> THEN <<>> ELSE IF ILess("4", t[1]) THEN <<>> ELSE RBytes(b, t[2])
           n == IF p = <<>> THEN <<>> ELSE RNum(b, p[2], 8)
           low == IF n = <<>> THEN <<>>
                  ELSE IF ILess(Dec(MaxLayers), n[1]) THEN <<>>
                  ELSE RTimes(b, n[2], ToInt(n[1]), LAMBDA x, j :
                         LET k == RBytes(x, j) l == IF k = <<>> THEN <<>> ELSE RLayer(x, k[2], d + 1, v) IN
                         IF l = <<>> THEN <<>> ELSE <<<<k[1], l[1]>>, l[2]>>)
       IN IF low = <<>> THEN <<>> ELSE <<[t |-> ToInt(t[1]), b |-> p[1], low |-> Lows(low[1])], low[2]>>
EncProof(p) == Cat(<<Byte(p.v), EncLayer(p.root, p.v), IF p.v = 0 THEN Bool(p.opt) ELSE "">>)
RProof(b, i) ==
  LET t == RNum(b, i, 4) IN
  IF t = <<>> \/ ILess("1", t[1]) THEN <<>>
  ELSE LET v == ToInt(t[1])
           l == RLayer(b, t[2], 0, v)
           o == IF l = <<>> THEN <<>> ELSE IF v = 0 THEN RBool(b, l[2]) ELSE <<FALSE, l[2]>>
       IN IF o = <<>> THEN <<>> ELSE <<[v |-> v, root |-> l[1], opt |-> o[1]], o[2]>>
=============================================================================
