-------------------------------- MODULE Flags --------------------------------
(* Epoch storage flags: who owns an element, the epoch its first bytes were *)
(* written in (base) and the bytes added in later epochs. A flags value is  *)
(* [own, base, multi, m]: own = <<>> or <<owner>>, m = set of [ep, n], n in *)
(* decimal; multi tells the layouts with an epoch map from those without.   *)
(* Removed bytes are those of Costs.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, Prims
Overhead == "3"
Max32 == "4294967295"
Anon == Zeros(32)
RNone == [t |-> "none", s |-> {}]
Single(base, own) == [own |-> own, base |-> base, multi |-> FALSE, m |-> {}]
With(base, own, m) == [own |-> own, base |-> base, multi |-> TRUE, m |-> m]
Epochs(m) == {x.ep : x \in m}
Bytes(m, ep) == (CHOOSE x \in m : x.ep = ep).n
Put(m, ep, n) == {x \in m : x.ep # ep} \cup {[ep |-> ep, n |-> n]}
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
WellFormed(f) == /\ f.multi = (f.m # {})
                 /\ \A x \in f.m : x.ep > f.base
\* --- layout ---
RECURSIVE EncMap(_)
EncMap(m) == IF m = {} THEN ""
             ELSE LET e == MinOf(Epochs(m)) IN
                  Cat(<<BE(e, 2), VarInt(Bytes(m, e)), EncMap({x \in m : x.ep # e})>>)
TypeByte(f) == (IF f.own = <<>> THEN 0 ELSE 2) + (IF f.multi THEN 1 ELSE 0)
Enc(f) == Cat(<<BE(TypeByte(f), 1), IF f.own = <<>> THEN "" ELSE f.own[1], BE(f.base, 2), EncMap(f.m)>>)
Size(f) == BLen(Enc(f))
\* --- reading; <<>> is a refusal ---
\* the variable length number at position i: <<number, next position>>
RECURSIVE Var(_, _, _, _)
Var(b, i, k, w) ==
  IF i >= BLen(b) THEN <<>>
  ELSE LET x == BAt(b, i) IN
       IF k = 9 /\ x > 1 THEN <<>>
       ELSE LET p == IMul(Dec(x % 128), w) IN
            IF x < 128 THEN <<p, i + 1>>
            ELSE LET r == Var(b, i + 1, k + 1, IMul(w, "128")) IN
                 IF r = <<>> THEN <<>> ELSE <<IAdd(p, r[1]), r[2]>>
RECURSIVE ReadMap(_, _, _)
ReadMap(b, i, m) ==
  IF i = BLen(b) THEN <<m>>
  ELSE IF i + 2 >= BLen(b) THEN <<>>
  ELSE LET v == Var(b, i + 2, 0, "1") IN
       IF v = <<>> \/ ILess(Max32, v[1]) THEN <<>>
       ELSE ReadMap(b, v[2], Put(m, ToInt(UnBE(BSub(b, i, i + 2))), v[1]))
Read(b) ==
  LET n == BLen(b) ep(i) == ToInt(UnBE(BSub(b, i, i + 2))) IN
  IF n = 0 THEN <<>>
  ELSE LET t == BAt(b, 0) o == IF t \in {2, 3} THEN 33 ELSE 1 IN
       IF t > 3 THEN <<>>
       ELSE IF t \in {0, 2} THEN IF n # o + 2 THEN <<>> ELSE <<Single(ep(o), IF t = 0 THEN <<>> ELSE <<BSub(b, 1, 33)>>)>>
       ELSE IF n < o + 5 THEN <<>>
       ELSE LET m == ReadMap(b, o + 2, {}) IN
            IF m = <<>> THEN <<>> ELSE <<With(ep(o), IF t = 1 THEN <<>> ELSE <<BSub(b, 1, 33)>>, m[1])>>
\* --- combining ---
\* the owner of the combination, <<>> when refused
Owner(a, b, strat) ==
  IF a.own = <<>> THEN <<b.own>> ELSE IF b.own = <<>> \/ a.own = b.own THEN <<a.own>>
  ELSE CASE strat = "raise" -> <<>> [] strat = "ours" -> <<a.own>> [] strat = "theirs" -> <<b.own>>
\* epochs of both; the newer version's figures count
Merge(a, b) == {x \in a.m : x.ep \notin Epochs(b.m)} \cup b.m
SameBase(a, b, strat) ==
  LET o == Owner(a, b, strat) IN
  IF o = <<>> THEN <<>> ELSE <<[own |-> o[1], base |-> a.base, multi |-> a.multi \/ b.multi, m |-> Merge(a, b)]>>
\* n bytes are added by the newer version b: they belong to its epoch
CombineAdded(a, b, n, strat) ==
  IF a.base > b.base THEN <<>>
  ELSE IF a.base = b.base THEN SameBase(a, b, strat)
  ELSE LET o == Owner(a, b, strat) m == Merge(a, b)
           w == IF b.base \in Epochs(m) THEN IAdd(Bytes(m, b.base), n) ELSE n IN
       IF o = <<>> \/ ILess(Max32, w) THEN <<>> ELSE <<With(a.base, o[1], Put(m, b.base, w))>>
\* removal: an epoch left with no more than its overhead is forgotten
Ids(rm) == {x.id : x \in rm.s}
CombineRemoved(a, b, rm, ids, strat) ==
  IF a.base > b.base THEN <<>>
  ELSE IF a.base = b.base THEN SameBase(a, b, strat)
  ELSE IF ~a.multi THEN <<a>>
  ELSE LET o == Owner(a, b, strat) m == Merge(a, b)
           id == IF a.own = <<>> THEN Anon ELSE a.own[1]
           mine == {x \in rm.s : x.id = id /\ x.ep # a.base}
           take(ep) == LET t == {x \in mine : x.ep = ep} IN IF t = {} THEN <<>> ELSE <<(CHOOSE x \in t : TRUE).n>>
           left(x) == IF take(x.ep) = <<>> THEN x.n ELSE ISub(x.n, take(x.ep)[1])
           kept == {[ep |-> x.ep, n |-> left(x)] : x \in {y \in m : take(y.ep) = <<>> \/ ILess(Overhead, left(y))}}
       IN IF o = <<>> THEN <<>>
          ELSE IF rm.t # "sect" THEN <<[own |-> o[1], base |-> a.base, multi |-> m # {}, m |-> m]>>
          ELSE IF ids # {id} THEN <<>>
          ELSE IF \E x \in mine : x.ep \notin Epochs(m) \/ ILess(Bytes(m, x.ep), x.n) THEN <<>>
          ELSE <<[own |-> o[1], base |-> a.base, multi |-> kept # {}, m |-> kept]>>
\* --- splitting removed bytes, newest epoch first ---
SubOr0(a, b) == IF ILess(a, b) THEN "0" ELSE ISub(a, b)
RECURSIVE Take(_, _)
Take(m, left) ==       \* << <<epoch, amount>>..., rest >>
  IF left = "0" \/ m = {} THEN [s |-> {}, left |-> left]
  ELSE LET e == MaxOf(Epochs(m)) free == SubOr0(Bytes(m, e), Overhead) IN
       IF ILeq(free, left)
       THEN LET r == Take({x \in m : x.ep # e}, ISub(left, free)) IN
            [s |-> r.s \cup {[ep |-> e, n |-> free]}, left |-> r.left]
       ELSE [s |-> {[ep |-> e, n |-> left]}, left |-> "0"]
Id(f) == IF f.own = <<>> THEN Anon ELSE f.own[1]
Sect(f, s) == [t |-> "sect", s |-> {[id |-> Id(f), ep |-> x.ep, n |-> x.n] : x \in s}]
SplitKey(f, n) == IF n = "0" THEN RNone ELSE Sect(f, {[ep |-> f.base, n |-> n]})
SplitValue(f, n) ==
  IF n = "0" THEN RNone
  ELSE LET t == Take(f.m, n) IN Sect(f, t.s \cup (IF t.left = "0" THEN {} ELSE {[ep |-> f.base, n |-> t.left]}))
RBasic(n) == [t |-> "basic", s |-> {[id |-> Anon, ep |-> 65535, n |-> n]}]
\* flags as stored; <<>> is a refusal
Split(b, k, v) ==
  IF b = "" THEN <<RBasic(k), RBasic(v)>>
  ELSE LET f == Read(b) IN IF f = <<>> THEN <<>> ELSE <<SplitKey(f[1], k), SplitValue(f[1], v)>>
\* --- updating the flags of an element: [ok, changed, flags]; old = <<>> or <<stored flags>> ---
Update(trans, added, rm, ids, old, new) ==
  IF old = <<>> THEN [ok |-> TRUE, changed |-> FALSE, flags |-> new]
  ELSE LET a == Read(old[1]) b == Read(new) refuse == [ok |-> FALSE, changed |-> FALSE, flags |-> new] IN
       IF a = <<>> \/ b = <<>> THEN refuse
       ELSE LET c == CASE trans = "bigger" -> CombineAdded(a[1], b[1], added, "theirs")
                       [] trans = "smaller" -> CombineRemoved(a[1], b[1], rm, ids, "theirs")
                       [] OTHER -> a
            IN IF trans \notin {"bigger", "smaller", "same"} THEN [ok |-> TRUE, changed |-> FALSE, flags |-> new]
               ELSE IF c = <<>> THEN refuse
               ELSE [ok |-> TRUE, changed |-> trans = "same" \/ Enc(c[1]) # new, flags |-> Enc(c[1])]
=============================================================================
