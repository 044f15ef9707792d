----------------------------- MODULE QueryItem -----------------------------
(* A query item denotes a set of keys (byte strings in byte order).         *)
(* Representation: [t |-> kind, a |-> lower key, b |-> upper key]; unused   *)
(* bounds are "".                                                           *)
EXTENDS Integers, Sequences, Prims
QKinds == {"key", "range", "rangeinc", "full", "from", "to", "toinc", "after", "afterto", "aftertoinc"}
HasLow(i) == i.t \notin {"full", "to", "toinc"}
HasHigh(i) == i.t \notin {"full", "from", "after"}
LowOpen(i) == i.t \in {"after", "afterto", "aftertoinc"}     \* lower bound excluded
HighOpen(i) == i.t \in {"range", "to", "afterto"}            \* upper bound excluded
Low(i) == i.a
High(i) == IF i.t = "key" THEN i.a ELSE i.b
AboveLow(i, k) == ~HasLow(i) \/ (IF LowOpen(i) THEN BLess(i.a, k) ELSE BLeq(i.a, k))
BelowHigh(i, k) == ~HasHigh(i) \/ (IF HighOpen(i) THEN BLess(k, High(i)) ELSE BLeq(k, High(i)))
QIn(i, k) == AboveLow(i, k) /\ BelowHigh(i, k)
QAnyIn(items, k) == \E n \in 1..Len(items) : QIn(items[n], k)
(* Emptiness, exactly: the successor of key x in byte order is x\o"00".     *)
(* An item is a half-open interval [Lo, Hi) over cut points: a cut is a key *)
(* (just before it); "after x" is the cut before x\o"00".                   *)
LoCut(i) == IF ~HasLow(i) THEN "" ELSE IF LowOpen(i) THEN Cat(<<i.a, "00">>) ELSE i.a
HiUnbounded(i) == ~HasHigh(i)
HiCut(i) == IF HighOpen(i) THEN High(i) ELSE Cat(<<High(i), "00">>)
QEmpty(i) == ~HiUnbounded(i) /\ BLeq(HiCut(i), LoCut(i))
\* intersection of two items is non-empty
QOverlap(i, j) ==
  /\ ~QEmpty(i) /\ ~QEmpty(j)
  /\ (HiUnbounded(j) \/ BLess(LoCut(i), HiCut(j)))
  /\ (HiUnbounded(i) \/ BLess(LoCut(j), HiCut(i)))
\* a set of cut points that separates everything the given items distinguish
Cuts(items) == UNION {{LoCut(items[n])} \cup (IF HiUnbounded(items[n]) THEN {} ELSE {HiCut(items[n])}) : n \in 1..Len(items)} \cup {""}
(* Every cut is itself a key; between neighbouring cuts membership in each  *)
(* item is constant, so two unions of items are equal iff they agree on all *)
(* cuts (a cut is the least key of its class).                              *)
SameUnion(xs, ys) == \A k \in Cuts(xs \o ys) : QAnyIn(xs, k) = QAnyIn(ys, k)

(* Order of items: by lower end, then by upper end. -1, 0, 1.               *)
SgnB(a, b) == IF BLess(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1
SgnN(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
Lex(a, b) == IF a # 0 THEN a ELSE b
LowRank(i) == IF HasLow(i) THEN 1 ELSE 0
LowBit(i) == IF LowOpen(i) THEN 1 ELSE 0
HighRank(i) == IF HasHigh(i) THEN 0 ELSE 1
HighBit(i) == IF HighOpen(i) THEN 0 ELSE 1
QCmpLow(i, j) == Lex(SgnN(LowRank(i), LowRank(j)),
                     IF HasLow(i) THEN Lex(SgnB(i.a, j.a), SgnN(LowBit(i), LowBit(j))) ELSE 0)
QCmpHigh(i, j) == Lex(SgnN(HighRank(i), HighRank(j)),
                      IF HasHigh(i) THEN Lex(SgnB(High(i), High(j)), SgnN(HighBit(i), HighBit(j))) ELSE 0)
QCmp(i, j) == Lex(IF HasLow(i) = HasLow(j) THEN QCmpLow(i, j) ELSE SgnN(LowRank(i), LowRank(j)),
                  IF HasHigh(i) = HasHigh(j) THEN QCmpHigh(i, j) ELSE SgnN(HighRank(i), HighRank(j)))
\* no key lies between the two items (they overlap or touch)
QTouch(i, j) == /\ HiUnbounded(i) \/ BLeq(LoCut(j), HiCut(i))
                /\ HiUnbounded(j) \/ BLeq(LoCut(i), HiCut(j))
Items1(i) == <<i>>
\* the keys of a sequence that an item selects, in order
RECURSIVE QFilter(_, _)
QFilter(i, ks) == IF ks = <<>> THEN <<>> ELSE (IF QIn(i, ks[1]) THEN <<ks[1]>> ELSE <<>>) \o QFilter(i, Tail(ks))
RECURSIVE QFilterAny(_, _)
QFilterAny(is, ks) == IF ks = <<>> THEN <<>> ELSE (IF QAnyIn(is, ks[1]) THEN <<ks[1]>> ELSE <<>>) \o QFilterAny(is, Tail(ks))
RECURSIVE RevSeq(_)
RevSeq(s) == IF s = <<>> THEN <<>> ELSE Append(RevSeq(Tail(s)), s[1])
QSorted(is) == \A n \in 1..(Len(is) - 1) : QCmp(is[n], is[n + 1]) = -1
QDisjoint(is) == \A n \in 1..Len(is) : \A m \in (n + 1)..Len(is) : ~QOverlap(is[n], is[m])
(* Keys an item enumerates (only single keys and bounded ranges with        *)
(* one-byte upper and at most one-byte lower bounds): [ok, v]               *)
QKeys(i) ==
  IF i.t = "key" THEN [ok |-> TRUE, v |-> <<i.a>>]
  ELSE IF i.t \in {"range", "rangeinc"} /\ BLen(i.a) <= 1 /\ BLen(i.b) = 1
       THEN LET lo == IF i.a = "" THEN 0 ELSE BAt(i.a, 0)
                hi == BAt(i.b, 0) + (IF i.t = "rangeinc" THEN 1 ELSE 0)
                n == IF hi > lo THEN hi - lo ELSE 0
                one == [k \in 1..n |-> BE(lo + k - 1, 1)]
            IN [ok |-> TRUE, v |-> IF i.a = "" THEN <<"">> \o one ELSE one]
       ELSE [ok |-> FALSE, v |-> <<>>]
=============================================================================
