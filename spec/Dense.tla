------------------------------- MODULE Dense -------------------------------
(* Dense fixed-size Merkle tree of height h: 2^h - 1 positions in level     *)
(* order; value i of the sequence sits at position i.                       *)
EXTENDS Naturals, Sequences, Prims, QueryItem
DCap(h) == 2^h - 1
DZero == Zeros(32)
DNodeHash(vh, l, r) == H(<<vh, l, r>>)
RECURSIVE DHash(_, _, _)
DHash(s, cap, p) ==
  IF p >= Len(s) THEN DZero
  ELSE DNodeHash(Blake3(s[p + 1]),
                 IF 2 * p + 1 < cap THEN DHash(s, cap, 2 * p + 1) ELSE DZero,
                 IF 2 * p + 2 < cap THEN DHash(s, cap, 2 * p + 2) ELSE DZero)
DRoot(s, h) == DHash(s, DCap(h), 0)

(* Positions selected by a query item: bounds are big-endian positions of   *)
(* one or two bytes.                                                        *)
DPosOk(i) == (HasLow(i) => BLen(Low(i)) \in {1, 2}) /\ (HasHigh(i) => BLen(High(i)) \in {1, 2})
DNum(x) == ToInt(UnBE(x))
DSel(i, p) ==
  /\ HasLow(i) => IF LowOpen(i) THEN DNum(i.a) < p ELSE DNum(i.a) <= p
  /\ HasHigh(i) => IF HighOpen(i) THEN p < DNum(High(i)) ELSE p <= DNum(High(i))
DQueryOk(items) == \A n \in 1..Len(items) : DPosOk(items[n])
DSelected(items, count) == {p \in 0..(count - 1) : \E n \in 1..Len(items) : DSel(items[n], p)}
-----------------------------------------------------------------------------
VARIABLES vals, height
dvars == <<vals, height>>
DInit == vals = <<>> /\ height = 0
DCreate(h) == vals' = <<>> /\ height' = h
DInsert(v) == Len(vals) < DCap(height) /\ vals' = Append(vals, v) /\ UNCHANGED height
DRefuse == UNCHANGED dvars
DReset == vals' = <<>> /\ UNCHANGED height
DReopen == UNCHANGED dvars
=============================================================================
