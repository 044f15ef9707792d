-------------------------------- MODULE Bulk --------------------------------
(* Bulk append tree of height h: values fill a dense buffer of 2^h - 1; the *)
(* value that does not fit closes an epoch of 2^h values, which becomes one *)
(* chunk (an MMR leaf holding the encoded values) and empties the buffer.   *)
EXTENDS Sequences, Naturals, Prims, QueryItem
D == INSTANCE Dense WITH vals <- <<>>, height <- 0
M == INSTANCE Mmr WITH stored <- <<>>, cur <- <<>>

Epoch(h) == 2^h
BChunks(s, h) == Len(s) \div Epoch(h)
BChunk(s, h, i) == SubSeq(s, i * Epoch(h) + 1, (i + 1) * Epoch(h))     \* i is 0-based
BBuffer(s, h) == SubSeq(s, BChunks(s, h) * Epoch(h) + 1, Len(s))

(* Chunk blobs: all values of one length: 01 count size values; otherwise   *)
(* 00 then length-prefixed values; nothing at all for no values.            *)
RECURSIVE CatAll(_)
CatAll(s) == Cat(s)
SameLen(s) == \A i \in 1..Len(s) : BLen(s[i]) = BLen(s[1])
BlobOf(s) ==
  IF s = <<>> THEN ""
  ELSE IF SameLen(s) THEN Cat(<<"01", BE(Len(s), 4), BE(BLen(s[1]), 4), Cat(s)>>)
  ELSE Cat(<<"00", Cat([i \in 1..Len(s) |-> Cat(<<BE(BLen(s[i]), 4), s[i]>>)])>>)
\* decoding: [ok, v]
BBad == [ok |-> FALSE, v |-> <<>>]
RECURSIVE BVar(_, _, _)
BVar(b, at, acc) ==
  IF at = BLen(b) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF at + 4 > BLen(b) THEN BBad
  ELSE LET n == UnBE(BSub(b, at, at + 4)) IN
       IF ILess(Dec(BLen(b) - at - 4), n) THEN BBad
       ELSE BVar(b, at + 4 + ToInt(n), Append(acc, BSub(b, at + 4, at + 4 + ToInt(n))))
BFix(b) ==
  IF BLen(b) < 9 THEN BBad
  ELSE LET c == UnBE(BSub(b, 1, 5)) z == UnBE(BSub(b, 5, 9)) IN
       IF ILess(IPow2(20), c) \/ ~IEq(IMul(c, z), Dec(BLen(b) - 9)) THEN BBad
       ELSE LET n == ToInt(z) IN [ok |-> TRUE, v |-> [i \in 1..ToInt(c) |-> BSub(b, 9 + (i - 1) * n, 9 + i * n)]]
BlobDecode(b) ==
  IF b = "" THEN [ok |-> TRUE, v |-> <<>>]
  ELSE CASE BSub(b, 0, 1) = "01" -> BFix(b)
         [] BSub(b, 0, 1) = "00" -> BVar(b, 1, <<>>)
         [] OTHER -> BBad

BBlobs(s, h) == [i \in 1..BChunks(s, h) |-> BlobOf(BChunk(s, h, i - 1))]
BMmrRoot(s, h) == IF BChunks(s, h) = 0 THEN Zeros(32) ELSE M!MRoot(BBlobs(s, h))
BRoot(s, h) == H(<<Utf8("bulk_state"), BMmrRoot(s, h), D!DRoot(BBuffer(s, h), h)>>)
\* hash calls of appending to s
BHashes(s, h) == IF Len(BBuffer(s, h)) < Epoch(h) - 1 THEN 2 * (Len(BBuffer(s, h)) + 1) + 1
                 ELSE M!MPushHashes(BChunks(s, h)) + 1

(* Positions selected by a query: bounds are big-endian, 1 to 8 bytes.      *)
BPosOk(i) == /\ (HasLow(i) => BLen(Low(i)) \in 1..8)
             /\ (HasHigh(i) => BLen(High(i)) \in 1..8)
BQueryOk(items) == \A n \in 1..Len(items) : BPosOk(items[n])
BSel(i, p) ==
  /\ HasLow(i) => IF LowOpen(i) THEN ILess(UnBE(i.a), p) ELSE ILeq(UnBE(i.a), p)
  /\ HasHigh(i) => IF HighOpen(i) THEN ILess(p, UnBE(High(i))) ELSE ILeq(p, UnBE(High(i)))
BPicked(items, p) == \E n \in 1..Len(items) : BSel(items[n], p)
RECURSIVE BSelectFrom(_, _, _)
BSelectFrom(items, s, p) ==
  IF p >= Len(s) THEN <<>>
  ELSE (IF BPicked(items, p) THEN <<<<p, s[p + 1]>>>> ELSE <<>>) \o BSelectFrom(items, s, p + 1)
\* the answer to a query: <<position, value>> pairs in order
BAnswer(items, s) == BSelectFrom(items, s, 0)
BRange(s, a, b) == SubSeq([i \in 1..Len(s) |-> <<i - 1, s[i]>>], a + 1, b)
-----------------------------------------------------------------------------
VARIABLES vals, height,
          flushed,      \* chunks whose nodes are in the store (the rest are held by the handle)
          saved         \* the sequence at the last consistent save
bvars == <<vals, height, flushed, saved>>
BInit == vals = <<>> /\ height = 0 /\ flushed = 0 /\ saved = <<>>
BCreate(h) == vals' = <<>> /\ height' = h /\ flushed' = 0 /\ saved' = <<>>
BAppend(v) == vals' = Append(vals, v) /\ UNCHANGED <<height, flushed, saved>>
BCommit == flushed' = BChunks(vals, height) /\ UNCHANGED <<vals, height, saved>>
\* a new handle on the store; possible when nothing is held back
BReopen == flushed = BChunks(vals, height) /\ UNCHANGED bvars
BSave == flushed = BChunks(vals, height) /\ saved' = vals /\ UNCHANGED <<vals, height, flushed>>
\* everything since the save is discarded
BDrop == vals' = saved /\ flushed' = BChunks(saved, height) /\ UNCHANGED <<height, saved>>
BNothing == UNCHANGED bvars
=============================================================================
