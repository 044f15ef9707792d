------------------------------- MODULE Prims -------------------------------
(* Primitives on byte strings (lowercase hex strings) and on unbounded      *)
(* integers (decimal strings). They are evaluated by /verif/java/Prims.java *)
(* (a TLC module override); the definitions here only fix their arity.      *)
LOCAL INSTANCE Naturals
Blake3(x) == CHOOSE y \in STRING : TRUE
H(seq) == CHOOSE y \in STRING : TRUE
Cat(seq) == CHOOSE y \in STRING : TRUE
BLen(x) == CHOOSE y \in Nat : TRUE
BSub(x, from, to) == CHOOSE y \in STRING : TRUE
BAt(x, i) == CHOOSE y \in Nat : TRUE
BLess(a, b) == CHOOSE y \in BOOLEAN : TRUE
BLeq(a, b) == CHOOSE y \in BOOLEAN : TRUE
BPrefix(p, x) == CHOOSE y \in BOOLEAN : TRUE
Zeros(n) == CHOOSE y \in STRING : TRUE
BRepeat(x, n) == CHOOSE y \in STRING : TRUE
BE(n, k) == CHOOSE y \in STRING : TRUE
LEnc(n, k) == CHOOSE y \in STRING : TRUE
UnBE(x) == CHOOSE y \in STRING : TRUE
VarInt(n) == CHOOSE y \in STRING : TRUE
VarIntS(n) == CHOOSE y \in STRING : TRUE
BinU(n) == CHOOSE y \in STRING : TRUE
BinI(n) == CHOOSE y \in STRING : TRUE
IAdd(a, b) == CHOOSE y \in STRING : TRUE
ISub(a, b) == CHOOSE y \in STRING : TRUE
IMul(a, b) == CHOOSE y \in STRING : TRUE
IDiv(a, b) == CHOOSE y \in STRING : TRUE
IPow2(k) == CHOOSE y \in STRING : TRUE
ILess(a, b) == CHOOSE y \in BOOLEAN : TRUE
ILeq(a, b) == CHOOSE y \in BOOLEAN : TRUE
IEq(a, b) == CHOOSE y \in BOOLEAN : TRUE
IMin(a, b) == CHOOSE y \in STRING : TRUE
IMax(a, b) == CHOOSE y \in STRING : TRUE
ISum(seq) == CHOOSE y \in STRING : TRUE
Dec(a) == CHOOSE y \in STRING : TRUE
ToInt(a) == CHOOSE y \in Nat : TRUE
Utf8(a) == CHOOSE y \in STRING : TRUE
BSort(seq) == CHOOSE y \in STRING : TRUE
BSetToSeq(set) == CHOOSE y \in STRING : TRUE
Emit(file, line) == TRUE
Env(name, dflt) == CHOOSE y \in STRING : TRUE
EnvInt(name, dflt) == CHOOSE y \in Nat : TRUE
=============================================================================
