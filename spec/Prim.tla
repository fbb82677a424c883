-------------------------------- MODULE Prim --------------------------------
(* Primitive data of the ledger model that TLC has no native type for:        *)
(* exact rationals (canonical text "n/d", d > 0, lowest terms - the form the   *)
(* implementation's own exact numbers print as) and the byte order / splitting *)
(* of texts.  Every operator below is evaluated by a TLC operator override     *)
(* (spec/java/VPrim.java); the TLA+ bodies are placeholders, and MCPrim.tla    *)
(* checks the laws the rest of the specification relies on.                    *)
EXTENDS Integers, Sequences
RAdd(a, b) == CHOOSE x \in {} : TRUE
RSub(a, b) == CHOOSE x \in {} : TRUE
RMul(a, b) == CHOOSE x \in {} : TRUE
RDiv(a, b) == CHOOSE x \in {} : TRUE
RNeg(a) == CHOOSE x \in {} : TRUE
RAbs(a) == CHOOSE x \in {} : TRUE
RCmp(a, b) == CHOOSE x \in {} : TRUE        \* -1, 0, 1
RLt(a, b) == CHOOSE x \in {} : TRUE
RSign(a) == CHOOSE x \in {} : TRUE          \* -1, 0, 1
ROf(a) == CHOOSE x \in {} : TRUE            \* integer or "n/d" -> canonical
RDec(t) == CHOOSE x \in {} : TRUE           \* exact value of a decimal text
RTenth(k) == CHOOSE x \in {} : TRUE         \* 10^-k
RDecimals(a) == CHOOSE x \in {} : TRUE      \* least k with 10^k >= denominator
RDecNeed(a) == CHOOSE x \in {} : TRUE       \* fractional digits a decimal needs
RDenom(a) == CHOOSE x \in {} : TRUE
RIsDecimal(a, k) == CHOOSE x \in {} : TRUE
RNearest64(a) == CHOOSE x \in {} : TRUE     \* nearest IEEE double
SLt(a, b) == CHOOSE x \in {} : TRUE
SStarts(a, p) == CHOOSE x \in {} : TRUE
SContains(a, p) == CHOOSE x \in {} : TRUE
SSplit(a, sep) == CHOOSE x \in {} : TRUE
SJoin(q, sep) == CHOOSE x \in {} : TRUE
SReplace(a, from, to) == CHOOSE x \in {} : TRUE
SUpper(a) == CHOOSE x \in {} : TRUE
SLower(a) == CHOOSE x \in {} : TRUE
SOfInt(i) == CHOOSE x \in {} : TRUE
SDropPrefix(a, p) == CHOOSE x \in {} : TRUE
SCodes(a) == CHOOSE x \in {} : TRUE
SOfCodes(q) == CHOOSE x \in {} : TRUE
RFixed(a, k) == CHOOSE x \in {} : TRUE      \* with k decimals, halves away from zero
SLetterEnd(a) == CHOOSE x \in {} : TRUE    \* does the text end with a letter
STitle(a) == CHOOSE x \in {} : TRUE        \* the first letter of every word in upper case
SWords(a) == CHOOSE x \in {} : TRUE        \* the words of a text, without colour codes
RZero == "0/1"
ROne == "1/1"
RLe(a, b) == ~RLt(b, a)
=============================================================================
