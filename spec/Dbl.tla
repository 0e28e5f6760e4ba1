--------------------------------- MODULE Dbl ---------------------------------
(* Double precision arithmetic for TLC, evaluated by java/Dbl.java.           *)
(* A double is the 16 hex digit string of its bit pattern (an integer is also *)
(* accepted as an argument), a vector a tuple of doubles, a matrix a tuple of *)
(* rows.  The definitions below are placeholders: TLC uses the overrides.     *)
EXTENDS Integers, Sequences
DInt(n) == CHOOSE x \in {} : TRUE          \* integer -> double
DLit(s) == CHOOSE x \in {} : TRUE          \* decimal literal -> double
DShow(x) == CHOOSE s \in {} : TRUE
DLt(x, y) == CHOOSE r \in BOOLEAN : TRUE
DLe(x, y) == CHOOSE r \in BOOLEAN : TRUE
DEq(x, y) == CHOOSE r \in BOOLEAN : TRUE
DFin(x) == CHOOSE r \in BOOLEAN : TRUE
DNaN(x) == CHOOSE r \in BOOLEAN : TRUE
DAdd(x, y) == CHOOSE r \in {} : TRUE
DSub(x, y) == CHOOSE r \in {} : TRUE
DMul(x, y) == CHOOSE r \in {} : TRUE
DDiv(x, y) == CHOOSE r \in {} : TRUE
DNeg(x) == CHOOSE r \in {} : TRUE
DAbs(x) == CHOOSE r \in {} : TRUE
DSqrt(x) == CHOOSE r \in {} : TRUE
DSin(x) == CHOOSE r \in {} : TRUE
DCos(x) == CHOOSE r \in {} : TRUE
DAtan2(y, x) == CHOOSE r \in {} : TRUE
DMax(x, y) == CHOOSE r \in {} : TRUE
DMin(x, y) == CHOOSE r \in {} : TRUE
DPow(x, y) == CHOOSE r \in {} : TRUE
DNear(x, y, rel, abs) == CHOOSE r \in BOOLEAN : TRUE  \* |x-y| <= abs + rel*max
DIsRat(x, n, d) == CHOOSE r \in BOOLEAN : TRUE        \* x = n/d up to rounding
DToInt(x, dflt) == CHOOSE r \in {} : TRUE
VAdd(x, y) == CHOOSE r \in {} : TRUE
VSub(x, y) == CHOOSE r \in {} : TRUE
VScale(k, x) == CHOOSE r \in {} : TRUE
VMul(x, y) == CHOOSE r \in {} : TRUE                  \* component wise
VDot(x, y) == CHOOSE r \in {} : TRUE
VNorm(x) == CHOOSE r \in {} : TRUE
VMaxAbs(x) == CHOOSE r \in {} : TRUE
VFin(x) == CHOOSE r \in BOOLEAN : TRUE
VEq(x, y) == CHOOSE r \in BOOLEAN : TRUE
VNear(x, y, rel, abs) == CHOOSE r \in BOOLEAN : TRUE
VIn(lo, x, hi) == CHOOSE r \in BOOLEAN : TRUE
VClamp(lo, x, hi) == CHOOSE r \in {} : TRUE
MV(M, x) == CHOOSE r \in {} : TRUE
MTV(M, x, n) == CHOOSE r \in {} : TRUE                \* M^T x, n columns
MColSq(M, n) == CHOOSE r \in {} : TRUE
MRcond(M, D, n) == CHOOSE r \in {} : TRUE            \* min/max singular value of M diag(D)^-1
DFun(name, x) == CHOOSE r \in {} : TRUE               \* elementary functions by name
MEig(M, n) == CHOOSE r \in {} : TRUE                  \* eigenvalues of M^T M, ascending
MPinv(M, n, k) == CHOOSE r \in {} : TRUE              \* pseudo-inverse of M^T M, k largest kept
MRank(M, n) == CHOOSE r \in Nat : TRUE                \* rank of a matrix of integers
MSolve(M, D, rhs, n) == CHOOSE r \in {} : TRUE        \* (M^T M + D^2) x = rhs
=============================================================================
