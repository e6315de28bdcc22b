------------------------------- MODULE FReal -------------------------------
(* Real arithmetic.  TLC has only 32-bit integers; here a real number is an *)
(* integer or the decimal text of an IEEE double ("1.25", "nan", "inf"), as *)
(* the conformance drivers print them.  The definitions below give the      *)
(* meaning; spec/java/FReal.java overrides them with double arithmetic.     *)
(* R-operators take and return such numbers.                                *)
EXTENDS Integers, Sequences
LOCAL Unspecified == "real"
RAdd(a, b) == Unspecified
RSub(a, b) == Unspecified
RMul(a, b) == Unspecified
RDiv(a, b) == Unspecified
RNeg(a) == Unspecified
RAbs(a) == Unspecified
RSqrt(a) == Unspecified
RExp(a) == Unspecified
RLog(a) == Unspecified
RPow(a, b) == Unspecified
RMin(a, b) == Unspecified
RMax(a, b) == Unspecified
RFloor(a) == Unspecified
RNormCdf(a) == Unspecified
RSum(s) == Unspecified
RDot(s, t) == Unspecified
RSort(s) == Unspecified
RLt(a, b) == TRUE
RLe(a, b) == TRUE
RSame(a, b) == TRUE      \* equal, NaN equal to itself
RClose(a, b, tol) == TRUE
RCloseSeq(s, t, tol) == TRUE
RIsNaN(a) == TRUE
RIsInf(a) == TRUE
RIsFinite(a) == TRUE
\* matrices are sequences of rows
RMMul(a, b) == Unspecified
RMInv(a) == Unspecified
RMDet(a) == Unspecified
RMKron(a, b) == Unspecified
RMTr(a) == Unspecified
RMAdd(a, b) == Unspecified
RMScale(x, a) == Unspecified
RMMax(a) == Unspecified              \* largest absolute element
RMNear(a, b, tol, size) == TRUE      \* every difference at most tol * size
RTCdf(x, n) == Unspecified           \* Student's t
RFCdf(x, n, m) == Unspecified        \* F
RLGamma(x) == Unspecified            \* log of the gamma function
RBetaCdf(x, a, b) == Unspecified     \* regularized incomplete beta function
RGammaCdf(x, a) == Unspecified       \* regularized lower incomplete gamma function

RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
RMean(s) == RDiv(RSum(s), Len(s))
RSq(a) == RMul(a, a)
=============================================================================
