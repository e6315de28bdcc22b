------------------------------ MODULE Helpers ------------------------------
(* The helpers of the library: ranges of valid data, interpolation, equal   *)
(* parts, Box-Cox transformation, polynomials.                              *)
EXTENDS Integers, Sequences, FiniteSets, FReal

Na(x) == RIsNaN(x)
Valid(d) == {i \in DOMAIN d : ~Na(d[i])}
First(d) == CHOOSE i \in Valid(d) : \A j \in Valid(d) : i <= j
Last(d) == CHOOSE i \in Valid(d) : \A j \in Valid(d) : i >= j
HasGap(d) == Valid(d) # {} /\ \E i \in First(d) .. Last(d) : Na(d[i])

\* ---- interpolation: only interior gaps, linearly between the neighbours
Before(d, i) == CHOOSE j \in Valid(d) : j < i /\ \A k \in Valid(d) : k < i => k <= j
After(d, i) == CHOOSE j \in Valid(d) : j > i /\ \A k \in Valid(d) : k > i => k >= j
IsInterior(d, i) == Na(d[i]) /\ (\E j \in Valid(d) : j < i) /\ (\E j \in Valid(d) : j > i)
Interpolated(d) ==
  [i \in DOMAIN d |->
     IF IsInterior(d, i)
     THEN LET a == Before(d, i)
              b == After(d, i)
          IN RDiv(RAdd(RMul(b - i, d[a]), RMul(i - a, d[b])), b - a)
     ELSE d[i]]
Filled(d) == Cardinality({i \in DOMAIN d : IsInterior(d, i)})

\* ---- parts of equal size; the rest is at the end, or at the beginning
Parts(d, size, fromEnd) ==
  LET n == Len(d)
      k == (n + size - 1) \div size
      first == IF fromEnd /\ n % size # 0 THEN n % size ELSE size
      from(j) == IF j = 1 THEN 1 ELSE first + (((j - 2) * size)) + 1
      to(j) == IF first + ((j - 1) * size) > n THEN n ELSE first + ((j - 1) * size)
  IN [j \in 1 .. k |-> SubSeq(d, from(j), to(j))]

\* ---- Box-Cox
BoxCox(x, l) == IF RIsNaN(l) THEN x ELSE IF RSame(l, 0) THEN RLog(x) ELSE RDiv(RSub(RPow(x, l), 1), l)

\* ---- polynomials: coefficient i is at position i+1
RECURSIVE TrimZeros(_)
TrimZeros(a) == IF a = <<>> THEN <<>> ELSE IF RSame(a[Len(a)], 0) THEN TrimZeros(SubSeq(a, 1, Len(a) - 1)) ELSE a
Cut(s, len) == SubSeq(s, 1, IF Len(s) < len THEN Len(s) ELSE len)
Mul(a, b) ==
  [k \in 1 .. (Len(a) + Len(b) - 1) |->
     RSum([i \in 1 .. k |-> IF i <= Len(a) /\ (k + 1) - i <= Len(b) THEN RMul(a[i], b[(k + 1) - i]) ELSE 0])]
RECURSIVE Power(_, _)
Power(a, p) == IF p = 0 THEN <<1>> ELSE Mul(a, Power(a, p - 1))
SamePoly(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RClose(a[i], b[i], "1e-11")

\* matrices are sequences of rows
MZero(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> 0]]
MId(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN 1 ELSE 0]]
MAdd(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RAdd(a[i][j], b[i][j])]]
MScale(x, a) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RMul(x, a[i][j])]]
MMul(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN b[1] |-> RDot(a[i], [k \in DOMAIN b |-> b[k][j]])]]
RECURSIVE MSum(_, _)
MSum(s, n) == IF s = <<>> THEN MZero(n) ELSE MAdd(s[1], MSum(Tail(s), n))
PMul(a, b, n) ==
  [k \in 1 .. (Len(a) + Len(b) - 1) |->
     MSum([i \in 1 .. k |-> IF i <= Len(a) /\ (k + 1) - i <= Len(b) THEN MMul(a[i], b[(k + 1) - i]) ELSE MZero(n)], n)]
PMulScalar(a, b, n) ==
  [k \in 1 .. (Len(a) + Len(b) - 1) |->
     MSum([i \in 1 .. k |-> IF i <= Len(a) /\ (k + 1) - i <= Len(b) THEN MScale(b[(k + 1) - i], a[i]) ELSE MZero(n)], n)]
MClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : RClose(a[i][j], b[i][j], tol)
SamePolyM(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : MClose(a[i], b[i], "1e-11")
\* b is the inverse of a up to its length; the terms can be large, so the tolerance is relative to their size
MaxAbs(m) == LET all == [i \in DOMAIN m |-> RSum([j \in DOMAIN m[i] |-> RAbs(m[i][j])])] IN RSum(all)
IsInverse(a, b, n) ==
  LET p == PMul(a, b, n)
      size == RAdd(1, RMul(RSum([i \in DOMAIN a |-> MaxAbs(a[i])]), RSum([i \in DOMAIN b |-> MaxAbs(b[i])])))
  IN \A k \in DOMAIN b : \A i, j \in 1 .. n : RLe(RAbs(RSub(p[k][i][j], IF k = 1 /\ i = j THEN 1 ELSE 0)), RMul("1e-11", size))
=============================================================================
