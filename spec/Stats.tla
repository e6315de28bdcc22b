-------------------------------- MODULE Stats --------------------------------
(* Definitions of the descriptive statistics.  Series are sequences.        *)
EXTENDS Integers, Sequences, FiniteSets, FReal, TLC

Count(s, P(_)) == Cardinality({k \in DOMAIN s : P(s[k])})
Keep(s, P(_)) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN <<>> ELSE IF P(s[k]) THEN Append(F[k - 1], s[k]) ELSE F[k - 1] IN TLCEval(F[Len(s)])
NoNan(s) == Keep(s, LAMBDA x : ~RIsNaN(x))
\* observations valid in both
Common(s, t) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN <<>> ELSE IF RIsNaN(s[k]) \/ RIsNaN(t[k]) THEN F[k - 1] ELSE Append(F[k - 1], k) IN TLCEval(F[Len(s)])
At(s, idx) == TLCEval([k \in DOMAIN idx |-> s[idx[k]]])

Mean(s) == IF s = <<>> THEN "nan" ELSE RMean(s)
Center(s) == LET m == Mean(s) IN TLCEval([k \in DOMAIN s |-> RSub(s[k], m)])
Pow(s, p) == [k \in DOMAIN s |-> IF p = 1 THEN s[k] ELSE IF p = 2 THEN RSq(s[k]) ELSE IF p = 3 THEN RMul(RSq(s[k]), s[k]) ELSE RSq(RSq(s[k]))]
CM(s, p) == RSum(Pow(Center(s), p))           \* centred sums of powers
Var(s, sample) == IF s = <<>> \/ (sample /\ Len(s) < 2) THEN "nan" ELSE RDiv(CM(s, 2), IF sample THEN Len(s) - 1 ELSE Len(s))
Cov(s, t, sample) == IF s = <<>> \/ (sample /\ Len(s) < 2) THEN "nan" ELSE RDiv(RDot(Center(s), Center(t)), IF sample THEN Len(s) - 1 ELSE Len(s))
Corr(s, t) == RDiv(RDot(Center(s), Center(t)), RSqrt(RMul(CM(s, 2), CM(t, 2))))
AbsMax(s) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE RMax(F[k - 1], RAbs(s[k])) IN F[Len(s)]
\* the variance is not a rounding error of the values
Varies(s) == Len(s) > 1 /\ RGt(RSqrt(Var(s, FALSE)), RMul("1e-9", AbsMax(s)))
\* how far rounding errors of the values go, relative to the deviations
Amplify(s) == RMax(1, RDiv(AbsMax(s), RSqrt(Var(s, FALSE))))
Skew(s) == RDiv(RMul(RSqrt(Len(s)), CM(s, 3)), RPow(CM(s, 2), "1.5"))
Kurt(s) == RSub(RDiv(RMul(Len(s), CM(s, 4)), RSq(CM(s, 2))), 3)
SampleSkew(s) == LET n == Len(s) IN RMul(Skew(s), RDiv(RSqrt(n * (n - 1)), n - 2))
SampleKurt(s) == LET n == Len(s) IN RMul(RDiv(n - 1, (n - 2) * (n - 3)), RAdd(RMul(n + 1, Kurt(s)), 6))
MinS(s) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN "inf" ELSE IF RIsNaN(s[k]) THEN F[k - 1] ELSE RMin(F[k - 1], s[k]) IN F[Len(s)]
MaxS(s) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN "-inf" ELSE IF RIsNaN(s[k]) THEN F[k - 1] ELSE RMax(F[k - 1], s[k]) IN F[Len(s)]
FirstAt(s, x) == IF \E k \in DOMAIN s : RSame(s[k], x) THEN CHOOSE k \in DOMAIN s : RSame(s[k], x) /\ \A j \in 1 .. (k - 1) : ~RSame(s[j], x) ELSE 0

\* ranks from zero; equal values share the smallest one
RankIn(s, k, asc) == Count(s, LAMBDA x : IF asc THEN RLt(x, s[k]) ELSE RGt(x, s[k]))
Ranks(s, asc) == TLCEval([k \in DOMAIN s |-> RankIn(s, k, asc)])

\* quantile: linear between the order statistics k of probability (k - 1/3)/(n + 1/3)
Quantile(sorted, tau) ==
  LET n == Len(sorted)
      h == RAdd(RMul(RAdd(n, RDiv(1, 3)), tau), RDiv(1, 3))
      below == {k \in 1 .. n : RLe(k, h)}
      k == Cardinality(below)
  IN IF RLe(tau, 0) \/ n = 1 \/ k = 0 THEN sorted[1]
     ELSE IF RGe(tau, 1) \/ k >= n THEN sorted[n]
     ELSE RAdd(sorted[k], RMul(RSub(h, k), RSub(sorted[k + 1], sorted[k])))

\* distances of two columns, over their common observations if nan, else over all
Diffs(s, t, idx) == [k \in DOMAIN idx |-> RAbs(RSub(s[idx[k]], t[idx[k]]))]
Root(x) == RSqrt(RMax(0, x))
DistOf(method, s, t) == \* s, t without missing values
  LET d == [k \in DOMAIN s |-> RAbs(RSub(s[k], t[k]))]
      r == IF method \in {"spearman", "absspearman"} THEN Corr(Ranks(s, FALSE), Ranks(t, FALSE)) ELSE Corr(s, t)
  IN CASE method = "euclidean" -> RSqrt(RSum(Pow(d, 2)))
       [] method = "manhattan" -> RSum(d)
       [] method = "maximum" -> RMax(0, MaxS(d))
       [] method \in {"pearson", "spearman"} -> Root(RDiv(RSub(1, r), 2))
       [] method \in {"abspearson", "absspearman"} -> Root(RSub(1, RSq(r)))

\* filters: y_t = x_t + c_1 y_(t-1) + .., the first k values are those of x;  y_t = c_0 x_(t+o) + c_1 x_(t+o-1) + ..
RECURSIVE ArFrom(_, _, _)
ArFrom(x, c, done) ==
  LET t == Len(done) + 1
      k == Len(c)
  IN IF t > Len(x) THEN done
     ELSE ArFrom(x, c, Append(done, IF t <= k THEN x[t] ELSE RAdd(x[t], RSum([j \in 1 .. k |-> RMul(c[j], done[t - j])]))))
ArFilter(x, c) == ArFrom(x, c, <<>>)
MaFilter(x, c, centered) ==
  LET k == Len(c)
      o == IF centered THEN k \div 2 ELSE 0
  IN TLCEval([t \in DOMAIN x |-> IF (t + o) - (k - 1) < 1 \/ t + o > Len(x) THEN "nan"
                         ELSE RSum([j \in 1 .. k |-> RMul(c[j], x[(t + o) - (j - 1)])])])
\* y = a + b t, t = 1, 2, ..
TrendNormal(x, a, b) ==
  LET e == [t \in DOMAIN x |-> RSub(x[t], RAdd(a, RMul(b, t)))]
  IN <<RSum(e), RSum([t \in DOMAIN x |-> RMul(t, e[t])])>>
\* classical decomposition by moving averages
SeasonOf(t, s) == ((t - 1) % s) + 1
Combine(mult, a, b) == IF mult THEN RDiv(a, b) ELSE RSub(a, b)
RawSeasons(x, trend, s, mult) ==
  TLCEval([f \in 1 .. s |-> Mean(NoNan([q \in 1 .. (((Len(x) - f) \div s) + 1) |-> LET t == f + ((q - 1) * s) IN Combine(mult, x[t], trend[t])]))])
Seasons(x, trend, s, mult) == LET raw == RawSeasons(x, trend, s, mult) m == RMean(raw) IN TLCEval([f \in 1 .. s |-> Combine(mult, raw[f], m)])
=============================================================================
