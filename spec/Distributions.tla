---------------------------- MODULE Distributions ----------------------------
(* The distributions of the library: densities and distribution functions by definition, moments from them, quantiles as their       *)
(* inverse; mixtures, distributions given by 103 quantiles, and histograms.                                                          *)
(* A distribution is its type t and its parameters a (a sequence of four):                                                           *)
(*   n normal, l log-normal, u uniform, c chi-squared, t Student, e exponential (rate), f F, g gamma (shape, scale), b beta,         *)
(*   k generalized lambda (FKML), o uniform on integers, i Bernoulli, s Poisson, r geometric (failures), a binomial (p, n).          *)
EXTENDS FReal, Integers, Sequences, FiniteSets, TLC
Discrete == {"o", "i", "s", "r", "a"}
Inf == "inf"
NegInf == "-inf"
IsInt(x) == RIsFinite(x) /\ RSame(RFloor(x), x)

\* ---- support
Min(t, a) ==
  CASE t \in {"n", "t"} -> NegInf
    [] t \in {"u", "o"} -> a[1]
    [] t = "k" -> IF RLe(a[3], 0) THEN NegInf ELSE RSub(a[1], RDiv(1, RMul(a[2], a[3])))
    [] OTHER -> 0
Max(t, a) ==
  CASE t \in {"u", "o"} -> a[2]
    [] t = "b" -> 1
    [] t = "k" -> IF RLe(a[4], 0) THEN Inf ELSE RAdd(a[1], RDiv(1, RMul(a[2], a[4])))
    [] t = "i" -> 1
    [] t = "a" -> a[2]
    [] OTHER -> Inf
Outside(t, a, x) == RLt(x, Min(t, a)) \/ RGt(x, Max(t, a))

\* ---- log of the density or of the probability, inside the support and off its ends
HalfLog2Pi == "0.918938533204672741780"
Pi == "3.14159265358979323846"
LBeta(p, q) == RSub(RAdd(RLGamma(p), RLGamma(q)), RLGamma(RAdd(p, q)))
Xlog(x, y) == IF RSame(x, 0) THEN 0 ELSE RMul(x, RLog(y)) \* x log y, zero times anything being zero
LogPdf(t, a, x) ==
  CASE t = "n" -> RSub(RMul("-0.5", RSq(RDiv(RSub(x, a[1]), a[2]))), RAdd(RLog(a[2]), HalfLog2Pi))
    [] t = "l" -> RSub(RMul("-0.5", RSq(RDiv(RSub(RLog(x), a[1]), a[2]))), RAdd(RLog(RMul(x, a[2])), HalfLog2Pi))
    [] t = "u" -> RNeg(RLog(RSub(a[2], a[1])))
    [] t = "c" -> LET h == RDiv(a[1], 2) IN RSub(RSub(Xlog(RSub(h, 1), x), RDiv(x, 2)), RAdd(RMul(h, RLog(2)), RLGamma(h)))
    [] t = "t" -> LET h == RDiv(RAdd(a[1], 1), 2)
                  IN RSub(RSub(RLGamma(h), RLGamma(RDiv(a[1], 2))), RAdd(RMul("0.5", RLog(RMul(a[1], Pi))), RMul(h, RLog(RAdd(1, RDiv(RSq(x), a[1]))))))
    [] t = "e" -> RSub(RLog(a[1]), RMul(a[1], x))
    [] t = "f" -> LET u == RDiv(a[1], 2)
                      v == RDiv(a[2], 2)
                      c == RDiv(a[1], a[2])
                  IN RSub(RAdd(RMul(u, RLog(c)), Xlog(RSub(u, 1), x)), RAdd(LBeta(u, v), RMul(RAdd(u, v), RLog(RAdd(1, RMul(c, x))))))
    [] t = "g" -> RSub(RSub(Xlog(RSub(a[1], 1), x), RDiv(x, a[2])), RAdd(RMul(a[1], RLog(a[2])), RLGamma(a[1])))
    [] t = "b" -> RSub(RAdd(Xlog(RSub(a[1], 1), x), Xlog(RSub(a[2], 1), RSub(1, x))), LBeta(a[1], a[2]))
    [] t = "o" -> RNeg(RLog(RAdd(RSub(a[2], a[1]), 1)))
    [] t = "i" -> IF RSame(x, 0) THEN RLog(RSub(1, a[1])) ELSE RLog(a[1])
    [] t = "s" -> RSub(Xlog(x, a[1]), RAdd(a[1], RLGamma(RAdd(x, 1))))
    [] t = "r" -> RAdd(RLog(a[1]), Xlog(x, RSub(1, a[1])))
    [] t = "a" -> RAdd(RSub(RLGamma(RAdd(a[2], 1)), RAdd(RLGamma(RAdd(x, 1)), RLGamma(RAdd(RSub(a[2], x), 1)))),
                       RAdd(Xlog(x, a[1]), Xlog(RSub(a[2], x), RSub(1, a[1]))))
Possible(t, a, x) == ~Outside(t, a, x) /\ RIsFinite(x) /\ (t \in Discrete => IsInt(x)) /\ (t = "l" => RGt(x, 0))
Pdf(t, a, x) == IF Possible(t, a, x) THEN RExp(LogPdf(t, a, x)) ELSE 0

\* ---- distribution function
Cdf(t, a, x) ==
  IF RLt(x, Min(t, a)) \/ RSame(x, NegInf) THEN 0
  ELSE IF RGe(x, Max(t, a)) \/ RSame(x, Inf) THEN 1
  ELSE LET k == RFloor(x)
       IN CASE t = "n" -> RNormCdf(RDiv(RSub(x, a[1]), a[2]))
            [] t = "l" -> IF RLe(x, 0) THEN 0 ELSE RNormCdf(RDiv(RSub(RLog(x), a[1]), a[2]))
            [] t = "u" -> RDiv(RSub(x, a[1]), RSub(a[2], a[1]))
            [] t = "c" -> RGammaCdf(RDiv(x, 2), RDiv(a[1], 2))
            [] t = "t" -> RTCdf(x, a[1])
            [] t = "e" -> RSub(1, RExp(RNeg(RMul(a[1], x))))
            [] t = "f" -> RFCdf(x, a[1], a[2])
            [] t = "g" -> RGammaCdf(RDiv(x, a[2]), a[1])
            [] t = "b" -> RBetaCdf(x, a[1], a[2])
            [] t = "o" -> RDiv(RAdd(RSub(k, a[1]), 1), RAdd(RSub(a[2], a[1]), 1))
            [] t = "i" -> RSub(1, a[1])
            [] t = "s" -> IF RSame(a[1], 0) THEN 1 ELSE RSub(1, RGammaCdf(a[1], RAdd(k, 1)))
            [] t = "r" -> RSub(1, RExp(Xlog(RAdd(k, 1), RSub(1, a[1]))))
            [] t = "a" -> IF RSame(a[1], 0) THEN 1 ELSE IF RSame(a[1], 1) THEN 0 ELSE RBetaCdf(RSub(1, a[1]), RSub(a[2], k), RAdd(k, 1))

\* ---- the generalized lambda distribution is given by its quantile function (q = 1 - p)
Gld2(a, p, q) ==
  RAdd(a[1], RDiv(RSub(IF RSame(a[3], 0) THEN RLog(p) ELSE RDiv(RSub(RPow(p, a[3]), 1), a[3]),
                       IF RSame(a[4], 0) THEN RLog(q) ELSE RDiv(RSub(RPow(q, a[4]), 1), a[4])), a[2]))
Gld(a, p) == Gld2(a, p, RSub(1, p))
GldDensity(a, p) == RDiv(a[2], RAdd(RPow(p, RSub(a[3], 1)), RPow(RSub(1, p), RSub(a[4], 1))))

\* ---- mean, variance, skewness and excess kurtosis
FromRaw(m1, m2, m3, m4) == \* from the moments about zero
  LET v == RSub(m2, RSq(m1))
      c3 == RAdd(RSub(m3, RMul(RMul(3, m1), m2)), RMul(2, RPow(m1, 3)))
      c4 == RSub(RAdd(RSub(m4, RMul(RMul(4, m1), m3)), RMul(RMul(6, RSq(m1)), m2)), RMul(3, RPow(m1, 4)))
  IN <<m1, v, RDiv(c3, RPow(v, "1.5")), RSub(RDiv(c4, RSq(v)), 3)>>
Central(xs, ps) == \* of a discrete distribution with values xs and probabilities ps
  LET m == TLCEval(RDot(xs, ps))
      d == TLCEval([k \in DOMAIN xs |-> RSub(xs[k], m)])
      c(r) == RDot([k \in DOMAIN d |-> RPow(d[k], r)], ps)
      v == TLCEval(c(2))
  IN <<m, v, RDiv(c(3), RPow(v, "1.5")), RSub(RDiv(c(4), RSq(v)), 3)>>
\* integral of F(p, 1-p) over p by the trapezoidal rule in log(p / (1-p))
Nodes == [k \in 1 .. 801 |-> LET x == RDiv(k - 401, 10)
                                 e == RExp(RNeg(RAbs(x)))
                                 s == RDiv(1, RAdd(1, e))
                             IN IF k >= 401 THEN <<s, RMul(e, s)>> ELSE <<RMul(e, s), s>>]
NODES == TLCEval(Nodes)
GldMoments(a) ==
  LET w == TLCEval([k \in DOMAIN NODES |-> RDiv(RMul(NODES[k][1], NODES[k][2]), 10)])
      x == TLCEval([k \in DOMAIN NODES |-> Gld2(a, NODES[k][1], NODES[k][2])])
  IN Central(x, w)
Nan == "nan"
Moments(t, a) ==
  CASE t = "n" -> <<a[1], RSq(a[2]), 0, 0>>
    [] t = "l" -> LET w == RExp(RSq(a[2]))
                  IN <<RExp(RAdd(a[1], RDiv(RSq(a[2]), 2))), RMul(RSub(w, 1), RMul(w, RExp(RMul(2, a[1])))), RMul(RAdd(w, 2), RSqrt(RSub(w, 1))),
                       RSub(RAdd(RPow(w, 4), RAdd(RMul(2, RPow(w, 3)), RMul(3, RSq(w)))), 6)>>
    [] t = "u" -> <<RDiv(RAdd(a[1], a[2]), 2), RDiv(RSq(RSub(a[2], a[1])), 12), 0, "-1.2">>
    [] t = "c" -> <<a[1], RMul(2, a[1]), RSqrt(RDiv(8, a[1])), RDiv(12, a[1])>>
    [] t = "t" -> <<IF RGt(a[1], 1) THEN 0 ELSE Nan, IF RGt(a[1], 2) THEN RDiv(a[1], RSub(a[1], 2)) ELSE IF RGt(a[1], 1) THEN Inf ELSE Nan,
                    IF RGt(a[1], 3) THEN 0 ELSE Nan, IF RGt(a[1], 4) THEN RDiv(6, RSub(a[1], 4)) ELSE IF RGt(a[1], 2) THEN Inf ELSE Nan>>
    [] t = "e" -> <<RDiv(1, a[1]), RDiv(1, RSq(a[1])), 2, 6>>
    [] t = "f" -> \* moments about zero: (d2/d1)^r G(d1/2+r) G(d2/2-r) / (G(d1/2) G(d2/2))
                  LET raw(r) == RExp(RAdd(RMul(r, RLog(RDiv(a[2], a[1]))), RSub(RAdd(RLGamma(RAdd(RDiv(a[1], 2), r)), RLGamma(RSub(RDiv(a[2], 2), r))),
                                                                               RAdd(RLGamma(RDiv(a[1], 2)), RLGamma(RDiv(a[2], 2))))))
                      has(r) == RGt(a[2], 2 * r)
                      m == TLCEval([r \in 1 .. 4 |-> IF has(r) THEN raw(r) ELSE Nan])
                      f == FromRaw(m[1], m[2], m[3], m[4])
                  IN [r \in 1 .. 4 |-> IF has(r) THEN f[r] ELSE Nan]
    [] t = "g" -> <<RMul(a[1], a[2]), RMul(a[1], RSq(a[2])), RDiv(2, RSqrt(a[1])), RDiv(6, a[1])>>
    [] t = "b" -> LET up(k) == RDiv(RAdd(a[1], k), RAdd(RAdd(a[1], a[2]), k)) \* ratio of a moment about zero to the one before
                      m2 == RMul(up(0), up(1))
                      m3 == RMul(m2, up(2))
                  IN FromRaw(up(0), m2, m3, RMul(m3, up(3)))
    [] t = "k" -> GldMoments(a)
    [] OTHER -> \* sums over the support, as far as it matters
       LET lo == Min(t, a)
           n == IF t = "o" THEN RAdd(RSub(a[2], a[1]), 1) ELSE IF t = "i" THEN 2 ELSE IF t = "a" THEN RAdd(a[2], 1) ELSE 200
           xs == TLCEval(SelectSeq([k \in 1 .. 200 |-> RAdd(lo, k - 1)], LAMBDA x : RLt(RSub(x, lo), n)))
       IN Central(xs, TLCEval([k \in DOMAIN xs |-> Pdf(t, a, xs[k])]))

\* ---- quantiles
IsQuantile(t, a, p, q, tol) ==
  IF RLe(p, 0) THEN RSame(q, Min(t, a)) ELSE IF RGe(p, 1) THEN RSame(q, Max(t, a))
  ELSE IF t = "k" THEN RClose(q, Gld(a, p), tol)
  ELSE IF t \in Discrete THEN IsInt(q) /\ RGe(RAdd(Cdf(t, a, q), tol), p) /\ RLe(Cdf(t, a, RSub(q, 1)), RAdd(p, tol))
  ELSE ~RIsNaN(q) /\ RLe(RAbs(RSub(Cdf(t, a, q), p)), tol)
IsMedian(t, a, q, tol) == RGe(RAdd(Cdf(t, a, q), tol), "0.5") /\ RLe(Cdf(t, a, RSub(q, IF t \in Discrete THEN 1 ELSE 0)), RAdd("0.5", tol))

\* ---- a sample of n values against a distribution function: largest distance of the two distribution functions
SampleClose(s, F(_), tol, every) == LET q == TLCEval(RSort(s)) IN \A k \in DOMAIN q : k % every = 0 /\ (k = Len(q) \/ RLt(q[k], q[k + 1])) => RLe(RAbs(RSub(F(q[k]), RDiv(k, Len(q)))), tol)

\* ---- mixtures: parts are records [type, a], w their weights
Share(w) == LET s == RSum(w) IN [k \in DOMAIN w |-> RDiv(w[k], s)]
MixCdf(parts, w, x) == RDot(TLCEval([k \in DOMAIN parts |-> Cdf(parts[k].type, parts[k].a, x)]), Share(w))
MixPdf(parts, w, x) == RDot(TLCEval([k \in DOMAIN parts |-> Pdf(parts[k].type, parts[k].a, x)]), Share(w))
MixMoments(parts, w) == \* about zero of the parts, then of the mixture
  LET raw == TLCEval([k \in DOMAIN parts |->
               LET m == TLCEval(Moments(parts[k].type, parts[k].a))
                   c3 == RMul(m[3], RPow(m[2], "1.5"))
                   c4 == RMul(RAdd(m[4], 3), RSq(m[2]))
               IN <<m[1], RAdd(m[2], RSq(m[1])), RAdd(c3, RAdd(RMul(RMul(3, m[1]), m[2]), RPow(m[1], 3))),
                    RAdd(RAdd(c4, RMul(RMul(4, m[1]), c3)), RAdd(RMul(RMul(6, RSq(m[1])), m[2]), RPow(m[1], 4)))>>])
      m(r) == RDot([k \in DOMAIN parts |-> raw[k][r]], Share(w))
  IN FromRaw(m(1), m(2), m(3), m(4))
Least(s) == RSort(s)[1]
Most(s) == RSort(s)[Len(s)]

\* ---- a distribution given by its quantiles Q[1..103]
Prob(k) == IF k = 1 THEN "0.0001" ELSE IF k = 2 THEN "0.001" ELSE IF k = 102 THEN "0.999" ELSE IF k = 103 THEN "0.9999" ELSE RDiv(k - 2, 100)
Clip(x) == RMax(0, RMin(1, x))
Line(x, x0, y0, x1, y1) == RAdd(y0, RMul(RSub(x, x0), RDiv(RSub(y1, y0), RSub(x1, x0))))
Piece(n, below(_)) == LET k == Cardinality({j \in 1 .. n : below(j)}) IN IF k < 1 THEN 1 ELSE IF k >= n THEN n - 1 ELSE k
TableCdf(Q, x) == LET k == Piece(103, LAMBDA j : RLe(Q[j], x)) IN Clip(Line(x, Q[k], Prob(k), Q[k + 1], Prob(k + 1)))
TableQuantile(Q, p) == LET k == Piece(103, LAMBDA j : RLe(Prob(j), p)) IN Line(p, Prob(k), Q[k], Prob(k + 1), Q[k + 1])

\* ---- histograms: counts below the axis, in its bins (the last one with its upper edge), and above
Bins(data, axis) ==
  LET n == Len(axis)
      inBin(x, k) == IF k = 1 THEN RLt(x, axis[1])
                     ELSE IF k = n + 1 THEN RGt(x, axis[n])
                     ELSE RLe(axis[k - 1], x) /\ (RLt(x, axis[k]) \/ (k = n /\ RSame(x, axis[n])))
  IN [k \in 1 .. n + 1 |-> Cardinality({j \in DOMAIN data : inBin(data[j], k)})]
=============================================================================
