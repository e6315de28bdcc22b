---------------------------- MODULE DiscreteChoice ----------------------------
(* Binary and ordered choice.  A latent value x'b + u is cut at 0 and at the *)
(* thresholds that are estimated; the choice is the interval.  u is logistic *)
(* or normal.  The parameters are the coefficients followed by the           *)
(* thresholds, so that the binary model is the case without thresholds.      *)
EXTENDS Integers, Sequences, FiniteSets, FReal, TLC

\* distribution, density and derivative of the density of u
F(dist, z) == IF dist = "probit" THEN RNormCdf(z) ELSE RDiv(1, RAdd(1, RExp(RNeg(z))))
Density(dist, z) == IF dist = "probit" THEN RDiv(RExp(RDiv(RNeg(RSq(z)), 2)), "2.5066282746310002") ELSE RMul(F(dist, z), F(dist, RNeg(z)))
Slope(dist, z) == IF dist = "probit" THEN RNeg(RMul(z, Density(dist, z))) ELSE RMul(Density(dist, z), RSub(F(dist, RNeg(z)), F(dist, z)))
\* probability of an interval, from the tail that is exact
Interval(dist, b, a) == IF RIsFinite(b) /\ RLt(0, b) THEN RSub(F(dist, RNeg(b)), IF RIsFinite(a) THEN F(dist, RNeg(a)) ELSE 0)
                        ELSE RSub(IF RIsFinite(a) THEN F(dist, a) ELSE 1, IF RIsFinite(b) THEN F(dist, b) ELSE 0)

\* k0 coefficients, choices 0 .. J; upper and lower bound of u for a choice
Upper(beta, k0, J, xb, y) == IF y = J THEN "inf" ELSE IF y = 0 THEN RNeg(xb) ELSE RSub(beta[k0 + y], xb)
Lower(beta, k0, J, xb, y) == IF y = 0 THEN "-inf" ELSE IF y = 1 THEN RNeg(xb) ELSE RSub(beta[(k0 + y) - 1], xb)
Latent(x, beta) == RDot(x, SubSeq(beta, 1, Len(x)))
Probability(dist, beta, J, x, y) == LET xb == Latent(x, beta) IN Interval(dist, Lower(beta, Len(x), J, xb, y), Upper(beta, Len(x), J, xb, y))
Probabilities(dist, beta, J, x) == [c \in 1 .. (J + 1) |-> Probability(dist, beta, J, x, c - 1)]
\* derivatives of the bounds with respect to the parameters
DUpper(k0, k, J, x, y) == [q \in 1 .. k |-> IF y = J THEN 0 ELSE IF q <= k0 THEN RNeg(x[q]) ELSE IF q = k0 + y THEN 1 ELSE 0]
DLower(k0, k, J, x, y) == [q \in 1 .. k |-> IF y = 0 THEN 0 ELSE IF q <= k0 THEN RNeg(x[q]) ELSE IF q = (k0 + y) - 1 THEN 1 ELSE 0]

\* log-likelihood, its gradient and minus its second derivatives, at beta
LogLikelihood(dist, beta, J, X, y, w) == RSum([i \in DOMAIN y |-> RMul(w[i], RLog(Probability(dist, beta, J, X[i], y[i])))])
Terms(dist, beta, J, X, y) ==
  TLCEval([i \in DOMAIN y |->
    LET k0 == Len(X[i])
        xb == Latent(X[i], beta)
        a == Upper(beta, k0, J, xb, y[i])
        b == Lower(beta, k0, J, xb, y[i])
        P == Interval(dist, b, a)
        at(f(_, _), z) == IF RIsFinite(z) THEN RDiv(f(dist, z), P) ELSE 0
        da == DUpper(k0, Len(beta), J, X[i], y[i])
        db == DLower(k0, Len(beta), J, X[i], y[i])
    IN [g |-> [q \in DOMAIN beta |-> RSub(RMul(at(Density, a), da[q]), RMul(at(Density, b), db[q]))],
        da |-> da, db |-> db, fa |-> at(Slope, a), fb |-> at(Slope, b)]])
Gradient(t, w, k) == TLCEval([q \in 1 .. k |-> RSum([i \in DOMAIN w |-> RMul(w[i], t[i].g[q])])])
\* the cross product of rows, each with a weight
Cross(rows, v) == RMMul(RMTr(rows), [i \in DOMAIN v |-> [q \in DOMAIN rows[i] |-> RMul(v[i], rows[i][q])]])
Information(t, w) ==
  LET g == [i \in DOMAIN w |-> t[i].g]
      a == [i \in DOMAIN w |-> t[i].da]
      b == [i \in DOMAIN w |-> t[i].db]
  IN RMAdd(Cross(g, w), RMAdd(RMScale(-1, Cross(a, [i \in DOMAIN w |-> RMul(w[i], t[i].fa)])), Cross(b, [i \in DOMAIN w |-> RMul(w[i], t[i].fb)])))
\* how far the log-likelihood is from its maximum, twice, according to its derivatives
Decrement(g, V) == RDot(g, [q \in DOMAIN g |-> RDot(V[q], g)])

Norm1(M) == LET c == [q \in DOMAIN M |-> RSum([p \in DOMAIN M |-> RAbs(M[p][q])])] IN RSort(c)[Len(c)]
Counts(J, y, w) == [c \in 1 .. (J + 1) |-> RSum([i \in DOMAIN y |-> IF y[i] = c - 1 THEN w[i] ELSE 0])]
Aic(ll, k) == RSub(RMul(2, k), RMul(2, ll))
Sic(ll, k, n) == RSub(RMul(RLog(n), k), RMul(2, ll))
PValue(z) == RMul(2, RNormCdf(RNeg(RAbs(z))))
Increasing(s) == \A k \in 2 .. Len(s) : RLt(s[k - 1], s[k])
=============================================================================
