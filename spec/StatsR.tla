------------------------------- MODULE StatsR --------------------------------
(* What the statistics functions of the R package promise: the definitions of *)
(* Metrics, Scoring, Pca, Stats, Cluster and Moments, and the generalised     *)
(* lambda distribution, whose moments are integrals of its quantile function. *)
EXTENDS Integers, Sequences, FiniteSets, FReal, TLC
M == INSTANCE Metrics
A == INSTANCE Scoring
P == INSTANCE Pca
D == INSTANCE Stats
C == INSTANCE Cluster
B == INSTANCE Moments

\* ---- distances of the columns j < k
MethodName(m) == CASE m = "correlation" -> "pearson" [] m = "correlation:spearman" -> "spearman" [] m = "absCorrelation" -> "abspearson" [] m = "absCorrelation:spearman" -> "absspearman" [] OTHER -> m
Pairs(m) == [q \in 1 .. ((m * (m - 1)) \div 2) |-> CHOOSE p \in (0 .. (m - 1)) \X (0 .. (m - 1)) : p[1] < p[2] /\ C!PairPos(m, p[1], p[2]) = q]
Common(s, t) == LET idx == D!Common(s, t) IN <<D!At(s, idx), D!At(t, idx)>>

\* ---- a tree in R's form as a tree of Cluster: row k becomes node n + k - 1
NodeOf(n, v) == IF v < 0 THEN (-v) - 1 ELSE (n - 1) + v
Nodes(n, merge, heights) == [k \in DOMAIN merge |-> <<(n + k) - 1, NodeOf(n, merge[k][1]), NodeOf(n, merge[k][2]), heights[k], 0>>]
LinkName(l) == CASE l = "uAverage" -> "upgma" [] l = "wAverage" -> "wpgma" [] OTHER -> l
Earlier(merge) == \A k \in DOMAIN merge : merge[k][1] < k /\ merge[k][2] < k /\ merge[k][1] # 0 /\ merge[k][2] # 0

\* ---- generalised lambda distribution (FKML).  u and 1-u are given apart.
Power(u, l) == IF RSame(l, 0) THEN RLog(u) ELSE RDiv(RSub(RPow(u, l), 1), l)
Shape(u, v, a, b) == RSub(Power(u, a), Power(v, b))
Quantile(p, L) == RAdd(L[1], RDiv(Shape(p, RSub(1, p), L[3], L[4]), L[2]))
\* density at the quantile: the reciprocal of the derivative of the quantile function
Density(p, L) == RDiv(L[2], RAdd(RPow(p, RSub(L[3], 1)), RPow(RSub(1, p), RSub(L[4], 1))))
\* integrals over (0, 1): the trapezoidal rule after u = 1/(1 + exp(-pi sinh t))
NT == 90
Step == "0.05"
Exp2(t) == <<RExp(t), RExp(RNeg(t))>>
Knot == TLCEval([q \in 1 .. ((2 * NT) + 1) |->
  LET t == RMul(Step, q - (NT + 1))
      e == Exp2(t)
      s == RMul("3.141592653589793", RDiv(RSub(e[1], e[2]), 2))
      c == RDiv(RAdd(e[1], e[2]), 2)
      f == Exp2(RNeg(s))
      u == RDiv(1, RAdd(1, f[1]))
      v == RDiv(1, RAdd(1, f[2]))
  IN <<u, v, RMul(Step, RMul("3.141592653589793", RMul(c, RMul(u, v))))>>])
\* the centred moments of the unscaled distribution, of the order 1 (not centred), 2, 3, 4
ShapeMoments(a, b) ==
  LET z == TLCEval([q \in DOMAIN Knot |-> Shape(Knot[q][1], Knot[q][2], a, b)])
      m == TLCEval(RSum([q \in DOMAIN Knot |-> RMul(Knot[q][3], z[q])]))
      d == TLCEval([q \in DOMAIN Knot |-> RSub(z[q], m)])
      w(k) == TLCEval(RSum([q \in DOMAIN Knot |-> RMul(Knot[q][3], IF k = 2 THEN RSq(d[q]) ELSE IF k = 3 THEN RMul(d[q], RSq(d[q])) ELSE RSq(RSq(d[q])))]))
  IN <<m, w(2), w(3), w(4)>>
Skewness(s) == RDiv(s[3], RPow(s[2], "1.5"))
Excess(s) == RSub(RDiv(s[4], RSq(s[2])), 3)
\* distance to the required shape
Miss(s, skew, kurt) == RAdd(RSq(RSub(Skewness(s), skew)), RSq(RSub(Excess(s), kurt)))
\* the documented restrictions
Symmetric == {1, 3, 5, 7, 10}
Restriction(type, a, b) ==
  LET eps == "1e-12"
      lt(x, y) == RLt(x, RAdd(y, eps))
      gt(x, y) == RGt(x, RSub(y, eps))
  IN /\ gt(a, "-0.25") /\ gt(b, "-0.25")          \* the moments exist
     /\ type \in Symmetric => RSame(a, b)
     /\ type \in {2, 3} => lt(a, 1) /\ lt(b, 1)
     /\ type \in {4, 5} => lt(a, "0.5") /\ lt(b, "0.5")
     /\ type \in {6, 7} => gt(a, 2) /\ gt(b, 2)
     /\ type = 8 => (gt(a, 2) /\ gt(b, 1) /\ lt(b, 2)) \/ (gt(b, 2) /\ gt(a, 1) /\ lt(a, 2))
     /\ type \in {9, 10} => gt(a, 1) /\ gt(b, 1) /\ lt(a, 2) /\ lt(b, 2)
     /\ type = 11 => gt(a, 1) /\ lt(b, 1)
=============================================================================
