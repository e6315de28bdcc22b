--------------------------------- MODULE Sur ---------------------------------
(* Systems of linear equations with the same explanatory variables.         *)
(* Y (N x m) and X (N x k) are sequences of rows; coefficients B are k x m; *)
(* vec stacks the equations.  Estimation is a small state machine: an       *)
(* unrestricted estimate, then restricted re-estimates whose weights are    *)
(* the residual covariances of the estimate before (one step for a given    *)
(* restriction; as many as needed or allowed for a significance search).    *)
EXTENDS Integers, Sequences, FiniteSets, FReal

RowsN(A) == Len(A)
ColsN(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
Col(A, j) == [q \in DOMAIN A |-> A[q][j]]
SubCols(A, from, to) == [q \in DOMAIN A |-> SubSeq(A[q], from, to)]
\* one column holding the columns of A below each other
Vec(A) == LET n == RowsN(A) IN [q \in 1 .. (n * ColsN(A)) |-> <<A[((q - 1) % n) + 1][((q - 1) \div n) + 1]>>]
\* the inverse of Vec: k rows
Unvec(v, k) == [q \in 1 .. k |-> [j \in 1 .. (Len(v) \div k) |-> v[((j - 1) * k) + q][1]]]
MSub(A, B) == RMAdd(A, RMScale(-1, B))
Eye(n) == [q \in 1 .. n |-> [j \in 1 .. n |-> IF q = j THEN 1 ELSE 0]]
\* columns of the identity: the coefficients (positions in vec) that are estimated
Selection(n, keep) == \* keep: increasing sequence
  [q \in 1 .. n |-> [j \in DOMAIN keep |-> IF keep[j] = q THEN 1 ELSE 0]]
Norm1(A) == LET F[j \in 0 .. ColsN(A)] == IF j = 0 THEN 0 ELSE RMax(F[j - 1], RSum([q \in DOMAIN A |-> RAbs(A[q][j])])) IN F[ColsN(A)]

Resid(Y, X, B) == MSub(Y, RMMul(X, B))
ResidCov(Y, X, B) == LET E == Resid(Y, X, B) IN RMScale(RDiv(1, RowsN(Y)), RMMul(RMTr(E), E))
Estimate(Y, X, R, gamma, gvar, cn) ==
  LET B == Unvec(RMMul(R, gamma), ColsN(X))
  IN [R |-> R, gamma |-> gamma, gvar |-> gvar, cn |-> cn, B |-> B, S |-> ResidCov(Y, X, B)]
\* ordinary least squares of every equation
Unrestricted(Y, X) ==
  LET XX == RMMul(RMTr(X), X)
      XXi == RMInv(XX)
      B == RMMul(XXi, RMMul(RMTr(X), Y))
      S == ResidCov(Y, X, B)
  IN [R |-> Eye(ColsN(X) * ColsN(Y)), gamma |-> Vec(B), gvar |-> RMKron(S, XXi), cn |-> RMul(Norm1(XX), Norm1(XXi)), B |-> B, S |-> S]
\* feasible generalized least squares with vec(B) = R gamma and the covariances S
Restricted(Y, X, R, S) ==
  LET W == RMInv(S)
      A == RMMul(RMMul(RMTr(R), RMKron(W, RMMul(RMTr(X), X))), R)
      V == RMInv(A)
      z == RMMul(RMTr(R), RMMul(RMKron(W, RMTr(X)), Vec(Y)))
  IN Estimate(Y, X, R, RMMul(V, z), V, RMul(Norm1(A), Norm1(V)))

\* standard errors, t ratios and probabilities, as k x m
Std(e, k) ==
  LET V == RMMul(RMMul(e.R, e.gvar), RMTr(e.R))
  IN Unvec([q \in DOMAIN V |-> <<RSqrt(V[q][q])>>], k)
TStat(e, k) == LET s == Std(e, k) IN [q \in DOMAIN s |-> [j \in DOMAIN s[q] |-> RDiv(e.B[q][j], s[q][j])]]
PValueOf(t, N) == IF RIsNaN(t) THEN "nan" ELSE RMul(2, RSub(1, RTCdf(RAbs(t), N)))
PValue(e, k, N) == LET t == TStat(e, k) IN [q \in DOMAIN t |-> [j \in DOMAIN t[q] |-> PValueOf(t[q][j], N)]]

\* significance search: [e, iter, error, close]; close: a probability is too near the bound to predict
SigStep(Y, X, e, prob) ==
  LET k == ColsN(X)
      p == Vec(PValue(e, k, RowsN(Y)))
      F[q \in 0 .. Len(p)] == IF q = 0 THEN <<>> ELSE IF ~RIsNaN(p[q][1]) /\ RLe(p[q][1], prob) THEN Append(F[q - 1], q) ELSE F[q - 1]
  IN [keep |-> F[Len(p)], close |-> \E q \in DOMAIN p : ~RIsNaN(p[q][1]) /\ RLt(RAbs(RSub(p[q][1], prob)), "1e-7")]
RECURSIVE SigRun(_, _, _, _, _, _, _, _)
SigRun(Y, X, e, iter, max, prob, cs, close) ==
  IF iter = max THEN [e |-> e, iter |-> iter, error |-> FALSE, close |-> close]
  ELSE LET st == SigStep(Y, X, e, prob)
           cl == close \/ st.close
       IN IF Len(st.keep) = cs THEN [e |-> e, iter |-> iter, error |-> FALSE, close |-> cl]
          ELSE IF st.keep = <<>> THEN [e |-> e, iter |-> iter, error |-> TRUE, close |-> cl]
          ELSE SigRun(Y, X, Restricted(Y, X, Selection(ColsN(X) * ColsN(Y), st.keep), e.S), iter + 1, max, prob, Len(st.keep), cl)
SigSearch(Y, X, max, prob) == SigRun(Y, X, Unrestricted(Y, X), 0, max, prob, ColsN(X) * ColsN(Y), FALSE)

\* measures
TwoPi == "6.283185307179586"
LogL(S, N) == LET m == Len(S) IN RSub(RMul("-0.5", RMul(N, RAdd(RMul(m, RLog(TwoPi)), RLog(RMDet(S))))), RMul("0.5", m * N))
Squares(A) == RSum([q \in DOMAIN A |-> RDot(A[q], A[q])])
R2(Y, E) ==
  LET m == ColsN(Y)
      mean == [j \in 1 .. m |-> RMean(Col(Y, j))]
      D == [q \in DOMAIN Y |-> [j \in 1 .. m |-> RSub(Y[q][j], mean[j])]]
  IN RSub(1, RDiv(Squares(E), Squares(D)))
\* number of coefficients: those of all equations, restricted or not
Aic(ll, km) == RSub(2 * km, RMul(2, ll))
Sic(ll, km, N) == RSub(RMul(RLog(N), km), RMul(2, ll))
Hqic(ll, km, N) == RSub(RMul(RMul(2, RLog(RLog(N))), km), RMul(2, ll))

\* projections at the rows of NX: means and variances
Project(e, NX) == RMMul(NX, e.B)
ProjectVar(e, NX) ==
  LET m == Len(e.S)
      k == ColsN(NX)
      V == RMMul(RMMul(e.R, e.gvar), RMTr(e.R))
      block(j) == [a \in 1 .. k |-> [b \in 1 .. k |-> V[((j - 1) * k) + a][((j - 1) * k) + b]]]
  IN [q \in DOMAIN NX |-> [j \in 1 .. m |-> RAdd(e.S[j][j], RMMul(RMMul(<<NX[q]>>, block(j)), RMTr(<<NX[q]>>))[1][1])]]
=============================================================================
