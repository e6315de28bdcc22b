-------------------------------- MODULE Varma --------------------------------
(* Vector (seasonal) autoregressive moving-average models.                  *)
(* Data are sequences of rows (one per period).  A model of orders          *)
(* (p,d,q)(P,D,Q)s has additive lags: 1..p and s,2s,..,Ps (and likewise for *)
(* the moving average), and is written for the differenced series           *)
(*   w = (1-L)^d (1-L^s)^D y:   w_t = B [w_{t-l}.. ; x_t ; e_{t-l}..] + e_t *)
(* B has a row for each equation; its columns are the lags of all           *)
(* equations (smallest lag first), exogenous variables, and the lagged      *)
(* residuals.  Residuals before the sample and after it are zero.           *)
EXTENDS Integers, Sequences, FiniteSets, FReal

SortedSeq(S) == LET F[k \in 0 .. Cardinality(S)] == IF k = 0 THEN <<>> ELSE
                      Append(F[k - 1], CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1)
                IN F[Cardinality(S)]
\* 's' smaller than 2 means not seasonal
Lags(p, P, s) == SortedSeq((1 .. p) \cup {s * j : j \in 1 .. P})
MaxLag(l) == IF l = <<>> THEN 0 ELSE l[Len(l)]
\* integer polynomials: the coefficient of L^k is element k + 1
PMul(a, b) == [k \in 1 .. (Len(a) + Len(b) - 1) |->
                LET F[j \in 0 .. Len(a)] == IF j = 0 THEN 0 ELSE F[j - 1] + (IF k - j + 1 \in 1 .. Len(b) THEN a[j] * b[k - j + 1] ELSE 0) IN F[Len(a)]]
PPow(a, n) == LET F[k \in 0 .. n] == IF k = 0 THEN <<1>> ELSE PMul(F[k - 1], a) IN F[n]
DiffPoly(d, D, s) == PMul(PPow(<<1, -1>>, d), IF D = 0 THEN <<1>> ELSE PPow([k \in 1 .. (s + 1) |-> IF k = 1 THEN 1 ELSE IF k = s + 1 THEN -1 ELSE 0], D))

ValidOrders(o) == LET s == IF o.s < 2 THEN 0 ELSE o.s
                  IN /\ \A x \in {o.p, o.d, o.q, o.P, o.D, o.Q} : x >= 0
                     /\ s = 0 => o.P = 0 /\ o.D = 0 /\ o.Q = 0
                     /\ o.p + o.q + o.P + o.Q > 0
Sizes(o, obs, g, x) ==
  LET ar == Lags(o.p, o.P, o.s)
      ma == Lags(o.q, o.Q, o.s)
      diff == DiffPoly(o.d, o.D, o.s)
      k == (Len(ar) + Len(ma)) * g + x
  IN [g |-> g, ar |-> ar, ma |-> ma, diff |-> diff, armax |-> MaxLag(ar), mamax |-> MaxLag(ma), lost |-> MaxLag(ar) + Len(diff) - 1,
      pareq |-> k, params |-> k * g, mastart |-> (Len(ar) * g) + x, sample |-> obs - (MaxLag(ar) + Len(diff) - 1)]

Zeros(g) == [j \in 1 .. g |-> 0]
RowAdd(a, b) == [j \in DOMAIN a |-> RAdd(a[j], b[j])]
RowSub(a, b) == [j \in DOMAIN a |-> RSub(a[j], b[j])]
RowScale(x, a) == [j \in DOMAIN a |-> RMul(x, a[j])]
\* sum of terms F[1] .. F[n], a sequence of rows of length g
SumRows(rows, g) == LET F[k \in 0 .. Len(rows)] == IF k = 0 THEN Zeros(g) ELSE RowAdd(F[k - 1], rows[k]) IN F[Len(rows)]
Difference(poly, Y) ==
  LET n == Len(poly) - 1
  IN [t \in 1 .. (Len(Y) - n) |-> SumRows([k \in 1 .. Len(poly) |-> RowScale(poly[k], Y[t + n - k + 1])], Len(Y[1]))]
\* the level of period t from w_t and the levels before it (a sequence ending at t - 1)
Undo(poly, w, before) == RowSub(w, SumRows([k \in 1 .. (Len(poly) - 1) |-> RowScale(poly[k + 1], before[Len(before) - k + 1])], Len(w)))

Flat(ss) == LET F[k \in 0 .. Len(ss)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o ss[k] IN F[Len(ss)]
\* explanatory values of a period from the series W before it, its exogenous values and the residuals E before it
\* (E has a row for each period of the sample; those not there are zero)
Regressor(z, W, x, E) ==
  Flat([k \in DOMAIN z.ar |-> W[Len(W) - z.ar[k] + 1]]) \o x
  \o Flat([k \in DOMAIN z.ma |-> IF Len(E) - z.ma[k] + 1 >= 1 THEN E[Len(E) - z.ma[k] + 1] ELSE Zeros(z.g)])
Apply(B, v) == [j \in DOMAIN B |-> RDot(B[j], v)]
XRow(X, t) == IF X = <<>> THEN <<>> ELSE X[t]

\* residuals of the sample: row t belongs to period t + lost of the data
Residuals(z, B, Y, X) ==
  LET W == Difference(z.diff, Y)
      n == Len(W) - z.armax
      F[t \in 0 .. n] ==
        IF t = 0 THEN <<>>
        ELSE LET E == F[t - 1]
             IN Append(E, RowSub(W[t + z.armax], Apply(B, Regressor(z, SubSeq(W, 1, t + z.armax - 1), XRow(X, t + z.lost), E))))
  IN F[n]
\* design of a model without moving average
Design(z, Y, X) ==
  LET W == Difference(z.diff, Y)
  IN [t \in 1 .. (Len(W) - z.armax) |-> Regressor(z, SubSeq(W, 1, t + z.armax - 1), XRow(X, t + z.lost), <<>>)]
Response(z, Y) == LET W == Difference(z.diff, Y) IN [t \in 1 .. (Len(W) - z.armax) |-> W[t + z.armax]]
CovOf(E) == RMScale(RDiv(1, Len(E)), RMMul(RMTr(E), E))
LeastSquares(z, Y, X) ==
  LET D == Design(z, Y, X)
      XX == RMMul(RMTr(D), D)
      XXi == RMInv(XX)
      B == RMMul(RMMul(RMTr(Response(z, Y)), D), XXi)
      S == CovOf(RMAdd(Response(z, Y), RMScale(-1, RMMul(D, RMTr(B)))))
  IN [B |-> B, S |-> S, gvar |-> RMKron(XXi, S), XX |-> XX, XXi |-> XXi]

\* forecasts of H periods: levels; NX has the exogenous values of those periods
Forecast(z, B, Y, X, E, NX, H) ==
  LET F[h \in 0 .. H] ==
        IF h = 0 THEN [W |-> Difference(z.diff, Y), Y |-> Y, E |-> E]
        ELSE LET s == F[h - 1]
                 w == Apply(B, Regressor(z, s.W, XRow(NX, h), s.E))
             IN [W |-> Append(s.W, w), Y |-> Append(s.Y, Undo(z.diff, w, s.Y)), E |-> Append(s.E, Zeros(Len(w)))]
  IN SubSeq(F[H].Y, Len(Y) + 1, Len(Y) + H)
\* the table starts with the last observations
Table(z, B, Y, X, E, NX, H) == SubSeq(Y, Len(Y) - z.lost + 1, Len(Y)) \o Forecast(z, B, Y, X, E, NX, H)

\* moving-average representation of the levels and variances of forecasts
Ident(g) == [a \in 1 .. g |-> [b \in 1 .. g |-> IF a = b THEN 1 ELSE 0]]
ZeroM(g) == [a \in 1 .. g |-> Zeros(g)]
Block(B, g, from) == [a \in 1 .. g |-> SubSeq(B[a], from, from + g - 1)]
LagBlock(lags, B, g, k, start) == \* coefficients of lag k
  IF k = 0 THEN Ident(g)
  ELSE IF \E q \in DOMAIN lags : lags[q] = k THEN Block(B, g, start + ((CHOOSE q \in DOMAIN lags : lags[q] = k) - 1) * g)
  ELSE ZeroM(g)
Psi(z, B, g, n) == \* the first n matrices
  LET arp(k) == IF k = 0 THEN Ident(g) ELSE RMScale(-1, LagBlock(z.ar, B, g, k, 1))
      C == [k \in 0 .. z.lost |->
             LET F[j \in 0 .. Len(z.diff)] == IF j = 0 THEN ZeroM(g)
                   ELSE IF z.diff[j] # 0 /\ (k - j + 1) \in 0 .. z.armax THEN RMAdd(F[j - 1], RMScale(z.diff[j], arp(k - j + 1))) ELSE F[j - 1]
             IN F[Len(z.diff)]]
      F[j \in 0 .. n] ==
        IF j = 0 THEN <<>>
        ELSE LET P == F[j - 1]        \* P[1] is the matrix of lag 0
                 G[k \in 0 .. (j - 1)] == IF k = 0 THEN LagBlock(z.ma, B, g, j - 1, z.mastart + 1)
                                          ELSE IF k > z.lost THEN G[k - 1] ELSE RMAdd(G[k - 1], RMScale(-1, RMMul(C[k], P[j - k])))
             IN Append(P, G[j - 1])
  IN F[n]
Variances(z, B, g, S, H) ==
  LET P == Psi(z, B, g, H)
      F[h \in 0 .. H] == IF h = 0 THEN <<>>
        ELSE LET V == RMMul(RMMul(P[h], S), RMTr(P[h]))
                 v == [a \in 1 .. g |-> V[a][a]]
                 before == F[h - 1]
             IN Append(before, IF h = 1 THEN v ELSE RowAdd(before[h - 1], v))
  IN F[H]

TwoPi == "6.283185307179586"
LogL(S, g, n) == RMul("-0.5", RAdd(RMul(n * g, RAdd(1, RLog(TwoPi))), RMul(n, RLog(RMDet(S)))))
=============================================================================
