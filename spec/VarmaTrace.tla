------------------------------ MODULE VarmaTrace ------------------------------
(* Logs of harness/varma_drv checked against Varma.                         *)
EXTENDS Varma, Trace
VARIABLES i
Close(a, b) == RClose(a, b, "1e-7")
Near(a, b) == RMNear(a, b, "1e-7", RMax(1, RMMax(b)))
\* rows whose size may grow: each compared at its own size
NearRows(a, b) == /\ Len(a) = Len(b)
                  /\ LET top == [q \in DOMAIN b |-> RMax("1e-3", RMMax(SubSeq(b, 1, q)))]
                     IN \A q \in DOMAIN b : Len(a[q]) = Len(b[q]) /\ (RIsFinite(top[q]) /\ RLt(top[q], "1e30") => \A j \in DOMAIN b[q] : RLe(RAbs(RSub(a[q][j], b[q][j])), RMul("1e-7", top[q])))
SameSizes(z, w) ==
  /\ z.ar = w.ar /\ z.ma = w.ma /\ z.diff = w.diff /\ z.armax = w.armax /\ z.mamax = w.mamax /\ z.lost = w.lost
  /\ z.pareq = w.pareq /\ z.params = w.params /\ z.mastart = w.mastart /\ z.sample = w.sample
  /\ z.degree = Len(w.diff) - 1 /\ z.counts = <<Len(w.ar), Len(w.ma)>>
  /\ z.has = <<w.ar # <<>>, w.ma # <<>>, Len(w.diff) > 1, w.ar # <<>> \/ w.mastart > 0>>
JudgeSizes(r) ==
  Must("memory respected", r.guard)
  \cup Must("validity", (r.error = "") = ValidOrders(r.o))
  \cup IF r.error # "" \/ ~ValidOrders(r.o) THEN {}
       ELSE LET w == Sizes(r.o, r.obs, r.g, r.x)
            IN Must("autoregressive lags", r.z.ar = w.ar) \cup Must("moving-average lags", r.z.ma = w.ma)
               \cup Must("differencing", r.z.diff = w.diff) \cup Must("sizes", SameSizes(r.z, w)) \cup Must("same when calculated again", r.same)

MatOf(v, g) == [a \in 1 .. g |-> [b \in 1 .. (Len(v) \div g) |-> v[((b - 1) * g) + a]]]   \* columns below each other
VecOf(B) == LET g == Len(B) IN [q \in 1 .. (g * Len(B[1])) |-> <<B[((q - 1) % g) + 1][((q - 1) \div g) + 1]>>]
Col1(v) == [q \in DOMAIN v |-> <<v[q]>>]
\* the restriction of the request: which parameters share an estimated one
FinalForm(z, g) == \* equation e's moving-average coefficient of lag block b: its own residual only, the same for all equations
  LET ar == z.mastart * g
      n == ar + Len(z.ma)
      eq(q) == ((q - 1) % g) + 1
      col(q) == ((q - 1) \div g) + 1       \* column of the coefficient
      mcol(q) == col(q) - z.mastart - 1
  IN [q \in 1 .. z.params |-> [j \in 1 .. n |->
        IF q <= ar THEN (IF q = j THEN 1 ELSE 0)
        ELSE IF (mcol(q) % g) + 1 = eq(q) /\ (mcol(q) \div g) + 1 + ar = j THEN 1 ELSE 0]]
ZeroForm(z, zeros) ==
  LET keep == SortedSeq({q \in 1 .. z.params : \A j \in DOMAIN zeros : zeros[j] + 1 # q})
  IN [q \in 1 .. z.params |-> [j \in DOMAIN keep |-> IF keep[j] = q THEN 1 ELSE 0]]
Norm1(A) == LET F[j \in 0 .. Len(A[1])] == IF j = 0 THEN 0 ELSE RMax(F[j - 1], RSum([q \in DOMAIN A |-> RAbs(A[q][j])])) IN F[Len(A[1])]
ConditionOf(ls) == RMul(Norm1(ls.XX), Norm1(ls.XXi))
JudgeEst(r) ==
  LET obs == Len(r.Y)
      z == Sizes(r.o, obs, r.g, r.x)
      g == r.g
      n == z.sample - r.se                       \* periods of the estimation sample
      Y == SubSeq(r.Y, 1, obs - r.se)
      X == r.X
      restricted == r.rest = "general" \/ (r.rest = "final" /\ g > 1 /\ z.ma # <<>>)
      R == IF r.rest = "general" THEN ZeroForm(z, r.zeros) ELSE FinalForm(z, g)
      pure == z.ma = <<>> /\ ~restricted       \* least squares
      B == IF r.coef # <<>> THEN r.coef ELSE MatOf(r.gamma, g)
      E == Residuals(z, B, Y, X)
      fin == \A q \in DOMAIN B : \A j \in DOMAIN B[q] : RIsFinite(B[q][j])
      sane == fin /\ RIsFinite(RMMax(E)) /\ RLt(RMMax(E), "1e12")
      ls == LeastSquares(z, Y, X)
      std == [a \in 1 .. g |-> [b \in 1 .. z.pareq |->
               LET q == ((b - 1) * g) + a
                   V == IF restricted THEN RSum([j \in DOMAIN r.gvar |-> RMul(R[q][j], r.gvar[j][j])]) ELSE r.gvar[q][q]
               IN RSqrt(V)]]
      NX == IF r.x = 0 THEN <<>> ELSE SubSeq(r.X, obs - r.se + 1, obs - r.se + r.H)
      table == Table(z, B, Y, X, r.resid, NX, r.H)
      var == [q \in 1 .. z.lost |-> Zeros(g)] \o Variances(z, B, g, r.sigma, r.H)
  IN Must("memory respected", r.guard) \cup Must("data not changed", r.kept)
     \cup IF n < 1 THEN Must("an error without a sample", r.error # "")
          ELSE IF r.error # "" THEN
               Must("no error", n <= (z.pareq * g) + g \/ z.ma # <<>> \/ (restricted) \/ ~RLt(ls.XX[1][1], "1e300"))
          ELSE IF n <= z.pareq + 1 THEN {}
          ELSE Must("restriction", restricted = r.restricted /\ (restricted => r.R = R))
               \cup Must("sizes", SameSizes(r.z, z))
               \cup Must("independent of earlier use", r.kind = "est" => r.fresh)
               \cup Must("sample", Near(r.y, Response(z, Y)))
               \cup (IF ~fin THEN {} ELSE
                    Must("coefficients of the parameters", Near(B, IF restricted THEN MatOf([q \in DOMAIN R |-> RDot(R[q], r.gamma)], g) ELSE MatOf(r.gamma, g)))
                    \cup Must("coefficients are kept", r.coef # <<>>)
                    \cup (IF ~sane THEN {} ELSE
                         Must("residuals", NearRows(r.resid, E))
                         \cup Must("covariance", Near(r.sigma, CovOf(r.resid)))))
               \cup (IF ~pure \/ ~RLt(r.cn, "1e9") THEN {} ELSE
                    Must("condition number", RClose(RDiv(r.cn, ConditionOf(ls)), 1, "1e-6")) \cup Must("least squares", Near(B, ls.B)) \cup Must("variance of the coefficients", Near(r.gvar, ls.gvar))
                    \cup (IF ~r.details THEN {} ELSE
                         IF r.se = 0 /\ n > z.pareq + g THEN Must("likelihood", Close(r.ll, LogL(r.sigma, g, n))) ELSE {}))
               \cup (IF ~r.details \/ ~fin THEN {} ELSE
                    Must("standard errors", \A a \in DOMAIN std : \A b \in DOMAIN std[a] : RSame(r.std[a][b], std[a][b]) \/ RClose(r.std[a][b], std[a][b], "1e-7"))
                    \cup Must("t ratios", \A a \in DOMAIN r.t : \A b \in DOMAIN r.t[a] : RIsNaN(r.t[a][b]) \/ RClose(r.t[a][b], RDiv(B[a][b], r.std[a][b]), "1e-7"))
                    \cup Must("probabilities", \A a \in DOMAIN r.t : \A b \in DOMAIN r.t[a] : RIsNaN(r.t[a][b]) \/ RClose(r.p[a][b], RMul(2, RSub(1, RTCdf(RAbs(r.t[a][b]), g * n))), "1e-7"))
                    \cup Must("AIC", r.se = 0 => Close(r.aic, RSub(2 * z.params, RMul(2, r.ll))))
                    \cup Must("SIC", r.se = 0 => Close(r.sic, RSub(RMul(z.params, RLog(n)), RMul(2, r.ll)))))
               \cup (IF ~sane THEN {}
                    ELSE IF r.ferror # "" THEN Must("no error in the forecast", n < z.lost)
                    ELSE IF r.H = 0 THEN {}
                    ELSE Must("moving-average representation", LET P == Psi(z, B, g, r.H) IN r.kind = "est" => Len(r.psi) = r.H /\ \A h \in DOMAIN P : RIsFinite(RMMax(P[h])) => Near(r.psi[h], P[h]))
                         \cup Must("start of the forecasts", r.start = z.lost)
                         \cup Must("history", SubSeq(r.fc, 1, z.lost) = SubSeq(table, 1, z.lost) \/ NearRows(SubSeq(r.fc, 1, z.lost), SubSeq(table, 1, z.lost)))
                         \cup Must("forecasts", NearRows(r.fc, table))
                         \cup Must("variances", r.fv # <<>> => NearRows(r.fv, var))
                         \cup Must("forecasts of fewer horizons", r.kind = "est" => r.fc2 = SubSeq(r.fc, 1, z.lost + r.h2) /\ (r.fv # <<>> => r.fv2 = SubSeq(r.fv, 1, z.lost + r.h2))))
\* incomplete rows at the ends are left out; an incomplete row between others is an error
JudgeExt(r) ==
  LET complete(t) == (\A j \in 1 .. r.g : ~RIsNaN(r.Y[t][j])) /\ (\A j \in 1 .. r.x : ~RIsNaN(r.X[t][j]))
      has(j, t) == IF j <= r.g THEN ~RIsNaN(r.Y[t][j]) ELSE ~RIsNaN(r.X[t][j - r.g])
      max(S) == CHOOSE a \in S : \A b \in S : b <= a
      min(S) == CHOOSE a \in S : \A b \in S : a <= b
      first == max({min({t \in DOMAIN r.Y : has(j, t)}) : j \in 1 .. (r.g + r.x)})
      last == min({max({t \in DOMAIN r.Y : has(j, t)}) : j \in 1 .. (r.g + r.x)})
      gap == \E t \in first .. last : ~complete(t)
      rows == Len(r.Y)
      short == r.x > 0 /\ r.H > 0 /\ rows < last + r.H - r.se
      s == [r EXCEPT !.Y = SubSeq(r.Y, first, last), !.X = IF r.x = 0 THEN <<>> ELSE SubSeq(r.X, first, rows)]
      z == Sizes(r.o, last - first + 1, r.g, r.x)
      pure == z.ma = <<>>
      cn == ConditionOf(LeastSquares(z, SubSeq(s.Y, 1, Len(s.Y) - r.se), s.X))
      over == pure /\ ~RSame(r.maxcn, 0) /\ RLt(r.maxcn, RMul(cn, "0.999999"))
      under == pure /\ (RSame(r.maxcn, 0) \/ RLt(RMul(cn, "1.000001"), r.maxcn)) /\ RLt(cn, "1e9")
      sized == z.sample - r.se > z.pareq + 1
  IN Must("memory respected", r.guard) \cup Must("data not changed", r.kept)
     \cup IF gap \/ short THEN Must("an error for incomplete data", r.error # "")
          ELSE IF ~sized THEN {}
          ELSE IF over THEN Must("an error for the condition number", r.error # "")
          ELSE IF r.error # "" THEN Must("no error", ~under \/ z.sample - r.se < z.lost)
          ELSE JudgeEst(s)
Judge(r) == CASE r.kind = "sizes" -> JudgeSizes(r)
              [] r.kind = "est" -> JudgeEst(r)
              [] r.kind = "ext" -> JudgeExt(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Judge(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
