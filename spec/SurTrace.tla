------------------------------ MODULE SurTrace -------------------------------
(* Logs of harness/model_drv (sur) checked against Sur.                     *)
EXTENDS Sur, Trace
VARIABLES i
Tol == "1e-7"
Keep(s, P(_)) == LET F[q \in 0 .. Len(s)] == IF q = 0 THEN <<>> ELSE IF P(s[q]) THEN Append(F[q - 1], s[q]) ELSE F[q - 1] IN F[Len(s)]
Near(a, b) == RMNear(a, b, Tol, RMax(1, RMMax(b)))
Close(a, b) == RClose(a, b, Tol)
Judge(r) ==
  LET D == Keep(r.data, LAMBDA row : \A q \in DOMAIN row : ~RIsNaN(row[q]))
      Y == SubCols(D, 1, r.m)
      X == SubCols(D, r.m + 1, r.m + r.k)
      N == Len(D)
      km == r.k * r.m
      run == IF r.mode = "search" THEN SigSearch(Y, X, r.iters, r.prob)
             ELSE [e |-> IF r.restricted THEN Restricted(Y, X, r.R, Unrestricted(Y, X).S) ELSE Unrestricted(Y, X), iter |-> 0, error |-> FALSE, close |-> FALSE]
      e == run.e
      E == Resid(Y, X, r.beta)
      p == PValue(e, r.k, N)
  IN Must("memory respected", r.guard) \cup Must("data not changed", r.kept)
     \cup IF N <= r.k + r.m THEN {}
          ELSE IF run.close THEN {}                   \* a probability at the bound: which one is kept is rounding
          ELSE IF run.error THEN Must("an error when nothing is significant", r.error # "")
          ELSE IF r.error # "" THEN Must("no error", ~RLt(e.cn, "1e10"))
          ELSE IF ~RLt(e.cn, "1e8") THEN {}
          ELSE Must("coefficients", Near(r.beta, e.B))
               \cup Must("estimated parameters", Near(r.gamma, e.gamma))
               \cup Must("covariance of the parameters", Near(r.gvar, e.gvar))
               \cup Must("fitted values", Near(r.yhat, RMMul(X, r.beta)))
               \cup Must("residuals", Near(r.resid, E))
               \cup Must("residual covariance", Near(r.rvar, ResidCov(Y, X, r.beta)))
               \cup Must("likelihood", Close(r.ll, LogL(e.S, N)))
               \cup Must("condition number", Close(RDiv(r.cn, e.cn), 1))
               \cup Must("restriction used", r.restricted => r.used = e.R)
               \cup Must("iterations", r.mode = "search" => r.iter = run.iter)
               \cup Must("search stopped rightly", r.mode = "search" =>
                     (r.iter = r.iters \/ \A a \in DOMAIN r.p : \A b \in DOMAIN r.p[a] : RIsNaN(r.p[a][b]) \/ RLe(r.p[a][b], r.prob)))
               \cup Must("restricted coefficients are zero", r.mode \in {"zero", "search"} =>
                     LET v == Vec(r.beta) IN \A a \in DOMAIN v : (\A b \in DOMAIN r.used[a] : RSame(r.used[a][b], 0)) => RSame(v[a][1], 0))
               \cup IF ~r.details THEN {}
                    ELSE Must("standard errors", Near(r.std, Std(e, r.k)))
                         \cup Must("t ratios", LET t == TStat(e, r.k) IN \A a \in DOMAIN t : \A b \in DOMAIN t[a] : RClose(r.t[a][b], t[a][b], "1e-6"))
                         \cup Must("probabilities", \A a \in DOMAIN p : \A b \in DOMAIN p[a] : RClose(r.p[a][b], p[a][b], "1e-7"))
                         \cup Must("R2", Close(r.r2, R2(Y, E)))
                         \cup Must("F statistic with its degrees of freedom", LET f == RDiv(RDiv(r.r2, r.fd[1]), RDiv(RSub(1, r.r2), r.fd[2]))
                                   IN RClose(r.f, f, "1e-6") /\
                                      (IF RLt(f, 0) THEN RIsNaN(r.fp) ELSE RGt(r.fd[2], 0) => RClose(r.fp, RSub(1, RFCdf(f, r.fd[1], r.fd[2])), "1e-6")))
                         \cup Must("AIC", Close(r.aic, Aic(r.ll, km)))
                         \cup Must("SIC", Close(r.sic, Sic(r.ll, km, N)))
                         \cup Must("HQIC", Close(r.hqic, Hqic(r.ll, km, N)))
               \cup IF r.newx = <<>> THEN {}
                    ELSE Must("projections", Near(r.means, Project(e, r.newx)))
                         \cup Must("variances of projections", r.variance => Near(r.vars, ProjectVar(e, r.newx)))
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Judge(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
