------------------------- MODULE DiscreteChoiceTrace -------------------------
(* Estimates of harness/dc_drv checked against DiscreteChoice.  A witness,  *)
(* when the driver found one, is a point which may be the maximum: here it  *)
(* is used only after its derivatives were checked.                         *)
EXTENDS DiscreteChoice, Scoring, Trace
VARIABLES i

Finite(s) == \A q \in DOMAIN s : RIsFinite(s[q])
FiniteM(M) == \A q \in DOMAIN M : Finite(M[q])
Cut(r) == SubSeq(r.beta, Len(r.x[1]) + 1, Len(r.beta))
\* derivatives at a point of the sample, or nothing when they cannot be computed safely
Facts(r, b) ==
  LET k == Len(b)
      k0 == Len(r.x[1])
      P == [q \in DOMAIN r.y |-> Probability(r.dist, b, r.J, r.x[q], r.y[q])]
      safe == Finite(b) /\ Increasing(<<0>> \o SubSeq(b, k0 + 1, k)) /\ \A q \in DOMAIN r.y : RLt("1e-7", P[q]) /\ RLt("1e-7", RSub(1, P[q]))
  IN IF ~safe THEN [safe |-> FALSE]
     ELSE LET t == Terms(r.dist, b, r.J, r.x, r.y)
              g == Gradient(t, r.w, k)
              H == TLCEval(Information(t, r.w))
              V == RMInv(H)
              cn == RMul(Norm1(H), Norm1(V))
          IN [safe |-> RIsFinite(cn) /\ RLt(cn, "1e10"), g |-> g, H |-> H, V |-> V, cn |-> cn, gap |-> Decrement(g, V), ll |-> LogLikelihood(r.dist, b, r.J, r.x, r.y, r.w)]
Missing(r) == \E c \in 1 .. (r.J + 1) : RSame(Counts(r.J, r.y, r.w)[c], 0)
Regular(r) == Len(r.y) > 0 /\ ~Missing(r) /\ r.witness # <<>> /\ LET f == Facts(r, r.witness) IN f.safe /\ RLt(f.gap, "1e-7") /\ RLt(f.cn, "1e7")

\* the start of an ordered model may fail when the coefficients are large or a choice is rare
Mild(r) == /\ \A q \in DOMAIN r.x : RSame(r.x[q][1], 1)
           /\ \A q \in DOMAIN r.witness : RLt(RAbs(r.witness[q]), 3)
           /\ \A c \in 0 .. r.J : Cardinality({q \in DOMAIN r.y : r.y[q] = c}) >= 3

Common(r) == Must("memory respected", r.guard) \cup Must("data not changed", r.kept) \cup Must("repeated", r.repeated)
Distribution(p, J) == /\ Len(p) = J + 1
                      /\ \A c \in DOMAIN p : RLe(0, p[c]) /\ RLe(p[c], 1)
                      /\ RClose(RSum(p), 1, "1e-12")
\* probabilities of the rows `x'
JudgeProbs(r, x, p) ==
  LET ordered == Increasing(<<0>> \o Cut(r))
  IN Must("a row of probabilities for every observation", Len(p) = Len(x))
     \cup IF Len(p) # Len(x) \/ ~Finite(r.beta) \/ ~ordered THEN {}
          ELSE Must("a distribution", \A q \in DOMAIN p : Distribution(p[q], r.J))
               \cup Must("probabilities", \A q \in DOMAIN p : LET w == Probabilities(r.dist, r.beta, r.J, x[q]) IN \A c \in DOMAIN w : RLe(RAbs(RSub(w[c], p[q][c])), "1e-9"))
JudgeDetails(r, f) ==
  LET k == Len(r.beta)
      sd(q) == RSqrt(r.var[q][q])
  IN IF ~r.details THEN {}
     ELSE Must("standard errors", Len(r.std) = k /\ \A q \in 1 .. k : RClose(r.std[q], sd(q), "1e-9"))
          \cup Must("z statistics", \A q \in 1 .. k : RClose(RMul(r.z[q], r.std[q]), r.beta[q], "1e-9"))
          \cup Must("p-values", \A q \in 1 .. k : RLe(RAbs(RSub(r.prob[q], PValue(r.z[q]))), "1e-9"))
JudgeEstimate(r) ==
  LET k == Len(r.beta)
      k0 == Len(r.x[1])
      converged == r.it < r.itmax
      f == Facts(r, r.beta)
      regular == Regular(r)
  IN Must("shape", k = (k0 + r.J) - 1 /\ Len(r.var) = k /\ \A q \in 1 .. k : Len(r.var[q]) = k)
     \cup Must("counts", RCloseSeq(r.counts, Counts(r.J, r.y, r.w), "1e-12"))
     \cup Must("criteria", ~RIsFinite(r.logl) \/ (RClose(r.aic, Aic(r.logl, k), "1e-12") /\ RClose(r.sic, Sic(r.logl, k, Len(r.y)), "1e-12")))
     \cup Must("settled", (regular /\ (r.line \/ r.near) /\ r.itmax >= 100 /\ RLt(0, r.tolf)) => converged)
     \cup IF ~f.safe THEN Must("a maximum that exists is found", (regular /\ (r.line \/ r.near)) => ~converged)
          ELSE Must("log-likelihood", RClose(r.logl, f.ll, "1e-7"))
               \cup Must("the maximum", (converged /\ regular) => RLt(f.gap, IF RSame(r.tolf, 0) THEN RMul(RMul(r.tolg, r.tolg), RMul(2, Norm1(f.V))) ELSE "2e-5") \/ RLt(f.gap, "1e-9"))
               \cup Must("variance", LET E == RMMul(r.var, f.H) IN \A p \in 1 .. k : \A q \in 1 .. k : RLt(RAbs(RSub(E[p][q], IF p = q THEN 1 ELSE 0)), RMul("1e-6", RMax(1, RMul("1e-3", f.cn)))))
               \cup Must("condition number", r.J > 1 \/ RLt("1e8", f.cn) \/ RClose(r.cn, f.cn, "1e-5"))
               \cup JudgeDetails(r, f)
Refused(r) ==
  LET regular == Regular(r)
  IN Must("no error", ~(regular /\ r.line /\ r.prior /\ r.J = 1))
     \cup Must("no error (ordered)", ~(regular /\ r.line /\ r.prior /\ r.J > 1 /\ Mild(r)))
     \cup Must("no error (start)", ~(regular /\ (r.line \/ r.near) /\ ~r.prior))
\* Model.Calculate
JudgeModel(r) ==
  Common(r)
  \cup IF r.error # "" THEN Refused(r)
       ELSE Must("every choice is needed", ~Missing(r)) \cup JudgeEstimate(r) \cup JudgeProbs(r, r.x, r.p) \cup JudgeProbs(r, r.newx, r.np)
\* DiscreteChoiceExtended.Calculate: rows with missing data are left out, everything else is about the others
Rows(r) == [q \in DOMAIN r.y |-> <<r.y[q]>> \o (IF r.weighted THEN <<r.w[q]>> ELSE <<>>) \o r.x[q]]
Kept(r) == SelectSeq(r.all, LAMBDA row : \A q \in DOMAIN row : ~RIsNaN(row[q]))
RocOf(r, p) == [y |-> r.y, w |-> IF r.weval THEN r.w ELSE [q \in DOMAIN r.y |-> 1], scores |-> [q \in DOMAIN r.y |-> p[q][1]],
                eps |-> 0, pessimistic |-> r.pessimistic, hasCost |-> FALSE, lower |-> r.lower, upper |-> r.upper]
Brier(r, p) == LET w(q) == IF r.weval THEN r.w[q] ELSE 1
               IN RDiv(RSum([q \in DOMAIN r.y |-> RMul(w(q), RSq(RSub(r.y[q], p[q][2])))]), RSum([q \in DOMAIN r.y |-> w(q)]))
JudgeWhole(r) ==
  LET p == SubSeq(r.p, 1, Len(r.y))
      costs == [y |-> r.y, w |-> IF r.weval THEN r.w ELSE [q \in DOMAIN r.y |-> 1], p |-> p, tables |-> r.tables]
      edge == \E q \in DOMAIN p : \E t \in DOMAIN r.tables : \E b \in DOMAIN r.tables[t] : \E c \in {1, 2} : RClose(p[q][c], r.tables[t][b][1], "1e-9")
  IN Common(r)
     \cup Must("driver", Rows(r) = Kept(r))
     \cup IF r.error # "" THEN Refused(r)
          ELSE Must("every choice is needed", ~Missing(r)) \cup JudgeEstimate(r)
               \cup Must("used rows", r.usedy = r.y /\ r.usedx = r.x /\ (r.weighted => r.usedw = r.w))
               \cup JudgeProbs(r, r.newx, r.np)
               \cup IF ~r.details THEN {}
                    ELSE JudgeProbs(r, r.x, r.p)
                         \cup Must("Brier score", RIsFinite(r.brier) /\ (Len(p) < Len(r.y) \/ RClose(r.brier, Brier(r, p), "1e-9")))
                         \cup IF Len(p) < Len(r.y) \/ ~\A q \in DOMAIN p : Finite(p[q]) THEN {}
                              ELSE Must("AUC", LET c == RocOf(r, p) IN RClose(r.auc, IF IsPartial(c) THEN Area(Normalized(Curve(c)), r.lower, r.upper) ELSE PairAuc(c), "1e-9"))
                                   \cup Must("cost", r.tables = <<>> \/ edge \/ RClose(r.cost, AverageCost(costs), "1e-9"))
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == IF Log[i].kind = "model" THEN JudgeModel(Log[i]) ELSE JudgeWhole(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
