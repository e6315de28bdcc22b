---------------------------- MODULE VarmaEvalTrace ----------------------------
(* Evaluations of harness/varma_drv (mode sim) checked against VarmaEval.   *)
(* Every date comes with the forecasts of an individual estimate which was  *)
(* given only the observations until the date.                              *)
EXTENDS VarmaEval, Trace
VARIABLES i
Has(d, S) == \E k \in DOMAIN d : k \in S
JudgeSim(r) ==
  LET N == Len(r.Y)
      good(d) == d.ok /\ RLt(d.cn, r.maxcn)
      date(se) == r.dates[CHOOSE k \in DOMAIN r.dates : r.dates[k].se = se]
      ok == {r.dates[k].se : k \in {j \in DOMAIN r.dates : good(r.dates[j])}}
      sane == \A k \in DOMAIN r.dates : r.dates[k].ok => RIsFinite(r.dates[k].cn) /\ RLt(r.dates[k].cn, "1e9")
      P == Pairs(ok, r.hs)
      order == LET F[k \in 0 .. (r.count * 10)] == IF k = 0 THEN <<>>
                     ELSE LET p == <<r.count - ((k - 1) \div 10), ((k - 1) % 10) + 1>> IN IF p \in P THEN Append(F[k - 1], p) ELSE F[k - 1]
               IN F[r.count * 10]
      inv(v, j) == IF r.box THEN BoxCoxInverse(v, r.lambdas[j]) ELSE v
      last(p, j) == inv(r.Y[N - p[1]][j], j)
      act(p, j) == inv(r.Y[(N - p[1]) + p[2]][j], j)
      forc(p, j) == inv(date(p[1]).fc[p[2]][j], j)
      std(p, j) == RSqrt(date(p[1]).fv[p[2]][j])
      scores(m, j) == [k \in DOMAIN order |-> Score(m, last(order[k], j), act(order[k], j), forc(order[k], j), std(order[k], j))]
      \* not claimed: percentages of values which are not positive, variances of transformed variables, forecasts with no inverse
      claimed(m, j) == /\ m \in {"mape", "rmspe"} => \A k \in DOMAIN order : RLt(0, act(order[k], j))
                       /\ m = "crps" => (~r.box \/ RIsNaN(r.lambdas[j]))
                       /\ \A k \in DOMAIN order : RIsFinite(forc(order[k], j)) /\ RLt(RAbs(forc(order[k], j)), "1e9")
      expected(m, j) == Metric(m, scores(m, j))
      detail(d) == LET p == <<d.se, d.h>> IN
        /\ p \in P /\ d.v \in 1 .. r.g /\ d.m \in DOMAIN r.metrics
        /\ RClose(d.last, last(p, d.v), "1e-9") /\ RClose(d.act, act(p, d.v), "1e-9")
        /\ (RIsFinite(forc(p, d.v)) /\ RLt(RAbs(forc(p, d.v)), "1e9")) => RClose(d.forc, forc(p, d.v), "1e-6") /\ RClose(d.err, RSub(act(p, d.v), forc(p, d.v)), "1e-6")
        /\ (Has(r.metrics, {k \in DOMAIN r.metrics : r.metrics[k] = "crps"}) /\ (~r.box \/ RIsNaN(r.lambdas[d.v]))) => RClose(d.std, std(p, d.v), "1e-6")
  IN Must("memory respected", r.guard) \cup Must("data not changed", r.kept)
     \cup IF r.sample <= r.count + 1 \/ ~sane THEN {}
          ELSE IF ~r.ext /\ Rejected(r.count, r.hs, ok, r.maxinv) THEN Must("an error without enough evaluations", r.error # "")
          ELSE IF r.error # "" THEN {"no error"}
          ELSE Must("valid dates", r.valid = Cardinality(ok))
               \cup Must("failed dates", r.ext => r.fails = Fails(r.count, r.hs, ok))
               \cup (IF P = {} THEN {} ELSE
                    Must("shape", Len(r.agg) = Len(r.metrics) /\ \A k \in DOMAIN r.agg : Len(r.agg[k]) = r.g)
                    \cup UNION {UNION {IF claimed(r.metrics[k], j) THEN Must("average:" \o r.metrics[k], RClose(r.agg[k][j], expected(r.metrics[k], j), "1e-6")) ELSE {} : j \in 1 .. r.g} : k \in DOMAIN r.metrics})
               \cup (IF ~r.ext THEN {} ELSE
                    Must("every forecast once", /\ Len(r.details) = Cardinality(P) * r.g * Len(r.metrics)
                                                /\ {<<r.details[k].se, r.details[k].h, r.details[k].v, r.details[k].m>> : k \in DOMAIN r.details} = {<<p[1], p[2], j, m>> : p \in P, j \in 1 .. r.g, m \in DOMAIN r.metrics})
                    \cup Must("details", \A k \in DOMAIN r.details : detail(r.details[k])))
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == JudgeSim(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
