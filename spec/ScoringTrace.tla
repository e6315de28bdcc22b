---------------------------- MODULE ScoringTrace ----------------------------
(* Logs of harness/score_drv checked against Scoring.                       *)
EXTENDS Scoring, Trace
VARIABLES i

Roc(r) ==
  IF BadBounds(r) \/ BadCosts(r) THEN Must("invalid options are rejected", r.error)
  ELSE IF r.error THEN {"no error"}
  ELSE IF Degenerate(r) THEN {}
  ELSE LET c == Curve(r)
           n == Normalized(c)
       IN Must("auc", RClose(r.auc, IF IsPartial(r) THEN Area(n, r.lower, r.upper) ELSE PairAuc(r), "1e-9"))
          \cup Must("the same again", RSame(r.auc, r.auc1))
          \cup Must("points", SameCurve(r.points, IF r.normalize \/ IsPartial(r) THEN n ELSE c))
          \cup Must("monotone", Monotone(r.points))
          \cup Must("area and pairs agree", RClose(Area(n, 0, 1), PairAuc(r), "1e-9"))
CostOf(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE Must("sums of costs", \A t \in DOMAIN r.tables : RClose(r.sums[t], CostSum(r, t), "1e-10"))
       \cup Must("sums of weights", \A t \in DOMAIN r.tables : RClose(r.counts[t], WeightSum(r), "1e-10"))
       \cup Must("average", RClose(r.average, AverageCost(r), "1e-10"))
       \cup Must("inside the storage", r.inside)
Check(r) == Must("exactly the invalid tables are rejected", r.rejected = ~ValidTable(r.th, r.cols, r.k) /\ r.rejected2 = r.rejected)
Fails(r) == CASE r.kind = "roc" -> Roc(r) [] r.kind = "cost" -> CostOf(r) [] r.kind = "check" -> Check(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
