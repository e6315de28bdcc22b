------------------------------- MODULE Metrics -------------------------------
(* Metrics a search can use: names, directions, weights.                    *)
EXTENDS Integers, Sequences, FiniteSets, FReal

InNames == {"aic", "sic", "brierIn", "aucIn", "frequencyCostIn"}
OutNames == {"sign", "direction", "mae", "mape", "rmse", "rmspe", "crps", "aucOut", "frequencyCostOut", "brierOut"}
AllNames == {"in:aic", "in:sic", "in:brierIn", "in:aucIn", "in:frequencyCostIn",
             "out:sign", "out:direction", "out:mae", "out:mape", "out:rmse", "out:rmspe", "out:crps",
             "out:aucOut", "out:frequencyCostOut", "out:brierOut"}

\* shares of right answers: the greater the better, and a weight as they are
Share == {"in:aucIn", "out:aucOut", "out:sign", "out:direction"}
\* average costs in [0, 1]
Costs == {"in:frequencyCostIn", "out:frequencyCostOut"}
\* in percents
Percent == {"out:mape", "out:rmspe"}
Positive(name) == name \in Share
\* the weight of value x; mn is the reference minimum of the target
Weight(name, x, mn) ==
  IF name \in Share THEN x
  ELSE IF name \in Costs THEN RSub(1, x)
  ELSE IF name \in Percent THEN RExp(RDiv(RMul("-0.5", RSub(x, mn)), 100))
  ELSE RExp(RMul("-0.5", RSub(x, mn)))
FromWeight(name, w, mn) ==
  IF name \in Share THEN w
  ELSE IF name \in Costs THEN RSub(1, w)
  ELSE IF name \in Percent THEN RAdd(RMul(-200, RLog(w)), mn)
  ELSE RAdd(RMul(-2, RLog(w)), mn)
\* x is better than y
Better(name, x, y) == IF Positive(name) THEN RLt(y, x) ELSE RLt(x, y)
\* the score needs the whole predictive distribution
NeedsVariance == {"out:crps"}

\* continuous ranked probability scores
Phi(z) == RNormCdf(z)
SqrtPi == RSqrt("3.141592653589793")
CrpsNormal(y, m, s) ==
  LET d == RSub(y, m)
      z == RDiv(d, s)
  IN IF RSame(s, 0) THEN RAbs(d)
     ELSE RAdd(RMul(d, RSub(RMul(2, Phi(z)), 1)),
               RDiv(RMul(s, RSub(RMul(RSqrt(2), RExp(RMul("-0.5", RSq(z)))), 1)), SqrtPi))
CrpsLogNormal(y, m, s) ==
  LET F(mm) == Phi(RDiv(RSub(RLog(y), mm), s))
      e == RExp(RAdd(m, RMul("0.5", RSq(s))))
  IN RSub(RMul(y, RSub(RMul(2, F(m)), 1)),
          RMul(RMul(2, e), RSub(RAdd(F(RAdd(m, RSq(s))), Phi(RDiv(s, RSqrt(2)))), 1)))
=============================================================================
