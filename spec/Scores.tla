-------------------------------- MODULE Scores --------------------------------
(* Scores of point and density forecasts and the metrics made of them.      *)
EXTENDS Integers, Sequences, FiniteSets, FReal, Metrics

BoxCoxInverse(v, l) == IF RIsNaN(l) THEN v ELSE IF RSame(l, 0) THEN RExp(v) ELSE RPow(RAdd(RMul(l, v), 1), RDiv(1, l))

\* score of a single forecast: last observation, actual value, forecast, standard deviation
Sgn(x) == IF RSame(x, 0) THEN 0 ELSE IF RLt(x, 0) THEN -1 ELSE 1
Score(m, last, act, forc, std) ==
  LET err == RSub(act, forc)
  IN CASE m = "sign" -> IF Sgn(act) = 0 \/ Sgn(forc) = 0 THEN "0.5" ELSE IF Sgn(act) = Sgn(forc) THEN 1 ELSE 0
       [] m = "direction" -> IF Sgn(RSub(act, last)) = Sgn(RSub(forc, last)) THEN 1 ELSE 0
       [] m = "mae" -> RAbs(err)
       [] m = "mape" -> RAbs(RDiv(err, act))
       [] m = "rmse" -> RSq(err)
       [] m = "rmspe" -> RSq(RDiv(err, act))
       [] m = "crps" -> CrpsNormal(err, 0, std)
\* the metric of the scores
Metric(m, scores) ==
  LET mean == RDiv(RSum(scores), Len(scores))
  IN CASE m = "rmse" -> RSqrt(mean)
       [] m = "rmspe" -> RMul(100, RSqrt(mean))
       [] m = "mape" -> RMul(100, mean)
       [] OTHER -> mean
=============================================================================
