------------------------------ MODULE VarmaEval ------------------------------
(* Out-of-sample evaluation of a time-series model.  The evaluation goes    *)
(* over dates: at a date with `se' observations left the model is estimated *)
(* with the observations until the date, and forecasts of the horizons that *)
(* fit in the remaining observations are compared with them.                *)
EXTENDS Integers, Sequences, FiniteSets, FReal, Helpers, Scores

Horizons(hs) == {hs[k] : k \in DOMAIN hs}
Fitting(se, hs) == {h \in Horizons(hs) : h <= se}
EvalDates(count, hs) == {se \in 1 .. count : Fitting(se, hs) # {}}
\* the pairs to evaluate; `ok' are the dates with an estimate
Pairs(ok, hs) == {p \in ok \X Horizons(hs) : p[2] <= p[1]}
Fails(count, hs, ok) == Cardinality(EvalDates(count, hs) \ ok)
Rejected(count, hs, ok, maxinv) == Pairs(ok, hs) = {} \/ Fails(count, hs, ok) > maxinv
=============================================================================
