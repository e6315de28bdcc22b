----------------------------- MODULE SearchReal -----------------------------
(* What the checks of a search admit, and what a search reports for a model *)
(* as a function of the facts of estimating that model on its own.          *)
(* A candidate of a search configuration c (see Search) is                  *)
(* <<endogenous set, exogenous set, extra>>; c.extras lists the variants    *)
(* (distribution, orders) of every model.                                   *)
(* The facts of a candidate are a record                                    *)
(*   endo, exo, extra   which model                                         *)
(*   est, obs, lost, params, aic, sic, r2, cn   estimate with all data      *)
(*   predicted, anynan, pred[t][h]              predictions of the targets  *)
(*   sim, valid                                 evaluation on samples       *)
(*   met[t][m]   metrics of target t ( <<>> if the model does not have it)  *)
EXTENDS Search

Candidates(c) == {<<m[1], m[2], x>> : m \in Space(c), x \in Range(c.extras)}
Key(m) == <<Range(m.endo), Range(m.exo), m.extra>>

IsOn(x) == RIsFinite(x)
\* the estimate with all data is needed
NeedsEstimate(c, ck) ==
  \/ ck.estimation \/ c.nin > 0 \/ ck.minobs > 0 \/ ck.mindof > 0
  \/ IsOn(ck.maxaic) \/ IsOn(ck.maxsic) \/ IsOn(ck.minr2)

Dof(m) == m.obs - m.lost - m.params
\* every check by name
Estimable(m) == m.est
EnoughObs(m, ck) == ck.minobs <= 0 \/ m.obs >= ck.minobs
EnoughDof(m, ck) == ck.mindof <= 0 \/ Dof(m) >= ck.mindof
AicOk(m, ck) == ~RLt(ck.maxaic, m.aic)
SicOk(m, ck) == ~RLt(ck.maxsic, m.sic)
R2Ok(m, ck) == ~RLt(m.r2, ck.minr2)
CnOk(m, ck) == ~RLt(ck.maxcn, m.cn)
\* bounds of the predictions: horizon h of target t of the model
BoundsOk(m, ck) ==
  \A t \in DOMAIN m.pred : \A h \in DOMAIN m.pred[t] :
     h <= Len(ck.lower) => (~RLt(m.pred[t][h], ck.lower[h][t]) /\ ~RLt(ck.upper[h][t], m.pred[t][h]))
PredictionOk(m, ck) == m.predicted /\ ~m.anynan /\ BoundsOk(m, ck)
SimOk(m, ck) == m.sim /\ m.valid >= ck.minsim
\* something is left to report
Reports(m) == \E t \in DOMAIN m.met : \E k \in DOMAIN m.met[t] : ~RIsNaN(m.met[t][k])

Admitted(c, ck, m) ==
  /\ NeedsEstimate(c, ck) =>
       /\ Estimable(m) /\ EnoughObs(m, ck) /\ EnoughDof(m, ck)
       /\ AicOk(m, ck) /\ SicOk(m, ck) /\ R2Ok(m, ck) /\ CnOk(m, ck)
       /\ ck.prediction => PredictionOk(m, ck)
  /\ c.simulated => SimOk(m, ck)

\* ck2 is at least as tight as ck1
Tighter(ck1, ck2) ==
  /\ (ck1.estimation => ck2.estimation) /\ (ck1.prediction => ck2.prediction)
  /\ ck1.minobs <= ck2.minobs /\ ck1.mindof <= ck2.mindof /\ ck1.minsim <= ck2.minsim
  /\ RLe(ck1.minr2, ck2.minr2) /\ RLe(ck2.maxaic, ck1.maxaic) /\ RLe(ck2.maxsic, ck1.maxsic) /\ RLe(ck2.maxcn, ck1.maxcn)
NoChecks == [estimation |-> FALSE, prediction |-> FALSE, minobs |-> 0, mindof |-> 0, minsim |-> 0,
             minr2 |-> "-inf", maxaic |-> "inf", maxsic |-> "inf", maxcn |-> "inf", lower |-> <<>>, upper |-> <<>>]
=============================================================================
