---------------------------- MODULE MCSearchReal ----------------------------
(* The checks of a search: monotone, and void when nothing is enabled.      *)
EXTENDS SearchReal, TLC
VARIABLES m, a, b, c
Vals == {"1", "2"}
Facts == [est : BOOLEAN, obs : {4}, lost : {0}, params : {1}, aic : Vals, sic : {"1"}, r2 : Vals, cn : {"2", "nan"},
          sim : BOOLEAN, valid : {1, 2}, predicted : BOOLEAN, anynan : {FALSE}, pred : {<<<<"1">>>>, <<<<"2">>>>}, met : {<<<<"1">>>>}]
Cks == [estimation : BOOLEAN, prediction : BOOLEAN, minobs : {0, 5}, mindof : {0, 3}, minsim : {0, 2},
        minr2 : {"-inf", "1.5"}, maxaic : {"inf", "1.5"}, maxsic : {"inf"}, maxcn : {"inf", "1.5"}, lower : {<<<<"0">>>>}, upper : {<<<<"1.5">>>>}]
Confs == [nin : {0, 1}, simulated : BOOLEAN]
Init == /\ m \in Facts /\ c \in Confs /\ a \in Cks /\ b = NoChecks
\* one check is tightened
Next == /\ b' \in {[a EXCEPT !.estimation = TRUE], [a EXCEPT !.prediction = TRUE], [a EXCEPT !.minobs = 5], [a EXCEPT !.mindof = 3],
                   [a EXCEPT !.minsim = 2], [a EXCEPT !.minr2 = "1.5"], [a EXCEPT !.maxaic = "1.5"], [a EXCEPT !.maxcn = "1.5"]}
        /\ b = NoChecks /\ b' # NoChecks
        /\ UNCHANGED <<m, a, c>>
Spec == Init /\ [][Next]_<<m, a, b, c>>
Monotone == Tighter(a, b) => (Admitted(c, b, m) => Admitted(c, a, m))
Void == (m.est /\ (c.simulated => m.sim /\ m.valid >= 1)) => Admitted(c, NoChecks, m)
\* a check which is violated rejects, whatever the others say
Effective == Admitted(c, a, m) =>
  /\ (a.minobs > 0 => m.est /\ m.obs >= a.minobs)
  /\ (a.mindof > 0 => m.est /\ m.obs - m.lost - m.params >= a.mindof)
  /\ (RIsFinite(a.maxaic) => m.est /\ RLe(m.aic, a.maxaic))
  /\ (RIsFinite(a.minr2) => m.est /\ RLe(a.minr2, m.r2))
  /\ (a.estimation => m.est)
  /\ ((a.estimation /\ RIsFinite(a.maxcn)) => ~RLt(a.maxcn, m.cn))
  /\ ((a.estimation /\ a.prediction) => m.predicted)
=============================================================================
