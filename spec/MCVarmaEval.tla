------------------------------ MODULE MCVarmaEval ------------------------------
(* The evaluation as a process: dates from the earliest to the latest; an   *)
(* estimate may fail; horizons one at a time.                               *)
EXTENDS VarmaEval
CONSTANTS MaxN, MaxH, MaxInvalid
VARIABLES n, count, hs, maxinv, se, todo, seen, ok, bad, evald, state
vars == <<n, count, hs, maxinv, se, todo, seen, ok, bad, evald, state>>
Seqs(S) == LET F[k \in 0 .. Cardinality(S)] == IF k = 0 THEN <<>> ELSE Append(F[k - 1], CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1) IN F[Cardinality(S)]
Init == /\ n \in 2 .. MaxN /\ count \in 1 .. (MaxN - 1) /\ count < n
        /\ \E S \in SUBSET (1 .. MaxH) : S # {} /\ hs = Seqs(S)
        /\ maxinv \in 0 .. MaxInvalid
        /\ se = count /\ todo = {} /\ seen = 0 /\ ok = {} /\ bad = {} /\ evald = <<>> /\ state = "date"
Fixed == UNCHANGED <<n, count, hs, maxinv>>
\* the process only knows the largest horizon that fits
Estimate == /\ state = "date" /\ se > 0 /\ Fitting(se, hs) # {}
            /\ \/ seen' = n - se /\ ok' = ok \cup {se} /\ todo' = Fitting(se, hs) /\ state' = "score" /\ UNCHANGED bad
               \/ bad' = bad \cup {se} /\ state' = "next" /\ UNCHANGED <<seen, ok, todo>>
            /\ Fixed /\ UNCHANGED <<se, evald>>
NoHorizon == /\ state = "date" /\ se > 0 /\ Fitting(se, hs) = {}
             /\ state' = "next" /\ Fixed /\ UNCHANGED <<se, todo, seen, ok, bad, evald>>
ScoreOne == /\ state = "score" /\ todo # {}
            /\ LET h == CHOOSE h \in todo : \A k \in todo : h <= k
               IN evald' = Append(evald, [se |-> se, h |-> h, used |-> seen, target |-> (n - se) + h]) /\ todo' = todo \ {h}
            /\ Fixed /\ UNCHANGED <<se, seen, ok, bad, state>>
DateDone == /\ (state = "score" /\ todo = {}) \/ state = "next"
            /\ se' = se - 1 /\ state' = "date" /\ Fixed /\ UNCHANGED <<todo, seen, ok, bad, evald>>
Finish == /\ state = "date" /\ se = 0
          /\ state' = IF evald = <<>> \/ Cardinality(bad) > maxinv THEN "error" ELSE "done"
          /\ Fixed /\ UNCHANGED <<se, todo, seen, ok, bad, evald>>
Next == Estimate \/ NoHorizon \/ ScoreOne \/ DateDone \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == state \in {"done", "error"}
\* never the future: the target is after every observation that was used, and is an observation
Causal == \A k \in DOMAIN evald : evald[k].used < evald[k].target /\ evald[k].target <= n /\ evald[k].used = n - evald[k].se
\* every pair that fits, once
Once == \A j, k \in DOMAIN evald : j # k => <<evald[j].se, evald[j].h>> # <<evald[k].se, evald[k].h>>
All == Ended => {<<evald[k].se, evald[k].h>> : k \in DOMAIN evald} = Pairs(ok, hs)
Outcome == Ended => ((state = "error") = Rejected(count, hs, ok, maxinv)) /\ Cardinality(bad) = Fails(count, hs, ok) /\ ok \cup bad = EvalDates(count, hs)
\* the number of scores: a horizon is evaluated at count - h + 1 dates when none fails
Number == (Ended /\ bad = {}) =>
            LET F[k \in 0 .. Len(hs)] == IF k = 0 THEN 0 ELSE F[k - 1] + (IF hs[k] <= count THEN (count - hs[k]) + 1 ELSE 0)
            IN Len(evald) = F[Len(hs)]
Ends == <>Ended
=============================================================================
