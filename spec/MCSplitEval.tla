----------------------------- MODULE MCSplitEval -----------------------------
(* The evaluation as a process: splits one after the other, an estimate may *)
(* fail, predictions are scored one at a time.                              *)
EXTENDS SplitEval
CONSTANTS MaxN, MaxIter, MaxInvalid
VARIABLES n, n0, total, maxinv, iter, train, todo, valid, bad, scored, state
vars == <<n, n0, total, maxinv, iter, train, todo, valid, bad, scored, state>>
Fixed == UNCHANGED <<n, n0, total, maxinv>>
Init == /\ n \in 2 .. MaxN /\ n0 \in 1 .. (MaxN - 1) /\ n0 < n
        /\ total \in 1 .. MaxIter /\ maxinv \in 0 .. MaxInvalid
        /\ iter = 1 /\ train = {} /\ todo = {} /\ valid = 0 /\ bad = 0 /\ scored = <<>> /\ state = "split"
Split == /\ state = "split" /\ iter <= total
         /\ \E S \in SUBSET (1 .. n) : Cardinality(S) = n0 /\ train' = S /\ todo' = (1 .. n) \ S
         /\ state' = "estimate" /\ Fixed /\ UNCHANGED <<iter, valid, bad, scored>>
Estimate == /\ state = "estimate"
            /\ \/ state' = "score" /\ valid' = valid + 1 /\ UNCHANGED <<iter, bad, todo>>
               \/ state' = "split" /\ bad' = bad + 1 /\ iter' = iter + 1 /\ todo' = {} /\ UNCHANGED valid
            /\ Fixed /\ UNCHANGED <<train, scored>>
ScoreOne == /\ state = "score" /\ todo # {}
            /\ LET x == CHOOSE x \in todo : \A y \in todo : x <= y
               IN scored' = Append(scored, [iter |-> iter, obs |-> x, used |-> train]) /\ todo' = todo \ {x}
            /\ Fixed /\ UNCHANGED <<iter, train, valid, bad, state>>
SplitDone == /\ state = "score" /\ todo = {} /\ iter' = iter + 1 /\ state' = "split" /\ Fixed /\ UNCHANGED <<train, todo, valid, bad, scored>>
\* the process may stop early when there are too many failures
Stop == /\ state = "split" /\ (iter > total \/ bad > maxinv)
        /\ state' = IF valid = 0 \/ bad > maxinv THEN "error" ELSE "done"
        /\ Fixed /\ UNCHANGED <<iter, train, todo, valid, bad, scored>>
Next == Split \/ Estimate \/ ScoreOne \/ SplitDone \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == state \in {"done", "error"}
\* a prediction is never of an observation the model was estimated with
Honest == \A k \in DOMAIN scored : scored[k].obs \notin scored[k].used /\ Cardinality(scored[k].used) = n0
Once == \A j, k \in DOMAIN scored : j # k => <<scored[j].iter, scored[j].obs>> # <<scored[k].iter, scored[k].obs>>
Number == state = "done" => Len(scored) = valid * (n - n0)
Balance == Ended => (valid + bad = iter - 1 /\ (state = "done") => (iter = total + 1 /\ ~Refused(valid, total, maxinv)))
\* an evaluation that was refused could not have been accepted with the splits that are left
Right == state = "error" => (bad > maxinv \/ Refused(valid, total, maxinv))
Parts == state \in {"estimate", "score"} => \E a, b \in [1 .. n0 -> 1 .. n] \cup [1 .. (n - n0) -> 1 .. n] :
            Len(a) = n0 /\ Len(b) = n - n0 /\ Range(a) = train /\ Range(b) = (1 .. n) \ train /\ IsSplit(n, n0, a, b)
Ends == <>Ended
=============================================================================
