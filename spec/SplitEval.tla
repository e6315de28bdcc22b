------------------------------ MODULE SplitEval ------------------------------
(* Out-of-sample evaluation of a cross-section model: several times the     *)
(* sample is split at random in a training and a test part; the model is    *)
(* estimated with the first and its predictions of the second are scored.   *)
EXTENDS Integers, Sequences, FiniteSets, FReal, Scores

Range(s) == {s[k] : k \in DOMAIN s}
\* size of the training part; not a valid one when a part is empty
TrainSize(N, ratio, fix) == IF fix > 0 THEN fix ELSE CHOOSE n \in 0 .. N : RSame(n, RFloor(RAdd(RMul(N, ratio), "0.5")))
ValidSize(N, n0) == n0 > 0 /\ n0 < N
\* train and test have no observation in common and together they are the sample
IsSplit(N, n0, train, test) ==
  /\ Len(train) = n0 /\ Len(test) = N - n0
  /\ Range(train) \cup Range(test) = 1 .. N
\* with labels: every group which has two members is in both parts, according to the share
IsStratified(labels, N, n0, train, test) ==
  \A g \in Range(labels) :
    LET members == {i \in 1 .. N : labels[i] = g}
    IN members \cap Range(train) # {} /\ (Cardinality(members) > 1 => members \cap Range(test) # {})
\* the evaluation of `valid' good splits out of `total' ones
Failed(valid, total) == total - valid
Refused(valid, total, maxinv) == valid = 0 \/ Failed(valid, total) > maxinv
=============================================================================
