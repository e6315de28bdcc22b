------------------------------ MODULE MCSteps ------------------------------
EXTENDS Steps
CONSTANTS Counts, W
Names == {"a", "b", "x", "y"}
Requests == {[endo |-> <<"a", "b">>, exo |-> <<"x", "y">>, targets |-> 1, fixed |-> f, counts |-> c, sizes |-> <<{1}, {1, 2}, {2}>>, parts |-> p, numfix |-> n, inner |-> <<{"a"}, {"a", "b"}>>, innerExo |-> FALSE] :
              f \in {<<>>, <<"y">>, <<"a", "b">>}, c \in {<<x, y, z>> : x \in Counts, y \in Counts, z \in Counts}, p \in {<<{"x"}, {"y"}>>, <<{"x", "y"}>>}, n \in {0, 1}}
MCCounts == {-1, 1, 2, 3, 5}
MCInit == q \in Requests /\ Init
MCNext == \/ \E K \in SUBSET Names, w \in [Names -> W] : Search(K, w)
          \/ GiveUp \/ NoResults
Spec == MCInit /\ [][MCNext]_<<q, step, kept, weights, stopped>>
\* a step always has something to keep
Choice == stopped = "" /\ step < Len(q.counts) /\ ~TooFew(step + 1) => \E K \in SUBSET kept : Keeps(step + 1, K)
=============================================================================
