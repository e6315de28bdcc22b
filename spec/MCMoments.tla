----------------------------- MODULE MCMoments -----------------------------
(* Values are pushed into several accumulators in any order, and the        *)
(* accumulators are combined in any order: the incremental state is always  *)
(* that of the batch of the values it received.                             *)
EXTENDS Moments, FiniteSets
CONSTANTS Items, Accs
VARIABLES left, part, acc
vars == <<left, part, acc>>
Val(e) == [x |-> e[1], w |-> e[2]]
Init == left = Items /\ part = [a \in Accs |-> <<>>] /\ acc = [a \in Accs |-> Zero]
Push(a, e) ==
  /\ e \in left
  /\ left' = left \ {e}
  /\ part' = [part EXCEPT ![a] = Append(@, Value(e[1], e[2]))]
  /\ acc' = [acc EXCEPT ![a] = Join(@, Single(e[1], e[2]))]
Combine(a, b) ==
  /\ a # b
  /\ part[b] # <<>>
  /\ part' = [part EXCEPT ![a] = @ \o part[b], ![b] = <<>>]
  /\ acc' = [acc EXCEPT ![a] = Join(@, acc[b]), ![b] = Zero]
  /\ UNCHANGED left
Next == \/ \E a \in Accs, e \in Items : Push(a, e)
        \/ \E a, b \in Accs : Combine(a, b)
Spec == Init /\ [][Next]_vars
Near(a, b) == RLe(RAbs(RSub(a, b)), "1e-9")
BatchAlways ==
  \A a \in Accs :
    IF Empty(part[a]) THEN RSame(acc[a].w, 0)
    ELSE /\ Near(acc[a].w, SumW(part[a]))
         /\ Near(acc[a].m, MeanOf(part[a]))
         /\ Near(RDiv(acc[a].m2, acc[a].w), Mu2(part[a]))
         /\ Near(RDiv(acc[a].m3, acc[a].w), Mu3(part[a]))
         /\ Near(RDiv(acc[a].m4, acc[a].w), Mu4(part[a]))
QItems == {<<-1, 1>>, <<2, 2>>, <<0, 0>>, <<5, 1>>}
TItems == {<<-1, 1>>, <<2, 2>>, <<0, 0>>, <<5, 1>>, <<3, 3>>}
=============================================================================
