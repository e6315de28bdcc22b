------------------------------ MODULE MCSplit -------------------------------
(* The rule of the discrete split as a process: classes are served one by   *)
(* one, from the smallest; the last one gets what remains.  Model-checked   *)
(* for all small samples: whenever the process ends, both parts have an     *)
(* observation of every class with two or more, and the sizes add up.       *)
EXTENDS Data, TLC
CONSTANTS MaxClasses, MaxCount, Den
VARIABLES counts, num, fix, left, taken, state
vars == <<counts, num, fix, left, taken, state>>
N == SumOver(DOMAIN counts, LAMBDA c : counts[c])
N0 == Min2(TrainSizes(N, num, Den, fix))
Init ==
  /\ \E k \in 2..MaxClasses : counts \in [1..k -> 0..MaxCount]
  /\ num \in 0..Den /\ fix \in 0..(MaxCount * 2)
  /\ left = DOMAIN counts /\ taken = [c \in {} |-> 0] /\ state = "run"
Total == SumOver(DOMAIN taken, LAMBDA c : taken[c])
Reject == /\ state = "run" /\ (~NoEmptyClass(counts) \/ N = 0 \/ ~SizeOk(N, N0)) /\ state' = "error" /\ UNCHANGED <<counts, num, fix, left, taken>>
Serve ==
  /\ state = "run" /\ NoEmptyClass(counts) /\ SizeOk(N, N0) /\ left # {}
  /\ \E c \in left :
       /\ \A d \in left : counts[c] <= counts[d]
       /\ IF left # {c}
          THEN \E x \in ClassSizes(counts[c], N, N0, num, Den, fix) : /\ taken' = [d \in DOMAIN taken \cup {c} |-> IF d = c THEN x ELSE taken[d]]
                                                                  /\ left' = left \ {c} /\ UNCHANGED state
          ELSE IF ResidualOk(counts, c, N0 - Total)
               THEN taken' = [d \in DOMAIN taken \cup {c} |-> IF d = c THEN N0 - Total ELSE taken[d]] /\ left' = {} /\ state' = "done"
               ELSE state' = "error" /\ UNCHANGED <<left, taken>>
  /\ UNCHANGED <<counts, num, fix>>
Next == Reject \/ Serve
Spec == Init /\ [][Next]_vars
BothParts == state = "done" => \A c \in DOMAIN counts : counts[c] >= 2 => taken[c] >= 1 /\ taken[c] <= counts[c] - 1
SizesAdd == state = "done" => Total = N0 /\ \A c \in DOMAIN counts : taken[c] <= counts[c] /\ taken[c] >= 0
Agrees == (state = "done" => ValidSplit(counts, taken, N, num, Den, fix)) /\ (state = "error" => N = 0 \/ CanFail(counts, N, num, Den, fix))
=============================================================================
