-------------------------------- MODULE Data --------------------------------
(* Preparation of data: how a sample may be split into a training and a     *)
(* test part, and which observations of a data matrix are usable.           *)
EXTENDS Integers, Sequences, FiniteSets, FReal

SumOver(S, f(_)) ==
  LET g[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + g[T \ {x}]
  IN g[S]

\* ------------------------------------------------------------------ splits
\* a/b rounded half up; where the quotient is not exact in binary the halves may go down
Rounds(a, b, exact) ==
  LET q == ((2 * a) + b) \div (2 * b)
  IN IF (((2 * a) + b) % (2 * b)) = 0 /\ ~exact THEN {q, q - 1} ELSE {q}
TrainSizes(n, num, den, fix) == IF fix > 0 THEN {fix} ELSE Rounds(n * num, den, den = 8)
SizeOk(n, n0) == n0 > 0 /\ n0 < n
Clamp(x, m) == IF m = 1 THEN 1 ELSE IF x >= m THEN m - 1 ELSE IF x <= 0 THEN 1 ELSE x
\* training observations of a class with m observations: its share, but both parts get one where possible
ClassSizes(m, n, n0, num, den, fix) ==
  {Clamp(x, m) : x \in IF fix > 0 THEN Rounds(m * n0, n, FALSE) ELSE Rounds(m * num, den, den = 8)}
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(S) == CHOOSE x \in S : \A y \in S : x >= y
Largest(counts) == {c \in DOMAIN counts : \A d \in DOMAIN counts : counts[d] <= counts[c]}
\* what remains for class L when every other class has its share
Residuals(counts, L, n, n0, num, den, fix) ==
  LET low == SumOver(DOMAIN counts \ {L}, LAMBDA c : Max2(ClassSizes(counts[c], n, n0, num, den, fix)))
      high == SumOver(DOMAIN counts \ {L}, LAMBDA c : Min2(ClassSizes(counts[c], n, n0, num, den, fix)))
  IN (n0 - low)..(n0 - high)
ResidualOk(counts, L, x) == x >= 1 /\ x <= counts[L] - 1
NoEmptyClass(counts) == \A c \in DOMAIN counts : counts[c] > 0
CanFail(counts, n, num, den, fix) ==
  \/ ~NoEmptyClass(counts)
  \/ \E n0 \in TrainSizes(n, num, den, fix) :
       ~SizeOk(n, n0) \/ \E L \in Largest(counts) : \E x \in Residuals(counts, L, n, n0, num, den, fix) : ~ResidualOk(counts, L, x)
\* t[c]: number of training observations of class c
ValidSplit(counts, t, n, num, den, fix) ==
  /\ NoEmptyClass(counts)
  /\ \E n0 \in TrainSizes(n, num, den, fix) :
       /\ SizeOk(n, n0)
       /\ SumOver(DOMAIN counts, LAMBDA c : t[c]) = n0
       /\ \E L \in Largest(counts) :
            /\ ResidualOk(counts, L, t[L])
            /\ \A c \in DOMAIN counts \ {L} : t[c] \in ClassSizes(counts[c], n, n0, num, den, fix)

\* ------------------------------------------------------------------ usable observations
IsNa(x) == RIsNaN(x)
SeqOf(n, P(_)) == \* increasing sequence of the numbers in 1..n with P
  LET F[k \in 0..n] == IF k = 0 THEN <<>> ELSE IF P(k) THEN Append(F[k - 1], k) ELSE F[k - 1] IN F[n]
Complete(row, cols) == \A j \in DOMAIN cols : ~IsNa(row[cols[j]])
UsableRows(rows, cols) == SeqOf(Len(rows), LAMBDA i : Complete(rows[i], cols))
Selected(rows, idx, cols) == [i \in DOMAIN idx |-> [j \in DOMAIN cols |-> rows[idx[i]][cols[j]]]]
\* a variable of a time series
ValidDates(v) == {t \in DOMAIN v : ~IsNa(v[t])}
FirstValid(v) == Min2(ValidDates(v))
LastValid(v) == Max2(ValidDates(v))
HasGaps(v) == ValidDates(v) # {} /\ \E t \in FirstValid(v)..LastValid(v) : IsNa(v[t])
CommonFrom(vars, cols) == Max2({FirstValid(vars[cols[j]]) : j \in DOMAIN cols})
CommonTo(vars, cols) == Min2({LastValid(vars[cols[j]]) : j \in DOMAIN cols})
=============================================================================
