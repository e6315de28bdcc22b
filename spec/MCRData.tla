------------------------------ MODULE MCRData ------------------------------
(* Binding of variables, step by step (a variable at a time is trimmed and  *)
(* placed), against Bound; strategies against missing data; all small cases.*)
EXTENDS RData
CONSTANTS MaxLen, MaxVars, MaxOff, MaxHor
VARIABLES vars, exo, hor, adj
Data == {d \in UNION {[1 .. n -> {"x", "nan"}] : n \in 1 .. MaxLen} : \E j \in DOMAIN d : d[j] # "nan"}
\* distinct values, so that a misplaced one is seen
Tagged(d, j) == [q \in DOMAIN d |-> IF d[q] = "nan" THEN "nan" ELSE ToString(10 * j + q)]
Var(j) == [start : {[k |-> "year", y |-> 2000, z |-> 1, n |-> 4, p |-> q] : q \in 1 .. MaxOff}, data : {Tagged(d, j) : d \in Data}, name : {"X" \o ToString(j)}]
Init == vars = <<>> /\ exo \in 0 .. MaxVars - 1 /\ hor \in 0 .. MaxHor /\ adj \in BOOLEAN
Add == /\ Len(vars) < MaxVars
       /\ \E v \in Var(Len(vars) + 1) : vars' = Append(vars, v)
       /\ UNCHANGED <<exo, hor, adj>>
Next == Add
Spec == Init /\ [][Next]_<<vars, exo, hor, adj>>
Ready == vars # <<>> /\ exo <= Len(vars)
B == Bound(vars, FALSE, adj, exo, hor)
\* where the value q of the variable j is in its column
Place(b, j, x) == CHOOSE k \in 1 .. b.n : RSame(b.cols[j][k], x)
Values(d) == {d[q] : q \in Valid(d)}
\* no value is lost or invented, and their order and distances stay
Kept == Ready => LET b == B IN \A j \in DOMAIN vars :
  /\ {b.cols[j][k] : k \in Valid(b.cols[j])} = Values(vars[j].data)
  /\ \A p, q \in Valid(vars[j].data) : Place(b, j, vars[j].data[p]) - Place(b, j, vars[j].data[q]) = p - q
\* values are at their dates, or at dates moved by the reported lag
AtDates == Ready => LET b == B IN \A j \in DOMAIN vars : \A q \in Valid(vars[j].data) :
  Minus(Move(vars[j].start, q - 1), Move(b.start, Place(b, j, vars[j].data[q]) - 1)) = IF adj THEN b.lags[j] ELSE 0
\* no empty rows around
Tight == Ready => LET b == B IN (\E j \in DOMAIN vars : ~Na(b.cols[j][1])) /\ (\E j \in DOMAIN vars : ~Na(b.cols[j][b.n]))
\* adjusted variables end together; exogenous ones later by the horizon
Aligned == Ready /\ adj => LET b == B IN \A j \in DOMAIN vars : j > 1 => Last(b.cols[j]) - Last(b.cols[1]) = IF j <= Len(vars) - exo THEN 0 ELSE hor
\* the reported lag is what an adjustment moves
Lags == Ready => Bound(vars, FALSE, TRUE, exo, hor).lags = [j \in DOMAIN vars |-> Bound(vars, FALSE, FALSE, exo, hor).info[j][5]]
\* strategies: nothing missing is left, and no column (row) is removed without need
M == [r \in DOMAIN vars |-> [c \in 1 .. MaxLen |-> IF c <= Len(vars[r].data) THEN vars[r].data[c] ELSE "nan"]]
Whole == Ready => \A k \in 1 .. MaxLen : \A S \in TopCols(M, MaxLen, k) : LET w == ByCols(M, MaxLen, S) IN
  /\ \A r \in DOMAIN M \ w.rows, c \in (1 .. MaxLen) \ w.cols : ~Na(M[r][c])
  /\ \A r \in w.rows : \E c \in (1 .. MaxLen) \ w.cols : Na(M[r][c])
=============================================================================
