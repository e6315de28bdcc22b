------------------------------- MODULE MCVarma -------------------------------
(* The order algebra and the differencing of Varma on small constants: a    *)
(* series grows by one observation at a time (any value), the differenced   *)
(* series grows with it, and undoing the difference of any period from its  *)
(* levels before gives the level.                                           *)
EXTENDS Varma
CONSTANTS Orders, Values, Fixed, MaxLen     \* the first Fixed observations are given
VARIABLES o, y
vars == <<o, y>>
Order(p, d, q, P, D, Q, s) == [p |-> p, d |-> d, q |-> q, P |-> P, D |-> D, Q |-> Q, s |-> s]
QOrders == {Order(p, d, q, P, D, Q, s) : p \in 0 .. 2, d \in 0 .. 1, q \in 0 .. 1, P \in 0 .. 1, D \in 0 .. 1, Q \in 0 .. 1, s \in {0, 2, 3}}
TOrders == {Order(p, d, q, P, D, Q, s) : p \in 0 .. 3, d \in 0 .. 2, q \in 0 .. 1, P \in 0 .. 2, D \in 0 .. 1, Q \in 0 .. 1, s \in {0, 2, 3, 4}}
QValues == {-1, 2}
TValues == {-1, 0, 2}
Init == o \in {x \in Orders : ValidOrders(x)} /\ y = <<>>
Next == /\ Len(y) < MaxLen
        /\ \E v \in (IF Len(y) < Fixed THEN {((7 * Len(y) * Len(y)) % 5) - 2} ELSE Values) : y' = Append(y, <<v>>)
        /\ UNCHANGED o
Spec == Init /\ [][Next]_vars

z == Sizes(o, Len(y), 1, 0)
\* every lag once, in increasing order
Increasing(l) == \A k \in 1 .. (Len(l) - 1) : l[k] < l[k + 1]
LagsRight == /\ Increasing(z.ar) /\ Increasing(z.ma)
             /\ \A l \in 1 .. 12 : (\E k \in DOMAIN z.ar : z.ar[k] = l) <=> (l <= o.p \/ (o.s >= 2 /\ l % o.s = 0 /\ l \div o.s <= o.P))
             /\ \A l \in 1 .. 12 : (\E k \in DOMAIN z.ma : z.ma[k] = l) <=> (l <= o.q \/ (o.s >= 2 /\ l % o.s = 0 /\ l \div o.s <= o.Q))
\* the polynomial: value at one is zero with any differencing, degree d + sD, first coefficient one
PolyRight == LET F[k \in 0 .. Len(z.diff)] == IF k = 0 THEN 0 ELSE F[k - 1] + z.diff[k]
             IN /\ F[Len(z.diff)] = (IF o.d + o.D > 0 THEN 0 ELSE 1)
                /\ Len(z.diff) = o.d + (o.s * o.D) + 1 /\ z.diff[1] = 1
\* differencing step by step gives the same series
Once(l, s) == [t \in 1 .. (Len(s) - l) |-> <<s[t + l][1] - s[t][1]>>]
Repeat(l, n, s) == LET F[k \in 0 .. n] == IF k = 0 THEN s ELSE Once(l, F[k - 1]) IN F[n]
Long == Len(y) >= Len(z.diff)
StepByStep == Long => Difference(z.diff, y) = Repeat(o.s, o.D, Repeat(1, o.d, y))
\* and is undone exactly, period by period
Undone == Long => \A t \in Len(z.diff) .. Len(y) : Undo(z.diff, Difference(z.diff, y)[t - Len(z.diff) + 1], SubSeq(y, 1, t - 1)) = y[t]
\* the sample: every period whose lags (of the differenced series) are all there, and no other
SampleRight == z.sample = Len(y) - z.lost
               /\ \A t \in 1 .. (Len(y) - Len(z.diff) + 1) : (t > z.armax) <=> \A k \in DOMAIN z.ar : t - z.ar[k] >= 1
\* with zero coefficients and no differencing forecasts are zero; with a unit first lag they continue the last value
Continue == (z.sample >= 1 /\ o.d + o.D = 0 /\ z.ma = <<>> /\ z.ar # <<>> /\ Long /\ Len(y) > z.armax) =>
              LET B == <<[k \in 1 .. Len(z.ar) |-> IF k = Len(z.ar) THEN 1 ELSE 0]>>
                  f == Forecast(z, B, y, <<>>, Residuals(z, B, y, <<>>), <<>>, z.armax)
              IN f = SubSeq(y, Len(y) - z.armax + 1, Len(y))
\* forecasts and their variances do not depend on how many follow
Prefix == (z.sample >= 1 /\ Long) =>
              LET B == <<[k \in 1 .. z.pareq |-> IF k % 2 = 1 THEN 1 ELSE -1]>>
                  E == Residuals(z, B, y, <<>>)
                  f == Forecast(z, B, y, <<>>, E, <<>>, 3)
              IN \A h \in 1 .. 2 : Forecast(z, B, y, <<>>, E, <<>>, h) = SubSeq(f, 1, h)
\* residuals reproduce the series: the model's equation with them gives the observations
Reproduce == (z.sample >= 1 /\ Long) =>
              LET B == <<[k \in 1 .. z.pareq |-> IF k % 2 = 1 THEN 1 ELSE -1]>>
                  E == Residuals(z, B, y, <<>>)
                  W == Difference(z.diff, y)
              IN \A t \in DOMAIN E : RowAdd(E[t], Apply(B, Regressor(z, SubSeq(W, 1, t + z.armax - 1), <<>>, SubSeq(E, 1, t - 1)))) = W[t + z.armax]
=============================================================================
