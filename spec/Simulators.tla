----------------------------- MODULE Simulators -----------------------------
(* A sample drawn by a simulator is a history of the model returned with it. *)
EXTENDS FReal, Integers, Sequences, FiniteSets, TLC
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Column(m, j) == [t \in DOMAIN m |-> m[t][j]]

\* differences of a history (rows), n times at a distance of s: the first n*s rows have none
RECURSIVE Differenced(_, _, _)
Differenced(rows, s, n) == IF n = 0 THEN rows
   ELSE LET once == TLCEval([t \in 1..(Len(rows) - s) |-> [j \in DOMAIN rows[1] |-> RSub(rows[t + s][j], rows[t][j])]]) IN Differenced(once, s, n - 1)

\* lags with coefficients when the orders are given and the coefficients are drawn
LagSet(p, ps, s) == (1..p) \cup (IF s > 1 THEN {s * k : k \in 1..ps} ELSE {})

\* one step of the process: z (differenced) at row t of a history whose row 0 is "off" rows before the first row of z
Step(z, e, x, off, ar, ma, exo, int, t, a) ==
   RSum(<<e[t + off][a], IF int = <<>> THEN 0 ELSE int[a], IF exo = <<>> THEN 0 ELSE RDot(exo[a], x[t + off])>>
        \o [l \in DOMAIN ar |-> RDot(ar[l][a], z[t - l])] \o [l \in DOMAIN ma |-> RDot(ma[l][a], e[t + off - l])])

\* moments of a sample (columns) of a normal vector, within six standard errors
Center(c) == LET m == TLCEval(RMean(c)) IN TLCEval([t \in DOMAIN c |-> RSub(c[t], m)])
MeanNear(c, mu, var) == RLe(RAbs(RSub(RMean(c), mu)), RMul(6, RSqrt(RDiv(var, Len(c)))))
CovNear(c, d, v, v1, v2) == RLe(RAbs(RSub(RDiv(RDot(Center(c), Center(d)), Len(c)), v)), RMul(6, RSqrt(RDiv(RAdd(RMul(v1, v2), RSq(v)), Len(c)))))
Logistic(z) == RDiv(1, RAdd(1, RExp(RNeg(z))))
=============================================================================
