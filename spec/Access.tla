------------------------------- MODULE Access -------------------------------
(* What the accessors of an estimated model (residuals, fitted values,       *)
(* coefficients, diagnostics, predictions, tables) have to return. A model   *)
(* is a record m: the observed columns (data, in the order of names: the     *)
(* endogenous ones first), what the estimation used (Y, columns; X, rows),   *)
(* its coefficients, residuals and restrictions, an equation per column.     *)
EXTENDS FReal, Integers, Sequences, FiniteSets, TLC
Place(s, x) == IF \E k \in DOMAIN s : s[k] = x THEN CHOOSE k \in DOMAIN s : s[k] = x /\ \A h \in 1..(k - 1) : s[h] # x ELSE 0
Only(s, Keep(_)) == LET RECURSIVE go(_) go(k) == IF k > Len(s) THEN <<>> ELSE (IF Keep(k) THEN <<s[k]>> ELSE <<>>) \o go(k + 1) IN go(1)

\* the equations a selection means; 0 or a number beyond g is an equation that does not exist
Equations(m, sel) == IF sel.by = "null" THEN [j \in 1..m.g |-> j]
                     ELSE IF sel.by = "index" THEN sel.ix
                     ELSE [k \in DOMAIN sel.nm |-> Place(m.names, sel.nm[k])]
Exist(m, eqs) == \A k \in DOMAIN eqs : eqs[k] \in 1..m.g

\* rows of the data with a residual: the last n complete rows end the sample
Complete(m, t) == \A j \in DOMAIN m.data : ~RIsNaN(m.data[j][t])
Rows(m) == Len(m.data[1])
LastRow(m) == CHOOSE t \in 1..Rows(m) : Complete(m, t) /\ \A u \in (t + 1)..Rows(m) : ~Complete(m, u)
Lost(m) == LastRow(m) - m.n
\* a column of the sample laid on the rows of the data
Laid(m, c) == LET lost == TLCEval(Lost(m)) IN [t \in 1..Rows(m) |-> IF t > lost /\ t <= lost + m.n THEN c[t - lost] ELSE "nan"]

Restricted(m, j, v) == m.restr # <<>> /\ ~RSame(m.restr[j][v], 0)
Free(m, j) == Only([v \in 1..Len(m.coefs[1]) |-> v], LAMBDA v : ~Restricted(m, j, v))
XOf(m, j) == LET f == TLCEval(Free(m, j)) IN [t \in 1..m.n |-> [k \in DOMAIN f |-> m.X[t][f[k]]]]
CoefOf(m, j) == LET f == TLCEval(Free(m, j)) IN [k \in DOMAIN f |-> m.coefs[j][f[k]]]

\* leverages of an equation: the diagonal of X(X'X)^-1 X'
Leverage(m, j) == IF Free(m, j) = <<>> THEN [t \in 1..m.n |-> 0] ELSE
                  LET x == TLCEval(XOf(m, j))
                      inv == TLCEval(RMInv(RMMul(RMTr(x), x)))
                      xi == TLCEval(RMMul(x, inv))
                  IN TLCEval([t \in 1..m.n |-> RDot(xi[t], x[t])])
Deviation(c) == LET mu == TLCEval(RMean(c)) IN RSqrt(RDiv(RSum([t \in DOMAIN c |-> RSq(RSub(c[t], mu))]), Len(c) - 1))
Weight(m, t) == IF m.w = <<>> THEN 1 ELSE m.w[t]
RawResid(m, j, pearson) == IF m.method = "binary" /\ pearson THEN m.pear[j] ELSE m.resid[j]
Standard(m, j, pearson) == LET r == TLCEval(RawResid(m, j, pearson))
                               s == TLCEval(Deviation(r))
                               h == Leverage(m, j)
                           IN [t \in DOMAIN r |-> RDiv(r[t], RMul(s, RSqrt(RMul(Weight(m, t), RSub(1, h[t])))))]
Resid(m, j, std, pearson) == Laid(m, IF std THEN Standard(m, j, pearson) ELSE RawResid(m, j, pearson))
Fitted(m, j) == LET e == TLCEval(Laid(m, m.resid[j])) IN [t \in 1..Rows(m) |-> RSub(m.data[j][t], e[t])]

\* Cook's distance with a given variance of residuals
CookWith(m, j, v) == LET r == TLCEval(RawResid(m, j, TRUE))
                         h == Leverage(m, j)
                         k == Len(Free(m, j))
                     IN [t \in DOMAIN r |-> RDiv(RMul(RSq(r[t]), h[t]), RMul(RMul(k, v), RSq(RSub(1, h[t]))))]
Spreads(m, j) == LET r == RawResid(m, j, TRUE) IN {RDiv(RSum([t \in DOMAIN r |-> RSq(r[t])]), Len(r)), RSq(Deviation(r))}

-----------------------------------------------------------------------------
(* Coefficients of a VARMA model by part: lags of its own variables, the     *)
(* intercept, exogenous variables, lags of the errors.                       *)
LagSet(p, ps, s) == (1..p) \cup (IF s > 1 THEN {s * k : k \in 1..ps} ELSE {})
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* matrices of lags 1..longest: the given blocks where there is a lag
LagMatrices(m, S, from) == [l \in 1..Max(S) |->
     [a \in 1..m.g |-> [b \in 1..m.g |-> IF l \in S THEN m.coefs[a][from + m.g * Cardinality({u \in S : u < l}) + b] ELSE 0]]]
\* one-step expectation of the equation a at t from matrices of lags (t counts rows of the sample)
Lagged(mats, cols, t, a) == RSum([l \in DOMAIN mats |-> IF t - l < 1 THEN 0 ELSE RDot(mats[l][a], [b \in DOMAIN cols |-> cols[b][t - l]])])
=============================================================================
