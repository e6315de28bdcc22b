-------------------------------- MODULE Pca --------------------------------
(* Principal components of the columns of a sample, and their use in the    *)
(* place of variables in a model.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FReal

Cols(x) == IF x = <<>> THEN 0 ELSE Len(x[1])
Col(x, j) == [q \in DOMAIN x |-> x[q][j]]
Less(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* The sample that is decomposed.                                           *)
Mean(v) == RMean(v)
\* a variable is constant when all its values are the same
Constant(v) == \A q \in DOMAIN v : RSame(v[q], v[1])
\* with the divisor n - 1
Variance(v) == LET m == Mean(v) IN RDiv(RSum([q \in DOMAIN v |-> RSq(RSub(v[q], m))]), Len(v) - 1)
\* which variables remain
Kept(x, check, scale) == IF check /\ scale THEN SelectSeq([j \in 1 .. Cols(x) |-> j], LAMBDA j : ~Constant(Col(x, j))) ELSE [j \in 1 .. Cols(x) |-> j]
Moments(x, center, scale) == [j \in 1 .. Cols(x) |-> [m |-> IF center THEN Mean(Col(x, j)) ELSE 0, s |-> IF scale THEN RSqrt(Variance(Col(x, j))) ELSE 1]]
\* the rows of z in the units of the sample with the moments mo
Standard(z, mo, kept) == [q \in DOMAIN z |-> [j \in DOMAIN kept |-> RDiv(RSub(z[q][kept[j]], mo[kept[j]].m), mo[kept[j]].s)]]

-----------------------------------------------------------------------------
(* The decomposition, by what characterizes it: dirs (its rows are          *)
(* orthonormal directions) and stds are right for S iff the projections of  *)
(* S are uncorrelated, have these dispersions, these are in order, and      *)
(* nothing is left out.                                                     *)
Count(S) == Less(Len(S), Cols(S))
Project(S, dirs, c) == [q \in DOMAIN S |-> [j \in 1 .. c |-> RDot(S[q], dirs[j])]]
Total(S) == RDiv(RSum([q \in DOMAIN S |-> RDot(S[q], S[q])]), Len(S) - 1)
Orthonormal(dirs, c, tol) == \A a, b \in 1 .. c : RLe(RAbs(RSub(RDot(dirs[a], dirs[b]), IF a = b THEN 1 ELSE 0)), tol)
Uncorrelated(P, stds, total, tol) ==
  \A a, b \in DOMAIN stds : LET s == RDiv(RDot(Col(P, a), Col(P, b)), Len(P) - 1) IN RLe(RAbs(RSub(s, IF a = b THEN RSq(stds[a]) ELSE 0)), RMul(tol, total))
InOrder(stds) == \A a \in DOMAIN stds : RLe(0, stds[a]) /\ (a < Len(stds) => RLe(stds[a + 1], stds[a]))
Complete(stds, total, tol) == RLe(RAbs(RSub(RSum([a \in DOMAIN stds |-> RSq(stds[a])]), total)), RMul(tol, total))
Ratios(stds) == LET t == RSum([a \in DOMAIN stds |-> RSq(stds[a])]) IN [a \in DOMAIN stds |-> RDiv(RSq(stds[a]), t)]

-----------------------------------------------------------------------------
(* How many components a model uses.                                        *)
Explained(ratios, c) == RSum(SubSeq(ratios, 1, c))
\* the smallest number of components which explain more than the rate
Enough(ratios, rate) == LET ok == {c \in 1 .. Len(ratios) : RLt(rate, Explained(ratios, c))} IN IF ok = {} THEN Len(ratios) ELSE CHOOSE c \in ok : \A d \in ok : c <= d
Final(ratios, o) == IF o.exact > 0 THEN o.exact ELSE Less(Enough(ratios, o.cutoff), o.max)
\* the first variables are kept as they are, and components take the place of the others
Replaced(x, ignore, P, c) == [q \in DOMAIN x |-> SubSeq(x[q], 1, ignore) \o SubSeq(P[q], 1, c)]
Refused(o, cols, anyConstant, available) ==
  \/ o.ignore >= cols
  \/ anyConstant
  \/ o.exact > available
=============================================================================
