------------------------------ MODULE Scoring ------------------------------
(* ROC curves, AUC and cost tables.                                         *)
EXTENDS Integers, Sequences, FiniteSets, FReal

\* ---- ROC: a score is the probability of a negative observation (label 0)
\* scores that begin a group of tied observations, ascending (a score is tied
\* with the first one of its group when they differ at most by eps)
RECURSIVE Starts(_, _, _)
Starts(sorted, eps, acc) ==
  IF sorted = <<>> THEN acc
  ELSE IF acc = <<>> \/ RLt(eps, RAbs(RSub(Head(sorted), acc[Len(acc)]))) THEN Starts(Tail(sorted), eps, Append(acc, Head(sorted)))
  ELSE Starts(Tail(sorted), eps, acc)
GroupStarts(s, eps) == Starts(RSort(s), eps, <<>>)
GroupOf(starts, x) == CHOOSE g \in DOMAIN starts : RLe(starts[g], x) /\ (g = Len(starts) \/ RLt(x, starts[g + 1]))

\* benefit of a true positive (first row) and cost of a false positive (second row) of observation i
Benefit(r, i) == IF r.hasCost THEN RSub(RMul(r.cm[1][1], r.costs[i]), r.cm[1][2]) ELSE 1
FpCost(r, i) == IF r.hasCost THEN RNeg(RSub(RMul(r.cm[2][1], r.costs[i]), r.cm[2][2])) ELSE 1
\* moves of the curve
Up(r, i) == IF RSame(r.y[i], 0) THEN 0 ELSE RMul(r.w[i], Benefit(r, i))
Right(r, i) == IF RSame(r.y[i], 0) THEN RMul(r.w[i], FpCost(r, i)) ELSE 0
Total(f(_, _), r) == RSum([i \in DOMAIN r.y |-> f(r, i)])

\* AUC: weighted share of the pairs (positive, negative) in the right order; ties count a half, or nothing
PairAuc(r) ==
  LET st == GroupStarts(r.scores, r.eps)
      g == [i \in DOMAIN r.y |-> GroupOf(st, r.scores[i])]
      tie == IF r.pessimistic THEN 0 ELSE "0.5"
      credit(i, j) == IF g[i] < g[j] THEN 1 ELSE IF g[i] = g[j] THEN tie ELSE 0
      n == Len(r.y)
      right == RSum([k \in 1 .. (n * n) |-> LET i == ((k - 1) \div n) + 1 j == ((k - 1) % n) + 1
                                            IN RMul(credit(i, j), RMul(Up(r, i), Right(r, j)))])
  IN RDiv(right, RMul(Total(Up, r), Total(Right, r)))

\* the curve: one point per group, through the corner below when pessimistic
Curve(r) ==
  LET st == GroupStarts(r.scores, r.eps)
      g == [i \in DOMAIN r.y |-> GroupOf(st, r.scores[i])]
      x(k) == RSum([i \in DOMAIN r.y |-> IF g[i] <= k THEN Right(r, i) ELSE 0])
      y(k) == RSum([i \in DOMAIN r.y |-> IF g[i] <= k THEN Up(r, i) ELSE 0])
  IN IF r.pessimistic
     THEN [k \in 1 .. ((2 * Len(st)) + 1) |-> IF k = 1 THEN <<0, 0>> ELSE IF k % 2 = 0 THEN <<x(k \div 2), y((k \div 2) - 1)>> ELSE <<x((k - 1) \div 2), y((k - 1) \div 2)>>]
     ELSE [k \in 1 .. (Len(st) + 1) |-> <<x(k - 1), y(k - 1)>>]
Normalized(c) == LET X == c[Len(c)][1] Y == c[Len(c)][2] IN [k \in DOMAIN c |-> <<RDiv(c[k][1], X), RDiv(c[k][2], Y)>>]
NearPoint(p, q) == RClose(p[1], q[1], "1e-9") /\ RClose(p[2], q[2], "1e-9")
\* without points equal to the one before
RECURSIVE Distinct(_)
Distinct(c) == IF Len(c) < 2 THEN c ELSE LET d == Distinct(SubSeq(c, 1, Len(c) - 1)) IN IF NearPoint(d[Len(d)], c[Len(c)]) THEN d ELSE Append(d, c[Len(c)])
SameCurve(c, d) == LET e == Distinct(c) f == Distinct(d) IN Len(e) = Len(f) /\ \A k \in DOMAIN e : NearPoint(e[k], f[k])
Monotone(c) == \A k \in 1 .. (Len(c) - 1) : RLe(c[k][1], RAdd(c[k + 1][1], "1e-12")) /\ RLe(c[k][2], RAdd(c[k + 1][2], "1e-12"))

\* area of the normalized curve between two rates, divided by their distance
Area(c, l, u) ==
  LET part(k) ==
        LET a == c[k] b == c[k + 1]
            dx == RSub(b[1], a[1])
            from == RMax(a[1], l)
            to == RMin(b[1], u)
            at(x) == RAdd(a[2], RMul(RSub(b[2], a[2]), RDiv(RSub(x, a[1]), dx)))
        IN IF RLe(dx, 0) \/ RLe(to, from) THEN 0 ELSE RMul(RSub(to, from), RDiv(RAdd(at(from), at(to)), 2))
  IN RDiv(RSum([k \in 1 .. (Len(c) - 1) |-> part(k)]), RSub(u, l))
IsPartial(r) == ~RIsNaN(r.lower) /\ ~RIsNaN(r.upper)
BadBounds(r) == IsPartial(r) /\ (RLt(r.upper, r.lower) \/ RLt(1, r.upper) \/ RLt(r.lower, 0))
BadCosts(r) == r.hasCost /\ \E i \in DOMAIN r.y : RLt(Benefit(r, i), 0) \/ RLt(FpCost(r, i), 0)
Degenerate(r) == RLe(Total(Up, r), 0) \/ RLe(Total(Right, r), 0)

\* ---- cost tables: rows <<threshold, cost of choice 0, cost of choice 1, ...>>
ValidTable(th, cols, k) ==
  /\ Len(th) >= 2
  /\ cols = k + 1
  /\ \A i \in DOMAIN th : RLe(0, th[i]) /\ RLe(th[i], 1)
  /\ \A i \in 2 .. Len(th) : RLt(th[i - 1], th[i])
  /\ RSame(th[Len(th)], 1)
\* the interval of a probability: the first one whose upper bound is not below it
RowOf(table, p) == CHOOSE i \in DOMAIN table : RLe(p, table[i][1]) /\ \A j \in 1 .. (i - 1) : RLt(table[j][1], p)
Cost(table, y, p) == table[RowOf(table, p[y + 1])][y + 2]
Counted(r) == {i \in DOMAIN r.y : ~RIsNaN(r.y[i])}
WeightSum(r) == RSum([i \in DOMAIN r.y |-> IF i \in Counted(r) THEN r.w[i] ELSE 0])
CostSum(r, t) == RSum([i \in DOMAIN r.y |-> IF i \in Counted(r) THEN RMul(r.w[i], Cost(r.tables[t], r.y[i], r.p[i])) ELSE 0])
AverageCost(r) == RMean([t \in DOMAIN r.tables |-> RDiv(CostSum(r, t), WeightSum(r))])
=============================================================================
