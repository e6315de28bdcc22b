------------------------------- MODULE RData -------------------------------
(* The R package tdata: dates, variables, tables of variables (with leads   *)
(* and lags), strategies against missing data, long-run growth.             *)
EXTENDS Variables, FiniteSets
H == INSTANCE Helpers

TypeName(f) ==
  CASE f.k = "cs" -> "Cross-Section"
    [] f.k = "year" -> (IF f.z = 1 THEN (CASE f.n = 1 -> "Yearly" [] f.n = 4 -> "Quarterly" [] f.n = 12 -> "Monthly" [] OTHER -> "X-Times-A-Year")
                        ELSE IF f.n = 1 THEN "Multi-Yearly" ELSE "X-Times-Z-Years")
    [] f.k = "week" -> (CASE f.w = "w" -> (IF f.m = 1 THEN "Weekly" ELSE "Multi-Weekly") [] f.w = "d" -> (IF f.m = 1 THEN "Daily" ELSE "Multi-Daily") [] OTHER -> "Daily-In-Week")
    [] f.k = "day" -> (CASE f.n = 24 -> "Hourly" [] f.n = 1440 -> "Minute(ly)" [] f.n = 86400 -> "Second(ly)" [] OTHER -> "X-Times-A-Day")
    [] f.k = "list" -> (IF f.dates THEN "List (Date)" ELSE "List (String)")
Abs(x) == IF x < 0 THEN -x ELSE x
\* from f towards f moved by h, every by-th date; both ends included
Range(f, h, by) == [k \in 1 .. (Abs(h) \div Abs(by)) + 1 |-> Move(f, Sign(h) * Abs(by) * (k - 1))]

\* ---- a table of variables; v.start, v.data, v.name
Name(v, lag) == v.name \o (IF lag = 0 THEN "" ELSE "(" \o (IF lag > 0 THEN "+" ELSE "") \o ToString(lag) \o ")")
Info(col, count, lag) ==
  <<First(col), Last(col), IF \E k \in First(col) .. Last(col) : Na(col[k]) THEN 1 ELSE 0, count, lag>>
Bound(vars, interp, adj, exo, hor) ==
  LET trimmed == [j \in DOMAIN vars |-> Trimmed([start |-> vars[j].start, data |-> vars[j].data])]
      filled == [j \in DOMAIN vars |-> IF interp THEN [trimmed[j] EXCEPT !.data = H!Interpolated(trimmed[j].data)] ELSE trimmed[j]]
      count(j) == IF interp THEN H!Filled(trimmed[j].data) ELSE 0
      t == Table(filled)
      endo == Len(vars) - exo
      \* how much later than needed a variable ends
      lag(j) == IF j = 1 THEN 0 ELSE Last(t.cols[j]) - Last(t.cols[1]) - (IF j <= endo THEN 0 ELSE hor)
      moved == [j \in DOMAIN vars |-> [filled[j] EXCEPT !.start = Move(@, -lag(j))]]
      t2 == IF adj THEN Table(moved) ELSE t
  IN [start |-> t2.start, n |-> t2.n, cols |-> t2.cols,
      names |-> [j \in DOMAIN vars |-> Name(vars[j], IF adj THEN lag(j) ELSE 0)],
      info |-> [j \in DOMAIN vars |-> Info(t2.cols[j], count(j), IF adj THEN 0 ELSE lag(j))],
      lags |-> [j \in DOMAIN vars |-> lag(j)]]

\* ---- what can be removed from a matrix (a sequence of rows) with missing data
Holes(m, r, C) == Cardinality({c \in C : Na(m[r][c])})
ColHoles(m, c) == Cardinality({r \in DOMAIN m : Na(m[r][c])})
RowHoles(m, r) == Holes(m, r, DOMAIN m[r])
\* the i columns (rows) with most holes
TopCols(m, n, i) == {S \in SUBSET (1 .. n) : Cardinality(S) = i /\ \A a \in S, b \in (1 .. n) \ S : ColHoles(m, a) >= ColHoles(m, b)}
TopRows(m, i) == {S \in SUBSET DOMAIN m : Cardinality(S) = i /\ \A a \in S, b \in DOMAIN m \ S : RowHoles(m, a) >= RowHoles(m, b)}
ByCols(m, n, S) == [cols |-> S, rows |-> {r \in DOMAIN m : \E c \in (1 .. n) \ S : Na(m[r][c])}]
ByRows(m, n, S) == [rows |-> S, cols |-> {c \in 1 .. n : \E r \in DOMAIN m \ S : Na(m[r][c])}]

\* ---- long-run growth
RECURSIVE Leading(_, _)
Leading(d, zero) == IF d = <<>> THEN 0 ELSE IF Na(d[1]) \/ (zero /\ RSame(d[1], 0)) THEN 1 + Leading(Tail(d), zero) ELSE 0
Backwards(d) == [j \in DOMAIN d |-> d[Len(d) + 1 - j]]
RECURSIVE SumOf(_), ProdOf(_)
SumOf(d) == IF d = <<>> THEN 0 ELSE RAdd(d[Len(d)], SumOf(SubSeq(d, 1, Len(d) - 1)))
ProdOf(d) == IF d = <<>> THEN 1 ELSE RMul(RAdd(RDiv(d[Len(d)], 100), 1), ProdOf(SubSeq(d, 1, Len(d) - 1)))
\* <<"none", _>>: there is no such number; "open": not claimed
Growth(r) ==
  LET n == Len(r.data)
      lead == Leading(r.data, r.skipZero)
      trail == Leading(Backwards(r.data), r.skipZero)
      d == SubSeq(r.data, lead + 1, n - trail)
      m == Len(d)
  IN IF lead = n \/ lead > r.trimStart \/ trail > r.trimEnd THEN <<"none", 0>>
     ELSE IF r.percent THEN (IF \E j \in DOMAIN d : Na(d[j]) THEN <<"none", 0>>
                             ELSE IF r.continuous THEN <<"is", RDiv(SumOf(d), m)>>
                             ELSE <<"is", RMul(RSub(RPow(ProdOf(d), RDiv(1, m)), 1), 100)>>)
     ELSE IF m = 1 THEN <<"open", 0>>
     ELSE IF r.continuous THEN <<"is", RMul(RDiv(RLog(RDiv(d[m], d[1])), m - 1), 100)>>
     ELSE <<"is", RMul(RSub(RPow(RDiv(d[m], d[1]), RDiv(1, m - 1)), 1), 100)>>
\* ---- aggregates by name (of what is there)
Known(g) == SelectSeq(g, LAMBDA x : ~Na(x))
RECURSIVE Least(_)
Least(g) == IF Len(g) = 1 THEN g[1] ELSE LET q == Least(Tail(g)) IN IF RLt(g[1], q) THEN g[1] ELSE q
RECURSIVE Most(_)
Most(g) == IF Len(g) = 1 THEN g[1] ELSE LET q == Most(Tail(g)) IN IF RLt(q, g[1]) THEN g[1] ELSE q
Aggregate(name, g) ==
  LET k == Known(g)
  IN CASE k = <<>> -> "nan"
       [] name \in {"mean", "average"} -> RDiv(SumOf(k), Len(k))
       [] name = "min" -> Least(k) [] name = "max" -> Most(k) [] name = "first" -> k[1] [] name = "last" -> k[Len(k)]
=============================================================================
