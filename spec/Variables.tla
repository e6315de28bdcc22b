----------------------------- MODULE Variables -----------------------------
(* Series of values at consecutive dates (Calendar): a variable has start,  *)
(* data.  NA is the text "nan".                                             *)
EXTENDS Calendar, FReal

Na(x) == RIsNaN(x)
DateAt(v, j) == Move(v.start, j - 1)      \* date of data[j]
SameData(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : RSame(a[j], b[j])

\* ---- trimming, ranges
Valid(data) == {j \in DOMAIN data : ~Na(data[j])}
First(data) == CHOOSE j \in Valid(data) : \A k \in Valid(data) : j <= k
Last(data) == CHOOSE j \in Valid(data) : \A k \in Valid(data) : k <= j
Trimmed(v) == IF Valid(v.data) = {} THEN v
              ELSE [start |-> Move(v.start, First(v.data) - 1), data |-> SubSeq(v.data, First(v.data), Last(v.data))]

\* ---- a table of variables: the smallest range of dates that has all of them
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Table(vs) ==
  LET base == vs[1].start
      off(j) == Minus(vs[j].start, base)
      from == MinOf({off(j) : j \in DOMAIN vs})
      to == MaxOf({off(j) + Len(vs[j].data) : j \in DOMAIN vs})
  IN [start |-> Move(base, from), n |-> to - from,
      cols |-> [j \in DOMAIN vs |-> [k \in 1 .. to - from |-> LET q == k - (off(j) - from) IN IF q >= 1 /\ q <= Len(vs[j].data) THEN vs[j].data[q] ELSE "nan"]]]

\* ---- conversions: the groups of observations, one for every period, in order
RECURSIVE GroupBy(_, _, _)
\* data split where the key (of the position) changes
GroupBy(data, Key(_), j) ==
  IF j > Len(data) THEN <<>>
  ELSE LET rest == GroupBy(data, Key, j + 1)
       IN IF j < Len(data) /\ Key(j) = Key(j + 1) THEN <<<<data[j]>> \o rest[1]>> \o Tail(rest) ELSE <<<<data[j]>>>> \o rest
DayOf(v, j) == DayNumber(v.start.d) + j - 1     \* v is daily
YearStart(y) == DayNumber(<<y, 1, 1>>)
PartOfYear(n, x) ==
  LET d == DateOf(n) L == IF Leap(d[1]) THEN 366 ELSE 365 IN ((n - YearStart(d[1])) * x) \div L + 1
PartByMonth(n, x) == LET d == DateOf(n) IN IF x = 24 THEN 2 * (d[2] - 1) + (IF d[3] > 15 THEN 2 ELSE 1) ELSE (d[2] - 1) \div (12 \div x) + 1
\* [start, groups]
Weekly(v, first) ==
  LET off == (Weekday(DayOf(v, 1)) - first) % 7
      padded == [j \in 1 .. off |-> "nan"] \o v.data      \* days of the first week before the series are missing
  IN [start |-> [v.start EXCEPT !.w = "w", !.d = DateOf(DayOf(v, 1) - off)],
      groups |-> GroupBy(padded, LAMBDA j : (j - 1) \div 7, 1)]
MultiDaily(v, k, fromEnd) ==
  [start |-> [v.start EXCEPT !.m = k],
   groups |-> GroupBy(v.data, LAMBDA j : IF fromEnd THEN -((Len(v.data) - j) \div k) ELSE (j - 1) \div k, 1)]
YearPart(v, x, monthBased) ==
  LET p(j) == IF monthBased THEN PartByMonth(DayOf(v, j), x) ELSE PartOfYear(DayOf(v, j), x)
      y(j) == DateOf(DayOf(v, j))[1]
  IN [start |-> [k |-> "year", y |-> y(1), z |-> 1, n |-> x, p |-> p(1)],
      groups |-> GroupBy(v.data, LAMBDA j : <<y(j), p(j)>>, 1)]
\* daily data of dates: every date its value, missing between
Daily(days, data) ==
  LET from == MinOf({days[j] : j \in DOMAIN days})
      to == MaxOf({days[j] : j \in DOMAIN days})
  IN [start |-> from, data |-> [q \in 1 .. to - from + 1 |-> IF \E j \in DOMAIN days : days[j] = from + q - 1
                                   THEN data[CHOOSE j \in DOMAIN days : days[j] = from + q - 1] ELSE "nan"]]
=============================================================================
