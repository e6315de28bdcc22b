------------------------------ MODULE Calendar ------------------------------
(* Dates of every frequency as points of an integer line.  A date is a      *)
(* record with field k:                                                     *)
(*  "cs"   p                       cross-section position                   *)
(*  "year" y, z, n, p              part p of n of the z-year period at y    *)
(*  "week" w, d, m, s, e           w in {"w","d","i"}: (multi-)weekly,      *)
(*         (multi-)daily, days s..e of the week; d = <<year,month,day>>     *)
(*  "day"  b, n, p                 part p of n of the week-based date b     *)
(*  "list" items, i                item i (0-based; outside: beyond list)   *)
EXTENDS Integers, Sequences, TLC

\* ---- the Gregorian calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLength(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> IF Leap(y) THEN 29 ELSE 28
ValidDate(d) == d[2] \in 1 .. 12 /\ d[3] >= 1 /\ d[3] <= MonthLength(d[1], d[2])
\* days since 1 March of year 0
DayNumber(d) ==
  LET yy == IF d[2] <= 2 THEN d[1] - 1 ELSE d[1]
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * ((d[2] + 9) % 12) + 2) \div 5 + d[3] - 1
  IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy
DateOf(n) ==
  LET era == n \div 146097
      doe == n - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, doy - (153 * mp + 2) \div 5 + 1>>
Weekday(n) == (n + 3) % 7        \* 0 is Sunday
\* the calendar step by step, against which the closed forms are checked
NextDate(d) == IF d[3] < MonthLength(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
               ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>

\* ---- days of a part of the week
RangeLength(s, e) == ((e - s) % 7) + 1
InRange(s, e, n) == (Weekday(n) - s) % 7 < RangeLength(s, e)
\* the first day in the range from n on (forward) or back
RECURSIVE SnapF(_, _, _), SnapB(_, _, _)
SnapF(s, e, n) == IF InRange(s, e, n) THEN n ELSE SnapF(s, e, n + 1)
SnapB(s, e, n) == IF InRange(s, e, n) THEN n ELSE SnapB(s, e, n - 1)
InWeekOrd(s, e, n) == LET off == (Weekday(n) - s) % 7 IN RangeLength(s, e) * ((n - off + 3) \div 7) + off
\* the day of ordinal o
InWeekDay(s, e, o) == LET L == RangeLength(s, e) IN LET wk == o \div L IN 7 * wk + s - 3 + (o % L)

\* ---- the line
RECURSIVE Ord(_)
Ord(f) ==
  CASE f.k = "cs" -> f.p
    [] f.k = "year" -> f.n * (f.y \div f.z) + f.p - 1
    [] f.k = "week" -> (CASE f.w = "w" -> DayNumber(f.d) \div (7 * f.m)
                          [] f.w = "d" -> DayNumber(f.d) \div f.m
                          [] f.w = "i" -> InWeekOrd(f.s, f.e, DayNumber(f.d)))
    [] f.k = "day" -> f.n * Ord(f.b) + f.p - 1
    [] f.k = "list" -> f.i
RECURSIVE Move(_, _)
Move(f, h) ==
  CASE f.k = "cs" -> [f EXCEPT !.p = @ + h]
    [] f.k = "year" -> LET q == f.p - 1 + h IN [f EXCEPT !.y = @ + f.z * (q \div f.n), !.p = (q % f.n) + 1]
    [] f.k = "week" -> (CASE f.w = "w" -> [f EXCEPT !.d = DateOf(DayNumber(f.d) + 7 * f.m * h)]
                          [] f.w = "d" -> [f EXCEPT !.d = DateOf(DayNumber(f.d) + f.m * h)]
                          [] f.w = "i" -> [f EXCEPT !.d = DateOf(InWeekDay(f.s, f.e, InWeekOrd(f.s, f.e, DayNumber(f.d)) + h))])
    [] f.k = "day" -> LET q == f.p - 1 + h IN [f EXCEPT !.b = Move(f.b, q \div f.n), !.p = (q % f.n) + 1]
    [] f.k = "list" -> [f EXCEPT !.i = @ + h]
\* a is b moved by Minus(a, b) (for two dates of one lattice)
Minus(a, b) == IF a.k = "day" THEN a.n * (Ord(a.b) - Ord(b.b)) + a.p - b.p ELSE Ord(a) - Ord(b)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Compare(a, b) == Sign(Minus(a, b))

\* ---- text
Pad(x, n) == LET t == ToString(x) IN IF n = 2 THEN (IF x < 10 THEN "0" \o t ELSE t) ELSE (IF x < 10 THEN "000" \o t ELSE IF x < 100 THEN "00" \o t ELSE IF x < 1000 THEN "0" \o t ELSE t)
Iso(d) == Pad(d[1], 4) \o Pad(d[2], 2) \o Pad(d[3], 2)
DayName == <<"sun", "mon", "tue", "wed", "thu", "fri", "sat">>
RECURSIVE Text(_)
Text(f) ==
  CASE f.k = "cs" -> ToString(f.p)
    [] f.k = "year" -> IF f.n = 1 THEN ToString(f.y)
                       ELSE ToString(f.y) \o (IF f.z = 1 /\ f.n = 4 THEN "Q" ELSE IF f.z = 1 /\ f.n = 12 THEN "M" ELSE ":") \o ToString(f.p)
    [] f.k = "week" -> Iso(f.d)
    [] f.k = "day" -> Text(f.b) \o ":" \o ToString(f.p)
    [] f.k = "list" -> IF f.i >= 0 /\ f.i < Len(f.items) THEN f.items[f.i + 1]
                       ELSE "out_item:" \o ToString(IF f.i < 0 THEN f.i ELSE f.i - Len(f.items) + 1)
RECURSIVE JoinItems(_, _)
JoinItems(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o (IF i = Len(s) THEN "" ELSE ";" \o JoinItems(s, i + 1))
RECURSIVE ClassText(_)
ClassText(f) ==
  CASE f.k = "cs" -> "cs"
    [] f.k = "year" -> (IF f.z = 1 THEN (CASE f.n = 1 -> "y" [] f.n = 4 -> "q" [] f.n = 12 -> "m" [] OTHER -> "y" \o ToString(f.n))
                        ELSE IF f.n = 1 THEN "z" \o ToString(f.z) ELSE "x" \o ToString(f.n) \o "z" \o ToString(f.z))
    [] f.k = "week" -> (IF f.w = "i" THEN "i:" \o DayName[f.s + 1] \o "-" \o DayName[f.e + 1]
                        ELSE f.w \o (IF f.m = 1 THEN "" ELSE ToString(f.m)))
    [] f.k = "day" -> (CASE f.n = 24 -> "ho|" [] f.n = 1440 -> "mi|" [] f.n = 86400 -> "se|" [] OTHER -> "da" \o ToString(f.n) \o "|") \o ClassText(f.b)
    [] f.k = "list" -> (IF f.dates THEN "Ld:" ELSE "Ls:") \o JoinItems(f.items, 1)
=============================================================================
