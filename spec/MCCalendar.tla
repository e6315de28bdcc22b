----------------------------- MODULE MCCalendar -----------------------------
(* The calendar and the group law of the moves, checked exhaustively within *)
(* bounds: every date from Feb 1896 to Mar 1904 (through 1900), Dec 1999 to *)
(* Mar 2001 day by day, and every frequency of a list moved by small steps. *)
EXTENDS Calendar
VARIABLES d, n, f, g, a
Week(w, m, s, e) == [k |-> "week", w |-> w, d |-> <<2000, 2, 28>>, m |-> m, s |-> s, e |-> e]
Bases == {[k |-> "cs", p |-> 3]}
  \cup {[k |-> "year", y |-> 2000, z |-> z, n |-> q, p |-> 1] : z \in {1, 2, 3}, q \in {1, 2, 3, 4, 12}}
  \cup {Week(w, m, 0, 0) : w \in {"w", "d"}, m \in {1, 2, 3}}
  \cup {Week("i", 1, s, e) : s \in 1 .. 1, e \in 0 .. 6} \cup {[Week("i", 1, 4, e) EXCEPT !.d = <<2000, 3, 2>>] : e \in 0 .. 6}
  \cup {[k |-> "day", b |-> Week("i", 1, 1, 5), n |-> q, p |-> 1] : q \in {1, 2, 5}}
  \cup {[k |-> "list", items |-> <<"A", "B", "C">>, i |-> 1, dates |-> FALSE]}
Init == \/ d \in {<<1896, 2, 20>>, <<1999, 12, 20>>} /\ n = DayNumber(d) /\ f = [k |-> "none"] /\ g = f /\ a = 0
        \/ d = <<2000, 1, 1>> /\ n = 0 /\ f \in Bases /\ g = f /\ a = 0
Next == \/ f.k = "none" /\ d' = NextDate(d) /\ n' = n + 1 /\ n < DayNumber(d) + 1 /\ (d[1] < 1904 \/ (d[1] > 1904 /\ d[1] < 2005)) /\ UNCHANGED <<f, g, a>>
        \/ f.k # "none" /\ \E h \in {-7, -2, -1, 1, 3} : a + h \in -16 .. 16 /\ g' = Move(g, h) /\ a' = a + h /\ UNCHANGED <<d, n, f>>
Spec == Init /\ [][Next]_<<d, n, f, g, a>>
CalendarRight == f.k = "none" => DayNumber(d) = n /\ DateOf(n) = d /\ ValidDate(d)
WeekdayKnown == d = <<2000, 1, 1>> => Weekday(DayNumber(d)) = 6
\* moving is a group action that Minus and Compare invert; different dates have different texts
MovesRight == f.k # "none" => /\ g = Move(f, a)
                              /\ Minus(g, f) = a /\ Compare(g, f) = Sign(a) /\ Move(g, -a) = f
                              /\ (Text(g) = Text(f)) = (a = 0) /\ ClassText(g) = ClassText(f)
InRangeAlways == (f.k = "week" /\ f.w = "i") => InRange(g.s, g.e, DayNumber(g.d))
\* no day of the range is skipped
NoGap == (f.k = "week" /\ f.w = "i") => DayNumber(Move(g, 1).d) = SnapF(g.s, g.e, DayNumber(g.d) + 1)
=============================================================================
