--------------------------- MODULE CalendarTrace ---------------------------
(* Logs of harness/freq_drv checked against Calendar.                       *)
EXTENDS Calendar, Trace
VARIABLES i
\* the date before every move, first the initial one
RECURSIVE Path(_, _, _)
Path(f, moves, j) == <<f>> \o (IF j > Len(moves) THEN <<>> ELSE Path(Move(f, moves[j]), moves, j + 1))
Start0(r) == IF r.f.k = "week" /\ r.f.w = "i"
             THEN [r.f EXCEPT !.d = DateOf(IF r.forward THEN SnapF(r.f.s, r.f.e, DayNumber(r.f.d)) ELSE SnapB(r.f.s, r.f.e, DayNumber(r.f.d)))]
             ELSE IF r.f.k = "day" /\ r.f.b.w = "i"
             THEN [r.f EXCEPT !.b.d = DateOf(IF r.forward THEN SnapF(r.f.b.s, r.f.b.e, DayNumber(r.f.b.d)) ELSE SnapB(r.f.b.s, r.f.b.e, DayNumber(r.f.b.d)))]
             ELSE r.f
Moves(r) ==
  LET p == Path(Start0(r), r.moves, 1) n == Len(p)
  IN IF r.error # "" THEN {"no error"} ELSE Must("moved date", Len(r.seen) = n /\ \A j \in 1 .. n : r.seen[j] = p[j])
     \cup Must("text", Len(r.text) = n /\ \A j \in 1 .. n : r.text[j] = Text(p[j]))
     \cup Must("steps between", \A j, k \in 1 .. n : r.minus[j][k] = Minus(p[j], p[k]))
     \cup Must("order", \A j, k \in 1 .. n : r.cmp[j][k] = Compare(p[j], p[k]))
Mixed(r) == Must("frequencies of different classes are not comparable", (ClassText(r.a) = ClassText(r.b)) \/ (r.cmp = "error" /\ r.minus = "error"))
Round(r) ==
  LET f == Move(Start0(r), r.steps) t == Text(f) c == ClassText(f)
  IN Must("no error", r.error = "")
     \cup Must("text", r.text = t)
     \cup Must("class text", r.class = c)
     \cup Must("parsed date", r.back = f)
     \cup Must("equal to the original", r.equal)
     \cup Must("text of the parsed date", r.text2 = t /\ r.class2 = c)
Garbage(r) == r.rejected \/ (r.text2 = r.text3 /\ r.class2 = r.class3)
\* ranges of days of a week; days outside say how far the range is in either direction
Week(r) ==
  LET n == RangeLength(r.s, r.e)
      in(v) == ((v - r.s) + 7) % 7 < n
      away(v, step) == CHOOSE k \in 0 .. 6 : in((v + 7 + step * k) % 7) /\ \A j \in 0 .. k - 1 : ~in((v + 7 + step * j) % 7)
  IN Must("length of the range", r.length = n)
     \cup Must("in the range", \A v \in 0 .. 6 : r.in[v + 1] = in(v) /\ r.out[v + 1] = ~in(v) /\ r.out2[v + 1] = ~in(v))
     \cup Must("steps to the range", \A v \in 0 .. 6 : in(v) \/ (r.forward[v + 1] = away(v, 1) /\ r.back[v + 1] = -away(v, -1)))
     \cup Must("distance of days", r.to = ((r.e - r.s) + 7) % 7 /\ r.from = ((r.s - r.e) + 7) % 7)
     \cup Must("neighbours", r.next = (r.s + 1) % 7 /\ r.previous = (r.s + 6) % 7)
Fails(r) == CASE r.site = "week" -> Week(r)
              [] r.site = "moves" -> Moves(r)
              [] r.site = "mixed" -> Mixed(r)
              [] r.site = "round" -> Round(r)
              [] r.site = "garbage" -> Must("accepted text is a date again", Garbage(r))
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
