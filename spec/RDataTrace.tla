----------------------------- MODULE RDataTrace -----------------------------
(* Logs of harness/r/tdata.R checked against RData.                         *)
EXTENDS RData, Trace
VARIABLES i
Snap(f, forward) == IF forward THEN SnapF(f.s, f.e, DayNumber(f.d)) ELSE SnapB(f.s, f.e, DayNumber(f.d))
Start0(f, forward) == IF f.k = "week" /\ f.w = "i" THEN [f EXCEPT !.d = DateOf(Snap(f, forward))]
                      ELSE IF f.k = "day" /\ f.b.w = "i" THEN [f EXCEPT !.b.d = DateOf(Snap(f.b, forward))]
                      ELSE f
Date1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET f == Start0(r.f, r.forward) a == Move(f, r.h) b == Move(a, r.h2)
       IN Must("date", r.made = f) \cup Must("text", r.text = Text(f)) \cup Must("class", r.class = ClassText(f))
          \cup Must("text and class", r.both = <<Text(f), ClassText(f)>>) \cup Must("parsed date", r.back = f)
          \cup Must("printed date", r.print = "Frequency: " \o Text(f) \o " (" \o TypeName(f) \o ": " \o ClassText(f) \o ") NULL" \/ r.print = "Frequency: " \o Text(f) \o " (" \o TypeName(f) \o ": " \o ClassText(f) \o ")")
          \cup Must("next date", r.nx = a) \cup Must("next date of the next", r.n2 = b /\ r.t2 = Text(b))
          \cup Must("interval", r.minus = <<r.h, -r.h, r.h2, 0>>)
          \cup Must("sequence of a length", r.seq = [k \in 1 .. r.n |-> Text(Move(f, r.by * (k - 1)))])
Seq1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET f == Start0(r.f, r.forward) s == Range(f, r.h, r.by) IN Must("sequence of a range", r.seq = [k \in DOMAIN s |-> Text(s[k])])
Var1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET f == Start0(r.f, r.forward) texts == [k \in DOMAIN r.data |-> Text(Move(f, k - 1))]
       IN Must("values", SameData(r.data, r.nums) /\ SameData(r.data, r.df)) \cup Must("length", r.len = Len(r.data)) \cup Must("dates of the rows", r.rows = texts)
          \cup Must("row names", r.rows2 = texts) \cup Must("name", r.cols = <<r.name>>) \cup Must("start", r.start = f /\ r.f2 = f)
Heads == <<"Start_Index", "End_Index", "Has_Missing", "Interpolated_Count", "Lags_Leads">>
Bind1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET f == Start0(r.f, r.forward)
           t == Bound([j \in DOMAIN r.vars |-> [start |-> Move(f, r.vars[j].off), data |-> r.vars[j].data, name |-> r.vars[j].name]], r.interp, r.adj, r.exo, r.hor)
       IN Must("dates", r.rows = [k \in 1 .. t.n |-> Text(Move(t.start, k - 1))]) \cup Must("names", r.names = t.names)
          \cup Must("values at their dates", Len(r.cols) = Len(t.cols) /\ \A j \in DOMAIN t.cols : Len(r.cols[j]) = t.n /\ \A k \in 1 .. t.n : RClose(r.cols[j][k], t.cols[j][k], "1e-12"))
          \cup Must("first date", r.start = t.start) \cup Must("information", r.info = t.info /\ r.heads = Heads)
Conv1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE IF r.to = "daily"
  THEN LET days == IF r.f.k = "list" THEN [j \in DOMAIN r.days |-> DayNumber(r.days[j])] ELSE [j \in DOMAIN r.data |-> DayNumber(Move(r.f, j - 1).d)]
           t == Daily(days, r.data)
       IN Must("every value at its date", SameData(r.out, t.data)) \cup Must("first date", r.start = [k |-> "week", w |-> "d", d |-> DateOf(t.start), m |-> 1, s |-> 0, e |-> 0])
          \cup Must("name", r.name = "V")
  ELSE LET v == [start |-> r.f, data |-> r.data]
           t == CASE r.to = "week" -> Weekly(v, r.arg) [] r.to = "multi" -> MultiDaily(v, r.arg, r.fromEnd) [] r.to = "month" -> YearPart(v, r.arg, TRUE) [] r.to = "part" -> YearPart(v, r.arg, FALSE)
       IN (IF r.named = "" THEN Must("observations of the periods", Len(r.groups) = Len(t.groups) /\ \A j \in DOMAIN t.groups : SameData(r.groups[j], t.groups[j]))
                                \cup Must("aggregates in order", r.out = [j \in DOMAIN t.groups |-> 1000 + j])
           ELSE Must("named aggregates", Len(r.out) = Len(t.groups) /\ \A j \in DOMAIN t.groups : (r.named \in {"min", "max"} /\ Known(t.groups[j]) = <<>>) \/ RClose(r.out[j], Aggregate(r.named, t.groups[j]), "1e-12")))
          \cup Must("first period", r.start = t.start) \cup Must("name", r.name = "V") \cup Must("variable", r.isvar)
SetOf(s) == {s[k] : k \in DOMAIN s}
Na1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET m == r.data
           is(s, w) == SetOf(s.cols) = w.cols /\ SetOf(s.rows) = w.rows
           sized(s) == Len(s.cols) = Cardinality(SetOf(s.cols)) /\ Len(s.rows) = Cardinality(SetOf(s.rows)) /\ s.nRows = r.R - Len(s.rows) /\ s.nCols = r.C - Len(s.cols)
           has(w) == \E k \in DOMAIN r.got : is(r.got[k], w)
           weight(s) == s.nRows * (IF r.weight = 1 THEN s.nCols ELSE s.nCols * s.nCols)
           byc == {ByCols(m, r.C, S) : S \in UNION {TopCols(m, r.C, k) : k \in SetOf(r.ci)}}
           byr == {ByRows(m, r.C, S) : S \in UNION {TopRows(m, k) : k \in SetOf(r.ri)}}
       IN Must("nothing is missing in what is left", \A k \in DOMAIN r.got : \A a \in (1 .. r.R) \ SetOf(r.got[k].rows), b \in (1 .. r.C) \ SetOf(r.got[k].cols) : ~Na(m[a][b]))
          \cup Must("sizes", \A k \in DOMAIN r.got : sized(r.got[k]))
          \cup Must("most missing first", \A k \in DOMAIN r.got : \E w \in byc \cup byr : is(r.got[k], w))
          \cup Must("all combinations (columns)", \A q \in SetOf(r.ci) : \E S \in TopCols(m, r.C, q) : LET w == ByCols(m, r.C, S) IN Cardinality(w.rows) = r.R \/ has(w))
          \cup Must("all combinations (rows)", \A q \in SetOf(r.ri) : \E S \in TopRows(m, q) : LET w == ByRows(m, r.C, S) IN Cardinality(w.cols) = r.C \/ has(w))
          \cup Must("best first", \A k \in DOMAIN r.got : k > 1 => weight(r.got[k - 1]) >= weight(r.got[k]))
Growth1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET g == Growth(r) IN Must("growth", IF g[1] = "none" THEN RIsNaN(r.got) ELSE IF g[1] = "open" THEN TRUE ELSE (RIsNaN(g[2]) /\ RIsNaN(r.got)) \/ RClose(r.got, g[2], "1e-9"))
Bad1(r) == Must("invalid date is refused", r.refused) \cup Must("different frequencies are refused", r.mixed)
Fails(r) == CASE r.kind = "date" -> Date1(r) [] r.kind = "seq" -> Seq1(r) [] r.kind = "var" -> Var1(r) [] r.kind = "bind" -> Bind1(r) [] r.kind = "conv" -> Conv1(r)
              [] r.kind = "na" -> Na1(r) [] r.kind = "growth" -> Growth1(r) [] r.kind = "bad" -> Bad1(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
