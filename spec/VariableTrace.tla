--------------------------- MODULE VariableTrace ---------------------------
(* Logs of harness/var_drv checked against Variables.                       *)
EXTENDS Variables, Trace
VARIABLES i

Text1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE Must("name", r.name2 = r.name) \cup Must("values", SameData(r.data, r.data2)) \cup Must("start", r.start2 = r.start)
       \cup Must("fields", r.fields2 = r.fields) \cup Must("equal to the original", r.equal)
Trim1(r) ==
  LET t == Trimmed([start |-> r.start, data |-> r.data])
  IN Must("trimmed values", SameData(r.data2, t.data)) \cup Must("start of the trimmed variable", r.start2 = t.start)
     \cup Must("range", IF Valid(r.data) = {} THEN ~r.ok ELSE r.ok /\ r.range = <<First(r.data) - 1, Last(r.data) - 1>>)
     \cup Must("interior gaps", Valid(r.data) # {} => r.gaps = (\E j \in First(r.data) .. Last(r.data) : Na(r.data[j])))
Table1(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET t == Table(r.vars)
       IN Must("first date", r.start = t.start) \cup Must("number of dates", r.n = t.n)
          \cup Must("names", r.names = [j \in DOMAIN r.vars |-> r.vars[j].name])
          \cup Must("values at their dates", r.n = t.n /\ Len(r.cols) = Len(t.cols) /\ \A j \in DOMAIN t.cols : SameData(r.cols[j], t.cols[j]))
          \cup Must("range of a column", \A j \in DOMAIN r.ranges :
                 IF Valid(t.cols[j]) = {} THEN r.ranges[j][1] > r.ranges[j][2]
                 ELSE r.ranges[j] = <<First(t.cols[j]) - 1, Last(t.cols[j]) - 1>> /\ r.gaps[j] = (\E k \in First(t.cols[j]) .. Last(t.cols[j]) : Na(t.cols[j][k])))
Conv(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET v == [start |-> r.start, data |-> r.data]
           t == CASE r.to = "week" -> Weekly(v, r.arg)
                  [] r.to = "multi" -> MultiDaily(v, r.arg, r.fromEnd)
                  [] r.to = "month" -> YearPart(v, r.arg, TRUE)
                  [] r.to = "part" -> YearPart(v, r.arg, FALSE)
       IN Must("observations of the periods", Len(r.groups) = Len(t.groups) /\ \A j \in DOMAIN t.groups : SameData(r.groups[j], t.groups[j]))
          \cup Must("aggregates in order", r.out = [j \in DOMAIN r.groups |-> 1000 + j])
          \cup Must("first period", r.start2 = t.start) \cup Must("name", r.name2 = r.name)
ToDaily(r) ==
  IF r.error # "" THEN {"no error"}
  ELSE LET days == IF r.start.k = "list" THEN [j \in DOMAIN r.days |-> DayNumber(r.days[j])]
                   ELSE [j \in DOMAIN r.data |-> DayNumber(Move(r.start, j - 1).d)]
           t == Daily(days, r.data)
       IN Must("name", r.name2 = r.name) \cup Must("every value at its date", SameData(r.data2, t.data)) \cup Must("first date", r.start2.w = "d" /\ r.start2.m = 1 /\ r.start2.d = DateOf(t.start))
Fails(r) == CASE r.kind = "text" -> Text1(r) [] r.kind = "trim" -> Trim1(r) [] r.kind = "table" -> Table1(r) [] r.kind = "conv" -> Conv(r) [] r.kind = "daily" -> ToDaily(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
