---------------------------- MODULE ReportTrace ----------------------------
(* Logs of harness/r/merge.R checked against Report.                        *)
EXTENDS Report, Trace
VARIABLES i
Sum(r, f(_)) == LET F[k \in 0 .. Len(r.parts)] == IF k = 0 THEN 0 ELSE LET x == F[k - 1] IN x + f(r.parts[k]) IN F[Len(r.parts)]
Fails(r) ==
  IF r.kind = "error" THEN Must("no error", FALSE)
  ELSE IF r.kind = "tally" THEN IF r.error # "" THEN Must("no error", FALSE) ELSE WrongTally(r.parts, r.merged, Must)
  ELSE Must("the merged report is there", r.merged.error = "")
    \cup Must("parts have the models of the whole", Sum(r, LAMBDA q : q.expected) = r.expected)
    \cup (IF r.merged.error # "" THEN {} ELSE Wrong(r, r.merged, LAMBDA n, ok : Must("merged: " \o n, ok)))
    \cup Wrong(r, r.joint, LAMBDA n, ok : Must("one search: " \o n, ok))
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
