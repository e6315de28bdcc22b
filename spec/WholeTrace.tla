----------------------------- MODULE WholeTrace -----------------------------
(* Logs of harness/r/whole.R checked against Whole.                         *)
EXTENDS Whole, Trace
VARIABLES i
FailTotal(fails) == LET F[k \in 0 .. Len(fails)] == IF k = 0 THEN 0 ELSE LET x == F[k - 1] IN x + fails[k].n IN F[Len(fails)]
SameTable(a, b) == \A k \in DOMAIN a : \A j \in DOMAIN a[k] : Same(a[k][j], b[k][j])
Fails(r) ==
  LET asked == Asked(r)
      right == {Id(r.alone[k]) : k \in Right(r)}
      open == {Id(r.alone[k]) : k \in Undecided(r)}
      found == Found(r)
      known == {Id(r.alone[k]) : k \in DOMAIN r.alone}
  IN IF r.error # "" THEN Must("the search runs", asked = {})
     ELSE Must("log has all models", asked \subseteq known)
      \cup Must("number of models", r.expected = Cardinality(asked) /\ r.searched = r.expected)
      \cup Must("only models asked for", found \subseteq asked)
      \cup Must("no model is missing", right \subseteq found \cup open)
      \cup Must("no model that fails or is not admitted", found \subseteq right \cup open)
      \cup Must("number of failures", open # {} \/ r.failed = Cardinality({k \in DOMAIN r.alone : Id(r.alone[k]) \in asked /\ k \notin Right(r)}))
      \cup Must("reasons of failures", FailTotal(r.fails) = r.failed)
      \cup Must("every model once", Len(r.found) = Cardinality(found))
      \cup Must("metrics as estimated alone", \A k \in DOMAIN r.found : Id(r.found[k]) \in known => Metrics(r, Facts(r, Id(r.found[k])), r.found[k]))
      \cup Must("items as estimated alone", \A k \in DOMAIN r.found : Id(r.found[k]) \in known => Items(r, Facts(r, Id(r.found[k])), r.found[k]))
      \cup Must("summaries run", \A k \in DOMAIN r.summaries : r.summaries[k].err = "")
      \cup Must("summaries are the models", \A k \in DOMAIN r.summaries : (r.summaries[k].err = "" /\ Id(r.summaries[k]) \in known) =>
             LET s == r.summaries[k]
                 m == Facts(r, Id(s))
             IN ~m.sure \/ (SameTable(s.met, m.met) /\ SameTable(s.mean, m.mean) /\ SameTable(s.var, m.var)))
      \cup Must("transformations of the summaries", \A k \in DOMAIN r.summaries : r.summaries[k].err = "" =>
             LET s == r.summaries[k] IN Len(s.lambdas) = Len(s.wants) /\ \A j \in DOMAIN s.wants : Same(s.lambdas[j], s.wants[j]))
      \cup Must("tested summary", r.tested = "" \/ \E k \in DOMAIN r.alone : ~r.alone[k].sure)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
