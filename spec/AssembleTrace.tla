---------------------------- MODULE AssembleTrace ----------------------------
(* Logs of harness/r/assemble.R checked against Assemble.                   *)
EXTENDS Assemble, Trace
VARIABLES i
SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : RSame(a[k], b[k]) \/ RClose(a[k], b[k], "1e-12")

DataFails(r) ==
  LET q == r.q
      o == r.out
  IN Must("the arguments are not changed", r.kept) \cup
     IF Refused(q) THEN Must("refused: " \o (CHOOSE x \in Reasons(q) : TRUE), r.error # "")
     ELSE IF Refused2(q) THEN Must("refused: intercept or new data", r.error # "")
     ELSE Must("accepted", r.error = "") \cup
       (IF r.error # "" THEN {} ELSE
         Must("names and order", o.names = AllNames(q))
         \cup Must("numbers of variables", o.numEndo = Len(EndoNames(q)) /\ o.numExo = Len(ExoNames(q)))
         \cup Must("flags", o.hasw = (q.weights # <<>>) /\ o.hasi = q.intercept)
         \cup Must("transformations", SameSeq(o.lambdas, q.lambdas))
         \cup (IF o.names # AllNames(q) THEN {} ELSE Must("every column has the values of its name", \A j \in DOMAIN o.names : SameSeq(o.cols[j], Values(q, o.names[j]))))
         \cup Must("new data there", o.hasnew = (q.hasnew /\ ExoNames(q) # <<>>))
         \cup (IF ~o.hasnew \/ ~q.hasnew THEN {} ELSE
                Must("names of the new data", o.newnames = ExoNames(q))
                \cup (IF o.newnames # ExoNames(q) THEN {} ELSE Must("every new column has the values of its name", \A j \in DOMAIN o.newnames : SameSeq(o.newcols[j], NewValues(q, o.newnames[j])))))
         \cup (LET ap == Appended(q, r.h)
               IN IF ~ap.ok THEN Must("too few new rows are refused", o.aperr # "")
                  ELSE Must("new rows are accepted", o.aperr = "")
                       \cup (IF o.aperr # "" THEN {} ELSE
                              Must("names after appending", o.apnames = AllNames(q))
                              \cup (IF o.apnames # AllNames(q) THEN {} ELSE Must("new rows follow the sample", \A j \in DOMAIN o.apnames : SameSeq(o.apcols[j], LongValues(q, o.apnames[j], ap.n))))))
         \cup (LET rows == CompleteRows(o.cols)
               IN Must("complete rows", o.kcerr = "" /\ Len(o.kccols) = Len(o.cols) /\ \A j \in DOMAIN o.kccols : SameSeq(o.kccols[j], Map(rows, LAMBDA t : o.cols[j][t])))))

AsInts(s) == Rng(s)
PositionFails(r) ==
  IF IndexReasons(r.p, r.a) # {} THEN Must("refused: " \o (CHOOSE x \in IndexReasons(r.p, r.a) : TRUE), r.error # "")
  ELSE Must("accepted", r.error = "") \cup
    (IF r.error # "" THEN {} ELSE
      Must("partitions", Len(r.parts) = Len(PartPlaces(r.p, r.a)) /\ \A k \in DOMAIN r.parts : AsInts(r.parts[k]) = PartPlaces(r.p, r.a)[k])
      \cup Must("inner groups", {AsInts(r.inner[k]) : k \in DOMAIN r.inner} = Rng(InnerPlaces(r.p, r.a)))
      \cup Must("every inner group once", Distinct(r.inner))
      \cup Must("sizes", Rng(r.sizes) = Rng(r.p.sizes)))

Fails(r) == IF r.kind = "data" THEN DataFails(r) ELSE PositionFails(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
