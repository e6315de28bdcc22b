----------------------------- MODULE DataTrace ------------------------------
(* Logs of harness/data_drv checked against Data.                           *)
EXTENDS Data, Trace
VARIABLES i

SameRow(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : RSame(a[k], b[k])
SameRows(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : SameRow(a[k], b[k])
IdOf(row) == row[2] - 99   \* rows are numbered 100, 101, ... in column 2
ClassOf(row) == row[1] + 1
\* every observation is in one part, once, with all its values
Partition(r, tr, te) ==
  LET all == tr \o te
  IN /\ Len(all) = Len(r.rows)
     /\ {IdOf(all[k]) : k \in DOMAIN all} = DOMAIN r.rows
     /\ \A k \in DOMAIN all : SameRow(all[k], r.rows[IdOf(all[k])])
TrainCounts(r, tr) == [c \in DOMAIN r.counts |-> Cardinality({k \in DOMAIN tr : ClassOf(tr[k]) = c})]
Split(r) ==
  LET n == Len(r.rows)
      bad == IF r.discrete THEN CanFail(r.counts, n, r.num, r.den, r.fix) ELSE \E n0 \in TrainSizes(n, r.num, r.den, r.fix) : ~SizeOk(n, n0)
  IN Must("storage respected", r.guard) \cup Must("data not changed", r.kept)
     \cup IF r.error THEN Must("a possible split is made", bad)
          ELSE Must("every observation in exactly one part", \A k \in DOMAIN r.train : Partition(r, r.train[k], r.test[k]))
               \cup Must("training size", \A k \in DOMAIN r.train : Len(r.train[k]) \in TrainSizes(n, r.num, r.den, r.fix) /\ SizeOk(n, Len(r.train[k])))
               \cup Must("shares of the classes", r.discrete => \A k \in DOMAIN r.train : ValidSplit(r.counts, TrainCounts(r, r.train[k]), n, r.num, r.den, r.fix))
               \cup Must("any observation can be in either part", r.more > 0 /\ Len(r.train) > 0 => \A k \in DOMAIN r.rows :
                            LET c == r.rows[k][1] + 1
                                free == IF r.discrete THEN \E j \in DOMAIN r.train : LET u == TrainCounts(r, r.train[j])[c] IN 0 < u /\ u < r.counts[c] ELSE Len(r.train[1]) > 0 /\ Len(r.test[1]) > 0
                            IN free => r.tested[k] > 0 /\ r.tested[k] < r.more)
               \cup Must("same seed, same split", Len(r.train) = 4 /\ \A k \in 1..2 : SameRows(r.train[k], r.train[k + 2]) /\ SameRows(r.test[k], r.test[k + 2]))

OneBased(s) == [k \in DOMAIN s |-> s[k] + 1]
DatasetOf(r) ==
  LET m == Len(r.rows[1])
      cols == IF r.select THEN OneBased(r.cols) ELSE [k \in 1..m |-> k]
      idx == IF r.hasNan THEN UsableRows(r.rows, cols) ELSE [k \in DOMAIN r.rows |-> k]
  IN Must("storage respected", r.guard) \cup Must("data not changed", r.kept)
     \cup Must("no error", r.error = "")
     \cup Must("usable rows, in order, unchanged", SameRows(r.out, Selected(r.rows, idx, cols)))
     \cup Must("shape", r.n = Len(idx) /\ r.m = Len(cols))

Series(r) ==
  LET cols == IF r.select THEN OneBased(r.cols) ELSE [k \in DOMAIN r.vars |-> k]
      empty == \E v \in DOMAIN r.vars : ValidDates(r.vars[v]) = {}
      from == IF r.hasNan THEN CommonFrom(r.vars, cols) ELSE 1
      to == IF r.hasNan THEN CommonTo(r.vars, cols) ELSE r.T
      gaps == {v \in DOMAIN r.vars : HasGaps(r.vars[v])}
  IN Must("storage respected", r.guard) \cup Must("data not changed", r.kept)
     \cup IF r.dataError # "" THEN Must("a variable without data is rejected, only", r.hasNan /\ empty)
          ELSE Must("a variable without data is rejected", ~(r.hasNan /\ empty))
               \cup (IF r.hasNan
                     THEN Must("first and last usable date", r.ranges = [v \in DOMAIN r.vars |-> <<FirstValid(r.vars[v]) - 1, LastValid(r.vars[v]) - 1>>])
                          \cup Must("interior gaps", r.hasMissing = (gaps # {}) /\ Len(r.withMissing) = Cardinality(gaps) /\ {r.withMissing[k] + 1 : k \in DOMAIN r.withMissing} = gaps)
                     ELSE {})
               \cup IF r.error # "" THEN Must("no error", from > to)
                    ELSE Must("common range", (r.hasNan \/ r.select) => IF from > to THEN r.from > r.to ELSE r.from = from - 1 /\ r.to = to - 1)
                         \cup Must("values in the common range", from <= to =>
                                   SameRows(r.out, [k \in DOMAIN cols |-> [t \in 1..((to - from) + 1) |-> r.vars[cols[k]][(from + t) - 1]]]))
Fails(r) == CASE r.kind = "split" -> Split(r) [] r.kind = "dataset" -> DatasetOf(r) [] r.kind = "series" -> Series(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
