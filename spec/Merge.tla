-------------------------------- MODULE Merge --------------------------------
(* Why reports can be merged: what a report keeps of a set of models is      *)
(* enough to tell what the report of a larger set keeps.  Reports of parts   *)
(* are merged two at a time, in any order, until one is left.                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Models, K, Values, Items
VARIABLES val, part, pool

\* val[m]: the metric of model m (0: failed); every model has one item or none
Ok(S) == {m \in S : val[m].x > 0}
Less(a, b) == val[a].x < val[b].x \/ (val[a].x = val[b].x /\ a < b)
Ranked(S) == LET n == Cardinality(S) IN [p \in 1 .. n |-> CHOOSE m \in S : Cardinality({o \in S : Less(o, m)}) = p - 1]
First(s) == SubSeq(s, 1, IF Len(s) < K THEN Len(s) ELSE K)
Total(S) == LET F[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET m == CHOOSE m \in T : TRUE IN val[m].x + F[T \ {m}] IN F[S]
Lo(S) == IF S = {} THEN 99 ELSE CHOOSE x \in {val[m].x : m \in S} : \A m \in S : x <= val[m].x
Hi(S) == IF S = {} THEN 0 ELSE CHOOSE x \in {val[m].x : m \in S} : \A m \in S : x >= val[m].x
With(S, c) == {m \in Ok(S) : val[m].c = c}
Report(S) ==
  [expected |-> Cardinality(S), failed |-> Cardinality(S \ Ok(S)), best |-> First(Ranked(Ok(S))),
   items |-> [c \in {c \in Items : With(S, c) # {}} |->
                [best |-> First(Ranked(With(S, c))), n |-> Cardinality(With(S, c)), sum |-> Total(With(S, c)), lo |-> Lo(With(S, c)), hi |-> Hi(With(S, c))]]]

\* ---- merging looks at two reports only
Rng(s) == {s[k] : k \in DOMAIN s}
MergeBest(a, b) == First(Ranked(Rng(a) \cup Rng(b)))
MergeItem(a, b) == [best |-> MergeBest(a.best, b.best), n |-> a.n + b.n, sum |-> a.sum + b.sum,
                    lo |-> IF a.lo < b.lo THEN a.lo ELSE b.lo, hi |-> IF a.hi > b.hi THEN a.hi ELSE b.hi]
MergeReports(a, b) ==
  [expected |-> a.expected + b.expected, failed |-> a.failed + b.failed, best |-> MergeBest(a.best, b.best),
   items |-> [c \in DOMAIN a.items \cup DOMAIN b.items |->
                IF c \notin DOMAIN b.items THEN a.items[c] ELSE IF c \notin DOMAIN a.items THEN b.items[c] ELSE MergeItem(a.items[c], b.items[c])]]

Init ==
  /\ val \in [Models -> [x : Values, c : Items]]
  /\ part \in [Models -> 1 .. 3] /\ \A m \in Models : \A k \in 1 .. part[m] - 1 : \E o \in Models : o < m /\ part[o] = k   \* a division, once
  /\ pool = {[S |-> {m \in Models : part[m] = k}, rep |-> Report({m \in Models : part[m] = k})] : k \in {part[m] : m \in Models}}
Next ==
  /\ \E a, b \in pool : a # b /\ pool' = (pool \ {a, b}) \cup {[S |-> a.S \cup b.S, rep |-> MergeReports(a.rep, b.rep)]}
  /\ UNCHANGED <<val, part>>
Spec == Init /\ [][Next]_<<val, part, pool>>
Faithful == \A q \in pool : q.rep = Report(q.S)
Whole == Cardinality(pool) = 1 => \A q \in pool : q.S = Models
=============================================================================
