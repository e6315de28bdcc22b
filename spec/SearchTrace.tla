---------------------------- MODULE SearchTrace ----------------------------
(* Logs of harness/search_drv checked against Search. PROP selects clauses. *)
EXTENDS Search, Trace
VARIABLES i
Prop == IOEnv.PROP

EnumFails(r) ==
  LET space == {m \in Models(r.parts, r.fix, 1, r.k) : r.check => HasTarget(m, r.T)}
  IN Must("no error", r.error = "")
     \cup Must("each admissible combination once", Len(r.visited) = Cardinality(space) /\ {Range(r.visited[j]) : j \in DOMAIN r.visited} = space)
     \cup Must("announced count", r.count = Cardinality(space))
     \cup Must("searched count", r.counter = Cardinality(space))

S01(r) ==
  LET space == Space(r)
  IN Must("no error", r.error = "")
     \cup Must("each admissible model once", EachOnce(r.tried, space))
     \cup Must("announced count", r.expected = Cardinality(space))
     \cup Must("searched count", r.searched = Cardinality(space))

S04(r) ==
  Must("no error", r.error = "")
  \cup Must("failure counts", FailsRight(r.tried, r.fails))
  \cup Must("searched count", r.searched = Len(r.tried))
  \cup (IF r.values THEN UNION {
         LET q == r.res[n]
             E == Entries(r.tried, q.m + 1, q.t)
             M(k) == Metric(r.tried, k, q.m + 1, q.t)
             W(k) == Weight(r.metrics[q.m + 1], M(k), r.mins[q.m + 1][q.t + 1])
         IN Must("each success reported once", AllRight(q.all, r.tried, E, M, W)) : n \in DOMAIN r.res} ELSE {})

S02(r) ==
  Must("no error", r.error = "")
  \cup UNION {
    LET q == r.res[n]
        E == Entries(r.tried, q.m + 1, q.t)
        M(k) == Metric(r.tried, k, q.m + 1, q.t)
        W(k) == Weight(r.metrics[q.m + 1], M(k), r.mins[q.m + 1][q.t + 1])
    IN Must("all models", AllRight(q.all, r.tried, E, M, W))
       \cup Must("best models", BestRight(q.bests, r.tried, E, M, r.metrics[q.m + 1], r.K)) : n \in DOMAIN r.res}
  \cup UNION {
    LET q == r.res1[n]
        E == ItemEntries(r.tried, q.m + 1, q.t, q.c + 1)
        M(k) == Metric(r.tried, k, q.m + 1, q.t)
    IN Must("best models of an item", BestRight(q.bests, r.tried, E, M, r.metrics[q.m + 1], r.K))
       \cup Must("item estimates", \A p \in DOMAIN q.bests : \E k \in E : Matches(q.bests[p], r.tried[k])
              /\ RSame(q.bests[p].mean, Mean(r.tried, k, q.t, q.c + 1)) /\ RSame(q.bests[p].var, Var(r.tried, k, q.t, q.c + 1))) : n \in DOMAIN r.res1}

S03(r) ==
  Must("no error", r.error = "")
  \cup (IF r.incl THEN UNION {
    LET q == r.res[n]
        E == Entries(r.tried, q.m + 1, q.t)
        M(k) == Metric(r.tried, k, q.m + 1, q.t)
        W(k) == Weight(r.metrics[q.m + 1], M(k), r.mins[q.m + 1][q.t + 1])
    IN Must("inclusion weights", Len(q.incl) = r.numEndo + r.numExo /\ \A v \in DOMAIN q.incl : InclusionRight(q.incl[v], r.tried, E, W, v - 1)) : n \in DOMAIN r.res} ELSE {})
  \cup UNION {
    LET q == r.res1[n]
        E == ItemEntries(r.tried, q.m + 1, q.t, q.c + 1)
        M(k) == Metric(r.tried, k, q.m + 1, q.t)
        W(k) == Weight(r.metrics[q.m + 1], M(k), r.mins[q.m + 1][q.t + 1])
    IN Must("distribution values", \A p \in DOMAIN r.points : CdfRight(q.cdf[p], r.tried, E, W, q.t, q.c + 1, r.points[p]))
       \cup (IF RSame(r.mult, 0) THEN {} ELSE Must("extreme bounds", BoundsRight(q.bounds, r.tried, E, q.t, q.c + 1, r.mult)))
       \cup (IF r.mixture THEN Must("mixture moments", MixRight(q.mix, r.tried, E, W, q.t, q.c + 1)) ELSE {}) : n \in DOMAIN r.res1}

Fails(r) ==
  IF r.site = "enum" THEN EnumFails(r)
  ELSE CASE Prop = "S01" -> S01(r) [] Prop = "S02" -> S02(r) [] Prop = "S03" -> S03(r) [] Prop = "S04" -> S04(r)

Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
