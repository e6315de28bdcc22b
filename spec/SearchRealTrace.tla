--------------------------- MODULE SearchRealTrace ---------------------------
(* Real searches of harness/real_drv checked against SearchReal.            *)
EXTENDS SearchReal, Trace
VARIABLES i
Prop == IOEnv.PROP
\* estimates found by a numerical search are reproduced less sharply
Tol(r) == IF r.kind = "varma" THEN "1e-5" ELSE "1e-7"
Same(r, a, b) == RSame(a, b) \/ RClose(a, b, Tol(r))
\* thresholds too near to a fact do not decide
Near(a, b) == RIsFinite(a) /\ RIsFinite(b) /\ RClose(a, b, "1e-6")
Undecided(r, m) ==
  LET ck == r.checks
  IN \/ r.simulated /\ m.valid = 0 /\ ck.minsim = 0   \* nothing valid, and nothing required
     \/ Near(m.aic, ck.maxaic) \/ Near(m.sic, ck.maxsic) \/ Near(m.r2, ck.minr2) \/ Near(m.cn, ck.maxcn)
     \/ \E t \in DOMAIN m.pred : \E h \in DOMAIN m.pred[t] : h <= Len(ck.lower) /\ (Near(m.pred[t][h], ck.lower[h][t]) \/ Near(m.pred[t][h], ck.upper[h][t]))

ByKey(r, k) == CHOOSE n \in DOMAIN r.models : Key(r.models[n]) = k
ResKey(q) == <<Range(q.endo), Range(q.exo), q.extra>>

S06(r) ==
  IF r.kind = "dc" /\ r.badtable THEN Must("an invalid cost table is refused", r.error # "")
  ELSE IF r.kind = "varma" /\ r.badpart THEN Must("an exogenous variable among the endogenous ones is refused", r.error # "")
  ELSE LET n == Len(r.models)
      adm == {k \in 1 .. n : Admitted(r, r.checks, r.models[k])}
      open == {k \in 1 .. n : Undecided(r, r.models[k])}
      listed == {ResKey(r.res[q]) : q \in DOMAIN r.res}
      has(k) == Key(r.models[k]) \in listed
  IN Must("no error", r.error = "")
     \cup Must("memory respected", r.guard) \cup Must("data not changed", r.kept)
     \cup Must("every candidate once", n = Cardinality(Candidates(r)) /\ {Key(r.models[k]) : k \in 1 .. n} = Candidates(r))
     \cup Must("announced count", r.expected = n)
     \cup Must("searched count", r.searched = n)
     \cup Must("an admitted model is reported", \A k \in adm \ open : Reports(r.models[k]) => has(k))
     \cup Must("a rejected model is not reported", \A k \in (1 .. n) \ (adm \cup open) : ~has(k))
     \cup Must("nothing else is reported", listed \subseteq {Key(r.models[k]) : k \in 1 .. n})
     \cup Must("failures are counted", open # {} \/ r.fails = n - Cardinality({k \in adm : Reports(r.models[k])}))

\* metric m of target t of model k has to be reported
S07(r) ==
  IF r.kind = "dc" /\ r.badtable THEN {}
  ELSE IF r.kind = "varma" /\ r.badpart THEN {}
  ELSE LET n == Len(r.models)
      mine(k) == {q \in DOMAIN r.res : ResKey(r.res[q]) = Key(r.models[k])}
      reported == {k \in 1 .. n : mine(k) # {}}
      mets == DOMAIN r.metrics
      cell(k, m, t) == {q \in mine(k) : r.res[q].m = m /\ r.res[q].t = t - 1}
      value(k, m, t) == IF r.models[k].met[t] = <<>> THEN "nan" ELSE r.models[k].met[t][m]
      items(k) == Range(r.models[k].items)
      cell1(k) == {q \in DOMAIN r.res1 : ResKey(r.res1[q]) = Key(r.models[k])}
      kinds == UNION {LET k == j IN
         UNION {UNION {
           LET v == value(k, m, t)  c == cell(k, m, t)  nm == r.metrics[m]
           IN IF RIsNaN(v) THEN Must("no value, no report: " \o nm, c = {})
              ELSE Must("one report per target: " \o nm, Cardinality(c) = 1)
                   \cup Must("metric: " \o nm, \A q \in c : Same(r, r.res[q].metric, v))
                   \cup Must("weight: " \o nm, \A q \in c : Same(r, r.res[q].weight, Weight(nm, r.res[q].metric, 0)))
           : t \in 1 .. r.T} : m \in mets}
         \cup (IF r.len1 = 0 THEN {} ELSE
                Must("item reported", \A m \in mets, t \in 1 .. r.T : RIsNaN(value(k, m, t)) \/
                        {r.res1[q].c : q \in {q \in cell1(k) : r.res1[q].m = m /\ r.res1[q].t = t - 1}}
                          = {x.c : x \in {x \in items(k) : x.t = t - 1 /\ x.c < r.len1 /\ ~RIsNaN(x.mean)}})
                \cup Must("item estimate", \A q \in cell1(k) : \E x \in items(k) :
                        x.c = r.res1[q].c /\ x.t = r.res1[q].t /\ Same(r, x.mean, r.res1[q].mean) /\ Same(r, x.var, r.res1[q].var))
                \cup Must("item metric", \A q \in cell1(k) : Same(r, r.res1[q].metric, value(k, r.res1[q].m, r.res1[q].t + 1))))
         : j \in reported}
  IN Must("no error", r.error = "") \cup kinds

\* run by several threads, or cancelled on the way: what is reported comes from whole estimations
S05(r) ==
  IF ~r.cancelled THEN S06(r) \cup S07(r)
  ELSE LET n == Len(r.models)
           adm == {k \in 1 .. n : Admitted(r, r.checks, r.models[k])}
           open == {k \in 1 .. n : Undecided(r, r.models[k])}
           listed == {ResKey(r.res[q]) : q \in DOMAIN r.res}
       IN S07(r)
          \cup Must("memory respected", r.guard) \cup Must("data not changed", r.kept)
          \cup Must("announced count", r.expected = n)
          \cup Must("searched count", r.searched <= n /\ (open # {} \/ r.searched = r.fails + Cardinality(listed)))
          \cup Must("a rejected model is not reported", \A k \in (1 .. n) \ (adm \cup open) : Key(r.models[k]) \notin listed)
          \cup Must("nothing else is reported", listed \subseteq {Key(r.models[k]) : k \in 1 .. n})

Fails(r) == CASE Prop = "S05" -> S05(r) [] Prop = "S06" -> S06(r) [] Prop = "S07" -> S07(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
