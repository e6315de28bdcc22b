---------------------------- MODULE MetricsTrace -----------------------------
(* Logs of harness/score_drv (metric) and search_drv (set) against Metrics. *)
EXTENDS Metrics, Trace
VARIABLES i
Name(r) == Must("name names its metric", r.right) \cup Must("printed as documented", r.printed = r.expected)
Unknown(r) == Must("unknown name refused", ~r.in /\ ~r.out)
Weights(r) ==
  LET D == DOMAIN r.x
  IN Must("direction", r.positive = Positive(r.name))
     \cup Must("weight", \A k \in D : RClose(r.w[k], Weight(r.name, r.x[k], r.min), "1e-9"))
     \cup Must("relative size of weights", \A k \in D : RGt(Weight(r.name, r.x[k], r.min), "1e-250") => RClose(RDiv(r.w[k], Weight(r.name, r.x[k], r.min)), 1, "1e-9"))
     \cup Must("never a smaller weight", \A k, l \in D : Better(r.name, r.x[k], r.x[l]) => RGe(r.w[k], r.w[l]))
     \cup Must("metric of weight", \A k \in D : (RGt(r.w[k], "1e-250") /\ RLt(r.w[k], "1e250")) =>
                                      RClose(r.back[k], FromWeight(r.name, r.w[k], r.min), "1e-9"))
     \cup Must("round trip", \A k \in D : (RGt(r.w[k], "1e-250") /\ RLt(r.w[k], "1e250")) => RClose(r.back[k], r.x[k], "1e-7"))
     \cup Must("variance when needed", r.name \in NeedsVariance => r.variance)
Crps(r) == Must("value", RClose(r.value, IF r.log THEN CrpsLogNormal(r.y, r.m, r.s) ELSE CrpsNormal(r.y, r.m, r.s), "1e-8"))
\* what a search stores for its models
Stored(r) ==
  Must("no error", r.error = "")
  \cup Must("weight of the target's reference",
            \A q \in DOMAIN r.res : \A k \in DOMAIN r.res[q].all :
               LET e == r.res[q].all[k]
                   w == Weight(r.metrics[r.res[q].m + 1], e.metric, r.mins[r.res[q].m + 1][r.res[q].t + 1])
               IN RSame(e.weight, w) \/ RClose(e.weight, w, "1e-10"))
Judge(r) ==
  IF "site" \in DOMAIN r THEN Stored(r)
  ELSE CASE r.kind = "name" -> Name(r)
         [] r.kind = "unknown" -> Unknown(r)
         [] r.kind = "weight" -> Weights(r)
         [] r.kind = "crps" -> Crps(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Judge(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
