---------------------------- MODULE MomentsTrace ----------------------------
(* Histories of RunningMoments objects: after every operation the object    *)
(* reports the batch moments of the components it received.                 *)
EXTENDS Moments, Trace
VARIABLES i, part, cfg

Step(r) ==
  IF r.kind = "new" THEN [a \in 1 .. r.n |-> <<>>]
  ELSE IF r.kind # "op" THEN part
  ELSE CASE r.op = "push" -> IF RIsNaN(r.x) THEN part ELSE [part EXCEPT ![r.a] = Append(@, Value(r.x, r.w))]
         [] r.op = "combine" -> [part EXCEPT ![r.a] = @ \o part[r.b]]
         [] r.op = "summary" -> IF RIsNaN(r.x) THEN part ELSE [part EXCEPT ![r.a] = Append(@, [w |-> r.w, x |-> r.x, v |-> r.v, s |-> r.s, k |-> r.k])]
         [] r.op = "reset" -> [part EXCEPT ![r.a] = <<>>]
\* the numbers of the record agree with the batch p; scale is the size of the deviations of the data
Agree(r, p, m, scale) ==
  IF Empty(p) THEN Must("an empty part has no moments", RIsNaN(r.mean) /\ RIsNaN(r.var) /\ RIsNaN(r.skew) /\ RIsNaN(r.kurt))
  ELSE Must("mean", RClose(r.mean, MeanOf(p), "1e-10"))
       \cup Must("variance", m < 2 \/ RLe(RAbs(RSub(r.var, Mu2(p))), RMul("1e-9", RAdd(RSq(scale), Mu2(p)))))
       \cup Must("skewness", m < 3 \/ RLt(Mu2(p), RMul("1e-2", RSq(scale))) \/ RLe(RAbs(RSub(r.skew, Skew(p))), "1e-6"))
       \cup Must("kurtosis", m < 4 \/ RLt(Mu2(p), RMul("1e-2", RSq(scale))) \/ RLe(RAbs(RSub(r.kurt, Kurt(p))), "1e-6"))
Fails(r, p) ==
  CASE r.kind = "new" -> {}
    [] r.kind = "op" -> Agree(r, p[r.a], cfg, r.scale)
                        \cup Must("number of observations", (\E j \in DOMAIN p[r.a] : ~RLt(0, p[r.a][j].w)) \/ r.count = Len(p[r.a]))
                        \cup Must("sum of the weights", IF Empty(p[r.a]) THEN RSame(r.sumw, 0) ELSE RClose(RDiv(r.sumw, SumW(p[r.a])), 1, "1e-10"))
    [] r.kind = "batch" ->
         LET idx == SelectSeq([j \in DOMAIN r.data |-> j], LAMBDA j : ~RIsNaN(r.data[j]))
             q == [j \in DOMAIN idx |-> Value(r.data[idx[j]], r.weights[idx[j]])]
         IN Agree(r, q, 4, 1) \cup Must("single moments", \A j \in 1 .. 4 : RSame(r.one[j], <<r.mean, r.var, r.skew, r.kurt>>[j]))
Init == i = Start /\ part = <<>> /\ cfg = 0
Next == /\ i <= Len(Log)
        /\ LET r == Log[i]
               p == Step(r)
           IN /\ part' = p
              /\ cfg' = IF r.kind = "new" THEN r.moments ELSE cfg
              /\ LET f == Fails(r, p) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_<<i, part, cfg>>
=============================================================================
