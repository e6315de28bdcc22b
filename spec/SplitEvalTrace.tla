---------------------------- MODULE SplitEvalTrace ----------------------------
(* Evaluations of harness/eval_drv checked against SplitEval.  Every split  *)
(* comes with an estimate which was given the training rows only, and its   *)
(* predictions of the test rows.                                            *)
EXTENDS SplitEval, Scoring, Trace
VARIABLES i
\* splits of the sample
Near(a, b) == RClose(a, b, "1e-7")
JudgeSplits(r) ==
  LET n0 == TrainSize(r.N, r.ratio, r.fix)
  IN IF ~ValidSize(r.N, n0) THEN Must("an impossible training size", r.spliterror # "")
     ELSE Must("a partition of the sample", \A k \in DOMAIN r.splits : IsSplit(r.N, n0, r.splits[k].train, r.splits[k].test))
\* concatenation of f(s) for s in a sequence of numbers
Concat(ks, f(_)) == LET F[k \in 0 .. Len(ks)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o f(ks[k]) IN F[Len(ks)]
Indices(n, S) == LET F[k \in 0 .. n] == IF k = 0 THEN <<>> ELSE IF k \in S THEN Append(F[k - 1], k) ELSE F[k - 1] IN F[n]
Common(r) == Must("memory respected", r.guard) \cup Must("data not changed", r.kept) \cup Must("same seed, same result", r.repeated)

\* number of predictions of the splits `ks'
Predictions(ks, sp) == Len(Concat(ks, LAMBDA s : sp[s].test))
JudgeSur(r) ==
  LET sp == r.splits
      inv(v, j) == IF r.box THEN BoxCoxInverse(v, r.lambdas[j]) ELSE v
      wantVar == \E k \in DOMAIN r.metrics : r.metrics[k] = "crps"
      act(s, t, j) == inv(r.data[sp[s].test[t]][j], j)
      forc(s, t, j) == inv(sp[s].fc[t][j], j)
      cells(s) == (DOMAIN sp[s].test) \X (1 .. r.m)
      good(s) == /\ sp[s].ok /\ RLe(sp[s].cn, r.maxcn)
                 /\ \A c \in cells(s) : ~RIsNaN(RSub(act(s, c[1], c[2]), forc(s, c[1], c[2])))
                 /\ wantVar => \A c \in cells(s) : ~RIsNaN(RSqrt(sp[s].fv[c[1]][c[2]]))
      ok == {s \in DOMAIN sp : good(s)}
      \* near singular estimates, and forecasts at the edge of a transformation, are not claimed
      sane == \A s \in DOMAIN sp : sp[s].ok =>
                /\ RIsFinite(sp[s].cn) /\ RLt(sp[s].cn, "1e9") /\ ~Near(sp[s].cn, r.maxcn)
                /\ \A c \in cells(s) : /\ RLt(RAbs(sp[s].fc[c[1]][c[2]]), "1e9")
                                       /\ RIsNaN(forc(s, c[1], c[2])) \/ RLt(RAbs(forc(s, c[1], c[2])), "1e9")
                                       /\ RIsNaN(act(s, c[1], c[2])) \/ RLt(RAbs(act(s, c[1], c[2])), "1e9")
                                       /\ wantVar => ~Near(sp[s].fv[c[1]][c[2]], 0)
      order == Indices(Len(sp), ok)
      scores(m, j) == Concat(order, LAMBDA s : [t \in DOMAIN sp[s].test |-> Score(m, 0, act(s, t, j), forc(s, t, j), IF wantVar THEN RSqrt(sp[s].fv[t][j]) ELSE 0)])
      claimed(m, j) == /\ m = "crps" => (~r.box \/ RIsNaN(r.lambdas[j]))
                       /\ m \in {"sign", "mape", "rmspe"} => \A s \in ok : \A t \in DOMAIN sp[s].test : ~Near(act(s, t, j), 0) /\ (m = "sign" => ~Near(forc(s, t, j), 0))
      direction == \E k \in DOMAIN r.metrics : r.metrics[k] = "direction"
  IN Common(r) \cup JudgeSplits(r)
     \cup IF r.spliterror # "" THEN Must("an error without samples", r.error # "")
          ELSE IF ~sane THEN {}
          ELSE IF direction THEN Must("direction has no meaning here", r.error # "" \/ ok = {})
          ELSE IF Refused(Cardinality(ok), r.total, r.maxinv)
               THEN Must("an error with too many failures", r.error # "" \/ (ok = {} /\ Failed(0, r.total) <= r.maxinv /\ \A k \in DOMAIN r.agg : \A j \in DOMAIN r.agg[k] : RIsNaN(r.agg[k][j])))
          ELSE IF r.error # "" THEN {"no error"}
          ELSE Must("valid splits", r.valid = Cardinality(ok))
               \cup Must("number of predictions", r.counts = Predictions(order, sp))
               \cup Must("failures are counted", r.failed = Failed(Cardinality(ok), r.total))
               \cup Must("shape", Len(r.agg) = Len(r.metrics) /\ \A k \in DOMAIN r.agg : Len(r.agg[k]) = r.m)
               \cup UNION {UNION {IF claimed(r.metrics[k], j) THEN Must("average:" \o r.metrics[k], RClose(r.agg[k][j], Metric(r.metrics[k], scores(r.metrics[k], j)), "1e-7")) ELSE {} : j \in 1 .. r.m} : k \in DOMAIN r.metrics}

JudgeDc(r) ==
  LET sp == r.splits
      ok == {s \in DOMAIN sp : sp[s].ok}
      order == Indices(Len(sp), ok)
      sane == \A s \in ok : \A t \in DOMAIN sp[s].p : RIsFinite(sp[s].p[t][1]) /\ RIsFinite(sp[s].p[t][2])
      y(s, t) == r.labels[sp[s].test[t]]
      w(s, t) == IF r.weval THEN r.weights[sp[s].test[t]] ELSE 1
      sum(s, f(_, _)) == RSum([t \in DOMAIN sp[s].test |-> f(s, t)])
      over(f(_)) == RSum([k \in DOMAIN order |-> f(order[k])])
      sq(s, t) == RMul(w(s, t), RSq(RSub(y(s, t), sp[s].p[t][2])))
      number == Len(order)
      \* averages of splits, or over all predictions: the same with equal weights
      ratioOf(f(_)) == {RDiv(over(LAMBDA s : RDiv(f(s), sum(s, w))), number), RDiv(over(f), over(LAMBDA s : sum(s, w)))}
      brier == ratioOf(LAMBDA s : sum(s, sq))
      cost(t) == ratioOf(LAMBDA s : sum(s, LAMBDA a, q : RMul(w(a, q), Cost(r.tables[t], y(a, q), sp[a].p[q]))))
      onEdge == \E s \in ok : \E t \in DOMAIN sp[s].p : \E a \in DOMAIN r.tables : \E b \in DOMAIN r.tables[a] : \E c \in {1, 2} : Near(sp[s].p[t][c], r.tables[a][b][1]) \/ RLt(1, sp[s].p[t][c])
      roc(s) == [y |-> [t \in DOMAIN sp[s].test |-> y(s, t)], w |-> [t \in DOMAIN sp[s].test |-> w(s, t)], scores |-> [t \in DOMAIN sp[s].p |-> sp[s].p[t][1]],
                 eps |-> 0, pessimistic |-> r.pessimistic, hasCost |-> FALSE, lower |-> r.lower, upper |-> r.upper]
      degenerate == \E s \in ok : Degenerate(roc(s))
      auc == RDiv(over(LAMBDA s : IF IsPartial(roc(s)) THEN Area(Normalized(Curve(roc(s))), r.lower, r.upper) ELSE PairAuc(roc(s))), number)
      \* a table with the frequency of the tenths of the probabilities of what happened
      pact(s, t) == sp[s].p[t][y(s, t) + 1]
      tenth(p) == IF RLe(1, p) THEN 9 ELSE CHOOSE d \in 0 .. 9 : RLe(d, RMul(10, p)) /\ RLt(RMul(10, p), d + 1)
      edge == \E s \in ok : \E t \in DOMAIN sp[s].p : \E d \in 0 .. 10 : Near(RMul(10, pact(s, t)), d)
      freq(d, c) == over(LAMBDA s : sum(s, LAMBDA a, t : IF y(a, t) = c /\ tenth(pact(a, t)) = d THEN w(a, t) ELSE 0))
  IN Common(r) \cup JudgeSplits(r)
     \cup Must("every choice in both samples", r.spliterror = "" => \A s \in DOMAIN sp : IsStratified(r.labels, r.N, Len(sp[s].train), sp[s].train, sp[s].test))
     \cup IF r.spliterror # "" THEN Must("an error without samples", r.error # "")
          ELSE IF ~sane THEN {}
          ELSE IF Refused(number, r.total, r.maxinv) THEN Must("an error with too many failures", r.error # "")
          ELSE IF r.error # "" THEN (IF degenerate /\ r.auc THEN {} ELSE {"no error"})
          ELSE Must("valid splits", r.valid = number)
               \cup Must("size of the test sample", r.n1 = r.N - TrainSize(r.N, r.ratio, r.fix))
               \cup Must("list of errors", r.listed => Range(r.texts) = {sp[s].error : s \in (DOMAIN sp) \ ok})
               \cup (IF ~r.brier THEN {} ELSE Must("brier", \E x \in brier : RClose(r.b, x, "1e-9")))
               \cup (IF ~r.auc \/ degenerate THEN {} ELSE Must("auc", RClose(r.a, auc, "1e-9")))
               \cup (IF onEdge THEN {} ELSE Must("cost", Len(r.cost) = Len(r.tables) /\ \A t \in DOMAIN r.tables : \E x \in cost(t) : RClose(r.cost[t][1], x, "1e-9")))
               \cup (IF ~r.freq \/ edge \/ (r.weighted /\ ~r.weval) THEN {} ELSE Must("frequencies", \A d \in 0 .. 9 : \A c \in {0, 1} : RClose(r.table[d + 1][c + 1], freq(d, c), "1e-9")))
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == IF Log[i].kind = "sur" THEN JudgeSur(Log[i]) ELSE JudgeDc(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
