----------------------------- MODULE StatsTrace ------------------------------
(* Logs of harness/stat_drv (stat) checked against Stats.                   *)
EXTENDS Stats, Trace
VARIABLES i
Tol == "1e-10"
\* relative to a size of the values
Near(a, b, size) == IF RIsNaN(a) \/ RIsNaN(b) THEN RIsNaN(a) /\ RIsNaN(b)
                    ELSE IF RIsInf(a) \/ RIsInf(b) THEN RSame(a, b)
                    ELSE RLe(RAbs(RSub(a, b)), RMul(Tol, RMax(size, "1e-280")))
Cells(m) == (1 .. m) \X (1 .. m)

Correlation(r) ==
  LET m == Len(r.cols)
      pair(j, k) == IF r.nan THEN Common(r.cols[j], r.cols[k]) ELSE [q \in DOMAIN r.cols[j] |-> q]
      a(j, k) == LET x == At(r.cols[j], pair(j, k)) IN IF r.spearman THEN Ranks(x, FALSE) ELSE x
      b(j, k) == a(k, j)
      size(j, k) == RMul(AbsMax(a(j, k)), AbsMax(b(j, k)))
      right(j, k) ==
        IF r.cov THEN Near(r.result[j][k], Cov(a(j, k), b(j, k), r.adjust), size(j, k))
        ELSE (Varies(a(j, k)) /\ Varies(b(j, k))) => Near(r.result[j][k], Corr(a(j, k), b(j, k)), RMul(Amplify(a(j, k)), Amplify(b(j, k))))
  IN Must("storage respected", r.guard) \cup Must("data not changed", r.kept) \cup Must("no error", r.error = "")
     \cup IF r.error # "" THEN {}
          ELSE Must("shape", Len(r.result) = m /\ \A j \in 1 .. m : Len(r.result[j]) = m)
               \cup Must("values", \A c \in Cells(m) : (r.lower \/ c[1] <= c[2]) => right(c[1], c[2]))
               \cup Must("symmetric", r.lower => \A c \in Cells(m) : RSame(r.result[c[1]][c[2]], r.result[c[2]][c[1]]))
               \cup Must("number of observations", r.nan => \A c \in Cells(m) : r.counts[c[1]][c[2]] = Len(pair(c[1], c[2])))
Distances(r) ==
  LET m == Len(r.cols)
      right(j, k) ==
        LET idx == IF r.nan THEN Common(r.cols[j], r.cols[k]) ELSE [q \in DOMAIN r.cols[j] |-> q]
            s == At(r.cols[j], idx)
            t == At(r.cols[k], idx)
            ranked(x) == IF r.method \in {"spearman", "absspearman"} THEN Ranks(x, FALSE) ELSE x
        IN IF r.method \in {"euclidean", "manhattan"} THEN Near(r.result[j][k], DistOf(r.method, s, t), RMul(Len(s), RMax(AbsMax(s), AbsMax(t))))
           ELSE IF r.method = "maximum" THEN RSame(r.result[j][k], DistOf(r.method, s, t))
           ELSE (Varies(ranked(s)) /\ Varies(ranked(t))) =>
                  \* compared by their squares: the root magnifies rounding errors near zero
                  /\ ~RIsNaN(r.result[j][k])
                  /\ Near(RSq(r.result[j][k]), RSq(DistOf(r.method, s, t)), RMul(Amplify(ranked(s)), Amplify(ranked(t))))
  IN Must("storage respected", r.guard) \cup Must("data not changed", r.kept)
     \cup Must("values", \A c \in Cells(m) : c[1] # c[2] => right(c[1], c[2]))
Ranking(r) == Must("storage respected", r.guard) \cup Must("data not changed", r.kept)
              \cup Must("values", \A j \in DOMAIN r.cols : r.result[j] = Ranks(r.cols[j], r.asc))

Types == <<"min", "max", "mean", "var", "varpop", "std", "stdpop", "skew", "skewpop", "kurt", "kurtpop", "last", "first">>
TypeOk(type, v, x) == \* x without missing values
  CASE type \in {"skew", "kurt"} -> TRUE   \* not implemented
    [] x = <<>> -> RIsNaN(v) \/ RIsInf(v)
    [] type = "min" -> RSame(v, MinS(x))
    [] type = "max" -> RSame(v, MaxS(x))
    [] type = "mean" -> Near(v, Mean(x), AbsMax(x))
    [] type = "var" -> Near(v, Var(x, TRUE), RSq(AbsMax(x)))
    [] type = "varpop" -> Near(v, Var(x, FALSE), RSq(AbsMax(x)))
    [] type = "std" -> Near(RSq(v), Var(x, TRUE), RSq(AbsMax(x)))
    [] type = "stdpop" -> Near(RSq(v), Var(x, FALSE), RSq(AbsMax(x)))
    [] type = "skewpop" -> (Varies(x) /\ RLt(Amplify(x), 1000)) => Near(v, Skew(x), RMul(10, RPow(Amplify(x), 3)))
    [] type = "kurtpop" -> (Varies(x) /\ RLt(Amplify(x), 1000)) => Near(v, Kurt(x), RMul(10, RPow(Amplify(x), 4)))
    [] type = "last" -> RSame(v, x[Len(x)])
    [] type = "first" -> RSame(v, x[1])
Describe(r) ==
  LET x == r.x
      n == Len(x)
      A == AbsMax(x)
      steady == Varies(x) /\ RLt(Amplify(x), 1000)
      sorted == RSort(x)
      res == TrendNormal(x, r.trend[1], r.trend[2])
  IN Must("data not changed", r.kept)
     \cup Must("extremes", IF n = 0 THEN RIsNaN(r.min) /\ RIsNaN(r.max) /\ RIsNaN(r.minSorted) /\ RIsNaN(r.maxSorted)
                           ELSE RSame(r.min, MinS(x)) /\ RSame(r.max, MaxS(x)) /\ RSame(r.minSorted, MinS(x)) /\ RSame(r.maxSorted, MaxS(x)))
     \cup Must("sum", Near(r.sum, IF n = 0 THEN 0 ELSE RSum(x), RMul(n, A)))
     \cup Must("mean", Near(r.mean, Mean(x), A) /\ Near(r.mean2, Mean(x), A))
     \cup Must("variance", n > 1 => Near(r.variance, Var(x, r.sample), RSq(A)) /\ Near(r.variance2, Var(x, r.sample), RSq(A)))
     \cup Must("skewness", (n > 2 /\ steady) => Near(r.skew, IF r.sample THEN SampleSkew(x) ELSE Skew(x), RMul(10, RPow(Amplify(x), 3))))
     \cup Must("kurtosis", (n > 3 /\ steady) => Near(r.kurt, IF r.sample THEN SampleKurt(x) ELSE Kurt(x), RMul(100, RPow(Amplify(x), 4))))
     \cup Must("sums of squares", n > 0 => Near(r.ss, RSum(Pow(x, 2)), RMul(n, RSq(A))) /\ Near(r.css, CM(x, 2), RMul(n, RSq(A))))
     \cup Must("quantiles", \A k \in DOMAIN r.taus : Near(r.quantiles[k], Quantile(sorted, r.taus[k]), A))
     \cup Must("trend", n > 1 => Near(res[1], 0, RMul(1000, A)) /\ Near(res[2], 0, RMul(10000, A)))
     \cup Must("statistics of an array", n > 0 => \A k \in DOMAIN r.array : TypeOk(Types[k], r.array[k], x))
     \cup Must("statistics of an array with missing values", n > 0 => \A k \in DOMAIN r.arrayNan : TypeOk(Types[k], r.arrayNan[k], NoNan(r.z)))
SeqNear(s, t, size) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Near(s[k], t[k], size)
Filter(r) == LET size == RMul(1000, RMul(AbsMax(r.x), RMax(1, RPow(RSum([k \in DOMAIN r.c |-> RAbs(r.c[k])]), Len(r.x)))))
             IN Must("storage respected", r.guard)
                \cup Must("autoregressive filter", SeqNear(r.ar, ArFilter(r.x, r.c), size))
                \cup Must("moving average filter", SeqNear(r.ma, MaFilter(r.x, r.c, r.centered), size))
Decomposition(r) ==
  LET trend == MaFilter(r.x, r.c, TRUE)
      seas == Seasons(r.x, trend, r.s, r.mult)
      size == RMul(100, AbsMax(r.x))
  IN Must("storage respected", r.guard)
     \cup Must("trend", SeqNear(r.trend, trend, size))
     \cup Must("seasonal factors", SeqNear(r.means, seas, size) /\ SeqNear(r.seasonal, [t \in DOMAIN r.x |-> seas[SeasonOf(t, r.s)]], size))
     \cup Must("remainder", SeqNear(r.resid, [t \in DOMAIN r.x |-> Combine(r.mult, Combine(r.mult, r.x[t], trend[t]), seas[SeasonOf(t, r.s)])], size))
Plus1(s) == [k \in DOMAIN s |-> s[k] + 1]
Whole(r) ==
  LET m == Len(r.cols)
      n == Len(r.cols[1])
      col(j) == IF r.nan THEN NoNan(r.cols[j]) ELSE r.cols[j]
      row(q) == [j \in 1 .. m |-> r.cols[j][q]]
      all == LET F[j \in 0 .. m] == IF j = 0 THEN <<>> ELSE F[j - 1] \o r.cols[j] IN F[m]
      used == IF r.nan THEN NoNan(all) ELSE all
      Extreme(s, v, k, best) == RSame(v, best) /\ (RIsFinite(best) => k = FirstAt(s, best) - 1)
      varOk(v, s) == Len(s) > 1 => Near(v, Var(s, r.sample), RSq(AbsMax(s)))
      meanOk(v, s) == Near(v, Mean(s), AbsMax(s))
      ri == IF r.ri = <<>> THEN [q \in 1 .. n |-> q] ELSE Plus1(r.ri)
      ci == IF r.ci = <<>> THEN [q \in 1 .. m |-> q] ELSE Plus1(r.ci)
      A == AbsMax(used)
  IN Must("data not changed", r.kept)
     \cup Must("extremes of rows", \A q \in 1 .. n : Extreme(row(q), r.rmax[q], r.rmaxI[q], MaxS(row(q))) /\ Extreme(row(q), r.rmin[q], r.rminI[q], MinS(row(q))))
     \cup Must("extremes of columns", \A j \in 1 .. m : Extreme(r.cols[j], r.cmax[j], r.cmaxI[j], MaxS(r.cols[j])) /\ Extreme(r.cols[j], r.cmin[j], r.cminI[j], MinS(r.cols[j])))
     \cup Must("extremes", RSame(r.max, MaxS(all)) /\ RSame(r.min, MinS(all)))
     \cup Must("mean", meanOk(r.mean, used))
     \cup Must("variance", varOk(r.variance, used) /\ (Len(used) > 0 => meanOk(r.meanV, used)))
     \cup Must("variances of columns", \A j \in 1 .. m : varOk(r.cvar[j], col(j)) /\ varOk(r.cvars[j], col(j)) /\ varOk(r.cvars2[j], col(j)))
     \cup Must("means of columns", \A j \in 1 .. m : meanOk(r.cmeans[j], col(j)) /\ (Len(col(j)) > 0 => meanOk(r.cmean[j], col(j)) /\ meanOk(r.cmeans2[j], col(j))))
     \cup Must("number of observations", n > 1 => \A j \in 1 .. m : r.ccount[j] = Len(col(j)))
     \cup Must("sums", ~r.nan => /\ SeqNear(r.rsum, [k \in DOMAIN ri |-> RSum(row(ri[k]))], RMul(m, A))
                                 /\ SeqNear(r.csum, [k \in DOMAIN ci |-> RSum(r.cols[ci[k]])], RMul(n, A))
                                 /\ SeqNear(r.cmeanI, [k \in DOMAIN ci |-> RMean(r.cols[ci[k]])], A))
     \cup Must("covariances", (~r.nan /\ n > 1) => \A a, b \in DOMAIN ci : Near(r.covI[a][b], Cov(r.cols[ci[a]], r.cols[ci[b]], r.sample), RSq(A)))
Fails(r) == CASE r.kind = "corr" -> Correlation(r) [] r.kind = "dist" -> Distances(r) [] r.kind = "rank" -> Ranking(r)
              [] r.kind = "desc" -> Describe(r) [] r.kind = "filter" -> Filter(r) [] r.kind = "season" -> Decomposition(r) [] r.kind = "matrix" -> Whole(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
