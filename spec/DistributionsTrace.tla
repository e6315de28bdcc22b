------------------------- MODULE DistributionsTrace -------------------------
(* Logs of harness/dist_drv checked against Distributions.                                                                           *)
EXTENDS Distributions, Trace
VARIABLES i
IsThrow(x) == ToString(x) = "\"threw\""
Tol == "1e-7"
Near(x, y) == ~IsThrow(x) /\ RClose(x, y, Tol)
Rel(x, y) == ~IsThrow(x) /\ (RSame(x, y) \/ (RIsFinite(y) /\ RLe(RAbs(RSub(x, y)), RMul("1e-6", RMax("1e-6", RAbs(y)))))) \* relative, down to 1e-6
S == INSTANCE Stats

\* the table of a probability function from lo to hi
TableOk(r, lo, hi, P(_)) ==
  LET n == RAdd(RSub(hi, lo), 1)
      x(k) == RAdd(lo, k - 1)
      v(k) == IF r.log THEN RLog(P(x(k))) ELSE P(x(k))
  IN Must("size of the table", RSame(r.size, n))
     \cup Must("table of the probabilities", r.size < 60 => IF r.plot THEN Len(r.supx) = 3 * r.size /\ \A k \in 1 .. r.size :
                         /\ \A j \in 0 .. 2 : RSame(r.supx[3 * k - j], x(k))
                         /\ RSame(r.supv[3 * k], 0) /\ RSame(r.supv[3 * k - 2], 0) /\ Near(r.supv[3 * k - 1], v(k))
                    ELSE Len(r.supx) = r.size /\ \A k \in 1 .. r.size : RSame(r.supx[k], x(k)) /\ Near(r.supv[k], v(k)))
     \cup Must("inside the storage", r.guard2)

Uni(r) ==
  LET t == r.type
      a == r.a
      disc == t \in Discrete
      m == TLCEval(IF t = "r" /\ RLt(a[1], "0.3") THEN <<>> ELSE Moments(t, a))
      varied == Len(m) = 4 /\ RGt(m[2], "1e-9")
      mode == r.props[9]
      med == r.props[8]
      pdf(x) == Pdf(t, a, x)
  IN Must("parameters outside the domain are refused, others accepted", r.threw = ~r.legal)
     \cup (IF r.threw \/ ~r.legal THEN {} ELSE
     Must("a property asked for by name", \A k \in 1 .. 9 : IF IsThrow(r.props[k]) THEN IsThrow(r.asked[k]) ELSE RSame(r.asked[k], r.props[k]))
     \cup Must("kept parameters", r.discrete = disc /\ RSame(r.given[1], a[1]) /\ RSame(r.given[2], a[2]))
     \cup Must("support", RClose(r.props[6], Min(t, a), "1e-12") /\ RClose(r.props[7], Max(t, a), "1e-12"))
     \cup Must("mean", Len(m) = 4 => Near(r.props[1], m[1]))
     \cup Must("variance", Len(m) = 4 => IF t = "t" \/ RIsFinite(m[2]) THEN Rel(r.props[2], m[2]) ELSE ~RIsFinite(r.props[2]))
     \cup Must("standard deviation", IF RIsFinite(r.props[2]) THEN Rel(r.props[3], RSqrt(r.props[2])) ELSE RSame(r.props[3], r.props[2]))
     \cup Must("skewness", varied => Near(r.props[4], m[3]))
     \cup Must("kurtosis", varied => RClose(r.props[5], m[4], IF t = "k" \/ t = "b" THEN "1e-5" ELSE "1e-6"))
     \cup Must("moments for the shape", t # "k" \/ LET f == FromRaw(r.ms[1], r.ms[2], r.ms[3], r.ms[4]) IN
                       Rel(f[2], RMul(m[2], RSq(a[2]))) /\ Near(f[3], m[3]) /\ RClose(f[4], m[4], "1e-5"))
     \cup Must("median", IF t \in {"f", "g", "b", "k"} /\ RIsNaN(med) THEN TRUE
                         ELSE /\ RGe(med, Min(t, a)) /\ RLe(med, Max(t, a))
                              /\ (t = "c" \/ IsMedian(t, a, med, Tol) \/ (t \in {"s", "a"} /\ (IsMedian(t, a, RAdd(med, 1), Tol) \/ IsMedian(t, a, RSub(med, 1), Tol)))))
     \cup Must("mode", IF RIsNaN(mode) THEN t \in {"o", "k"} \/ (t = "f" /\ RLe(a[1], 2)) \/ (t = "g" /\ RLt(a[1], 1))
                       ELSE RGe(mode, Min(t, a)) /\ RLe(mode, Max(t, a)) /\ LET top == pdf(mode) IN \A k \in DOMAIN r.xs : RLe(pdf(r.xs[k]), RMul(top, "1.0000001")))
     \cup Must("quantiles", \A k \in DOMAIN r.ps : IsQuantile(t, a, r.ps[k], r.qs[k], Tol))
     \cup Must("density of a quantile", \A k \in DOMAIN r.ps : IF t # "k" THEN RIsNaN(r.density[k]) ELSE
                      RGt(r.ps[k], 0) /\ RLt(r.ps[k], 1) => Rel(r.density[k], GldDensity(a, r.ps[k])))
     \cup Must("distribution function", \A k \in DOMAIN r.xs : LET x == r.xs[k] IN
                      IF t = "k" THEN IsThrow(r.cdf[k]) \/ (RLe(x, Min(t, a)) /\ RSame(r.cdf[k], 0)) \/ (RGe(x, Max(t, a)) /\ RSame(r.cdf[k], 1))
                      ELSE ~IsThrow(r.cdf[k]) /\ RLe(RAbs(RSub(r.cdf[k], Cdf(t, a, x))), Tol))
     \cup Must("density", \A k \in DOMAIN r.xs : LET x == r.xs[k] IN IF t = "k" THEN IsThrow(r.pdf[k]) \/ (~Possible(t, a, x) /\ RSame(r.pdf[k], 0)) ELSE Rel(r.pdf[k], pdf(x)))
     \cup Must("log of the density", \A k \in DOMAIN r.xs : LET x == r.xs[k] IN IF t = "k" THEN IsThrow(r.lpdf[k]) \/ (~Possible(t, a, x) /\ RSame(r.lpdf[k], NegInf))
                      ELSE Near(r.lpdf[k], IF Possible(t, a, x) THEN LogPdf(t, a, x) ELSE NegInf))
     \cup Must("samples", LET ok(s) == /\ \A k \in DOMAIN s : ~Outside(t, a, s[k]) /\ (disc => IsInt(s[k]))
                                       /\ IF t = "k" THEN LET q == TLCEval(RSort(s)) IN \A k \in DOMAIN q : k % 40 = 0 =>
                                                          (k > 60 => RGe(q[k], Gld(a, RDiv(k - 60, Len(q))))) /\ (k < Len(q) - 60 => RLe(q[k], Gld(a, RDiv(k + 60, Len(q)))))
                                          ELSE SampleClose(s, LAMBDA x : Cdf(t, a, x), "0.13", IF disc THEN 1 ELSE 7)
                          IN ok(r.sample) /\ ok(r.single))
     \cup Must("the same seed gives the same sample, inside the storage", r.guard /\ r.same)
     \cup (IF disc THEN Must("step of the support", r.step = 1)
                        \cup TableOk(r, RMax(r.lo, Min(t, a)), RMin(r.hi, Max(t, a)), pdf) ELSE {}))

Mix(r) ==
  LET P == r.parts
      w == r.w
      nd == Cardinality({k \in DOMAIN P : P[k].type \in Discrete})
      both == nd > 0 /\ nd < Len(P)
      m == TLCEval(MixMoments(P, w))
      lo == Least([k \in DOMAIN P |-> Min(P[k].type, P[k].a)])
      hi == Most([k \in DOMAIN P |-> Max(P[k].type, P[k].a)])
      pdf(x) == MixPdf(P, w, x)
  IN Must("weights that do not fit are refused, others accepted", r.threw = ~r.legal)
     \cup (IF r.threw \/ ~r.legal THEN {} ELSE
     Must("mean and variance", RClose(r.moments[1], m[1], Tol) /\ RClose(r.moments[2], m[2], "1e-6") /\ RClose(r.two[1], m[1], Tol) /\ RClose(r.two[2], m[2], "1e-6"))
     \cup Must("skewness and kurtosis", RClose(r.moments[3], m[3], "1e-5") /\ RClose(r.moments[4], m[4], "1e-5"))
     \cup Must("moments of normal parts", r.normal => \A k \in 1 .. 4 : RClose(r.asNormal[k], m[k], "1e-5"))
     \cup Must("support", RSame(r.min, lo) /\ RSame(r.max, hi) /\ r.isDiscrete = (nd = Len(P)))
     \cup Must("distribution function", \A k \in DOMAIN r.xs : Near(r.cdf[k], MixCdf(P, w, r.xs[k])))
     \cup Must("density", \A k \in DOMAIN r.xs : IF both THEN IsThrow(r.pdf[k]) /\ IsThrow(r.lpdf[k]) ELSE
                   LET f == pdf(r.xs[k]) IN Rel(r.pdf[k], f) /\ Near(r.lpdf[k], RLog(f)))
     \cup Must("samples", SampleClose(r.sample, LAMBDA x : MixCdf(P, w, x), "0.13", IF nd > 0 THEN 1 ELSE 7))
     \cup Must("the same seed gives the same sample, inside the storage", r.guard /\ r.same)
     \cup (IF nd < Len(P) THEN {} ELSE LET x0 == RMax(r.lo, lo)
                                           x1 == RMin(r.hi, hi)
                                       IN Must("bounds of the table", RSame(r.lo2, x0) /\ RSame(r.hi2, x1)) \cup TableOk(r, x0, x1, pdf)))

Hist(r) ==
  LET data == TLCEval(SelectSeq(r.data, LAMBDA x : ~RIsNaN(x)))
      n == Len(data)
      sorted == TLCEval(RSort(data))
      q(p) == S!Quantile(sorted, p)
      q1 == q("0.25")
      q3 == q("0.75")
      iqr == RSub(q3, q1)
      lo0 == IF RIsNaN(r.lo) THEN RMax(sorted[1], RSub(q1, RMul(iqr, r.mult))) ELSE r.lo
      hi0 == IF RIsNaN(r.hi) THEN RMin(sorted[n], RAdd(q3, RMul(iqr, r.mult))) ELSE r.hi
      legal == n > 0 /\ (r.own \/ ((RIsNaN(r.lo) \/ RIsNaN(r.hi) \/ RGt(r.hi, r.lo)) /\ RGe(hi0, lo0)))
      point == RSame(hi0, lo0)
      lo == IF point THEN RSub(lo0, "0.01") ELSE lo0
      hi == IF point THEN RAdd(hi0, "0.01") ELSE hi0
      range == RSub(hi0, lo0)
      want == IF r.bins > 0 THEN r.bins
              ELSE IF ~RIsNaN(r.step) THEN RMax(1, RNeg(RFloor(RNeg(RDiv(range, r.step)))))
              ELSE IF RLt(range, "1e-15") \/ RSame(iqr, 0) THEN 1 ELSE RMax(1, RFloor(RDiv(RMul(RPow(n, RDiv(1, 3)), range), RMul(2, iqr))))
      bins == Len(r.axis) - 1
      width == IF RIsNaN(r.step) THEN RDiv(RSub(hi, lo), bins) ELSE r.step
  IN Must("data that make no histogram are refused, others accepted", r.threw = ~legal)
     \cup Must("inside the storage", r.guard /\ r.guardData)
     \cup (IF r.threw \/ ~legal THEN {} ELSE
     Must("observations used", r.used = n)
     \cup Must("counts", r.count = Bins(data, r.axis))
     \cup (IF r.own THEN {} ELSE
           Must("limits", RClose(r.loAfter, lo, "1e-10") /\ RClose(r.hiAfter, hi, "1e-10"))
           \cup Must("number of bins", RSame(bins, want) /\ r.size = bins + 1 /\ r.binsAfter = bins)
           \cup Must("edges", \A k \in DOMAIN r.axis : RClose(r.axis[k], IF bins = 1 THEN (IF k = 1 THEN lo ELSE RMax(hi, r.axis[2])) ELSE RAdd(lo, RMul(k - 1, width)), "1e-10"))))

Emp(r) ==
  LET Q == TLCEval(r.tables[1])
      up(s) == \A k \in 1 .. Len(s) - 1 : RLe(s[k], RAdd(s[k + 1], "1e-9"))
  IN Must("distribution function", \A k \in DOMAIN r.xs : RClose(r.cdf[k], TableCdf(Q, r.xs[k]), "1e-9"))
     \cup Must("quantiles", \A k \in DOMAIN r.ps : RClose(r.qs[k], TableQuantile(Q, r.ps[k]), "1e-9"))
     \cup Must("both increase", up(r.cdf) /\ up(r.qs))
     \cup Must("ends", r.ends = <<0, 1, "-inf", "inf">>)
     \cup Must("combined", IF Len(r.tables) = 1 THEN RCloseSeq(r.combined, Q, 0) ELSE \A k \in DOMAIN r.combined : k % 2 = 1 =>
                   RLe(RAbs(RSub(RDot(TLCEval([j \in DOMAIN r.tables |-> TableCdf(r.tables[j], r.combined[k])]), r.w), Prob(k))), "1e-7"))
     \cup Must("no distribution to combine", r.refused) \cup Must("inside the storage", r.guard)

Fails(r) == CASE r.kind = "uni" -> Uni(r) [] r.kind = "mix" -> Mix(r) [] r.kind = "hist" -> Hist(r) [] r.kind = "emp" -> Emp(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
