--------------------------- MODULE SimulatorsTrace ---------------------------
(* Logs of harness/r/simul.R checked against Simulators.                    *)
EXTENDS Simulators, Trace
VARIABLES i
Is(a, b) == RSame(a, b) \/ RClose(a, b, "1e-8")
Same(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Is(s[k], t[k])
SameRows(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Same(s[k], t[k])
Given(g, v) == g = <<>> \/ SameRows(g, v)
Sized(m, n, k) == Len(m) = n /\ \A t \in DOMAIN m : Len(m[t]) = k
Symmetric(m) == \A a, b \in DOMAIN m : Is(m[a][b], m[b][a])
Numbered(letter, k) == [j \in 1..k |-> letter \o ToString(j)]

SurFails(r) ==
  LET k == r.k - (IF r.int THEN 1 ELSE 0)
  IN IF r.k = 0 THEN {} ELSE Must("accepted", r.error = "") \cup (IF r.error # "" THEN {} ELSE
       Must("the same seed, the same sample", r.again)
       \cup Must("sizes", Sized(r.y, r.obs, r.g) /\ Sized(r.x, r.obs, r.k) /\ Sized(r.e, r.obs, r.g) /\ Sized(r.coef, r.k, r.g) /\ Sized(r.sigma, r.g, r.g))
       \cup Must("the parameters that were given", Given(r.gsigma, r.sigma) /\ Given(r.gcoef, r.coef) /\ r.rint = r.int)
       \cup Must("names", r.yn = Numbered("Y", r.g) /\ r.cd = r.yn /\ r.xn = (IF r.int THEN <<"Intercept">> ELSE <<>>) \o Numbered("X", k) /\ r.cn = r.xn)
       \cup (IF ~(Sized(r.y, r.obs, r.g) /\ Sized(r.x, r.obs, r.k) /\ Sized(r.e, r.obs, r.g) /\ Sized(r.coef, r.k, r.g)) THEN {} ELSE
              Must("intercept", ~r.int \/ \A t \in 1..r.obs : RSame(r.x[t][1], 1))
              \cup Must("y is x and the coefficients, and the errors", \A t \in 1..r.obs, j \in 1..r.g : Is(r.y[t][j], RAdd(RDot(r.x[t], Column(r.coef, j)), r.e[t][j])))))

NonZero(m) == \E a, b \in DOMAIN m : ~RSame(m[a][b], 0)
VarmaFails(r) ==
  LET s == r.sp[4]
      D == IF r.seasonal THEN r.sp[2] ELSE 0
      off == r.d + D * s
      z == TLCEval(Differenced(Differenced(r.y, 1, r.d), s, D))
      arset == LagSet(r.p, r.sp[1], IF r.randar /\ r.randma THEN s ELSE 1)
      maset == LagSet(r.q, r.sp[3], IF r.randar /\ r.randma THEN s ELSE 1)
      longest == Max({Len(r.ar), Len(r.ma)})
      drawn(list, S) == Max(S) <= Len(list) /\ \A l \in DOMAIN list : NonZero(list[l]) = (l \in S)
      sized == Sized(r.y, r.obs, r.g) /\ Sized(r.e, r.obs, r.g) /\ (r.k = 0 \/ Sized(r.x, r.obs, r.k))
  IN IF ~r.seasonal /\ r.sp[2] > 0 /\ r.error # "" THEN {} ELSE
     Must("accepted", r.error = "") \cup (IF r.error # "" THEN {} ELSE
       Must("the same seed, the same sample", r.again)
       \cup Must("sizes", sized /\ Sized(r.sigma, r.g, r.g))
       \cup Must("the parameters that were given", Given(r.gsigma, r.sigma) /\ Given(r.gexo, r.exo) /\ (r.gint = <<>> \/ Same(r.gint, r.int))
              /\ (r.randar \/ (Len(r.ar) = Len(r.gar) /\ \A l \in DOMAIN r.gar : SameRows(r.ar[l], r.gar[l]))) /\ (r.randma \/ (Len(r.ma) = Len(r.gma) /\ \A l \in DOMAIN r.gma : SameRows(r.ma[l], r.gma[l]))))
       \cup Must("intercept", Len(r.int) = (IF r.hasi THEN r.g ELSE 0))
       \cup Must("lags of the drawn coefficients", (~r.randar \/ drawn(r.ar, arset)) /\ (~r.randma \/ drawn(r.ma, maset)))
       \cup Must("labels", ~r.lab \/ (r.labels = [t \in 1..r.obs |-> ToString(1989 + t)] /\ r.elabels = r.labels))
       \cup (IF ~sized THEN {} ELSE Must("the history follows the process", \A t \in (longest + 1)..Len(z), a \in 1..r.g :
              Is(z[t][a], Step(z, r.e, r.x, off, r.ar, r.ma, r.exo, r.int, t, a)))))

Round(x) == LET f == RFloor(x) IN IF RLt(RSub(x, f), "0.5") THEN {f} ELSE IF RGt(RSub(x, f), "0.5") THEN {RAdd(f, 1)} ELSE {f, RAdd(f, 1)}
BinFails(r) ==
  IF r.error # "" THEN Must("accepted, or not enough observations of a kind", r.error \in {"Failed to generate enough positive observations. Try increasing the sampleFactor argument.", "Failed to generate enough negative observations. Try increasing the sampleFactor argument."})
  ELSE LET sized == Len(r.y) = r.obs /\ Sized(r.x, r.obs, r.k) /\ Len(r.p1) = r.obs /\ Len(r.coef) = r.k
           z(t) == RDot(r.x[t], r.coef)
       IN Must("the same seed, the same sample", r.again)
          \cup Must("sizes", sized)
          \cup Must("the coefficients that were given", r.gcoef = <<>> \/ Same(r.gcoef, r.coef))
          \cup Must("weights", IF r.mw = 1 THEN r.nullw ELSE Len(r.w) = r.obs /\ \A t \in DOMAIN r.w : \E u \in 1..r.mw : RSame(r.w[t], u))
          \cup Must("type", r.numeric)
          \cup Must("zeros and ones", \A t \in DOMAIN r.y : r.y[t] \in {0, 1})
          \cup Must("share of ones", \E c \in Round(RMul(r.obs, r.pp)) : RSame(c, RSum(r.y)))
          \cup Must("names", r.xn = <<"Intercept">> \o Numbered("X", r.k - 1))
          \cup (IF ~sized THEN {} ELSE
                 Must("intercept", \A t \in 1..r.obs : RSame(r.x[t][1], 1))
                 \cup Must("probability of one", \A t \in 1..r.obs : Is(r.p1[t], IF r.probit THEN RNormCdf(z(t)) ELSE Logistic(z(t)))))

NormalFails(r) ==
  LET sized == Len(r.cols) = r.p /\ \A j \in DOMAIN r.cols : Len(r.cols[j]) = r.obs
  IN Must("accepted", r.error = "") \cup (IF r.error # "" THEN {} ELSE
       Must("the same seed, the same sample", r.again)
       \cup Must("sizes", sized /\ Len(r.mu) = r.p /\ Sized(r.sigma, r.p, r.p))
       \cup Must("the parameters that were given", (r.mk # "given" \/ Same(r.gmu, r.mu)) /\ (r.sk # "given" \/ SameRows(r.gsigma, r.sigma)))
       \cup Must("standard values by default", (r.mk # "null" \/ \A j \in DOMAIN r.mu : RSame(r.mu[j], 0)) /\ (r.sk # "null" \/ \A a, b \in DOMAIN r.sigma : RSame(r.sigma[a][b], IF a = b THEN 1 ELSE 0)))
       \cup Must("a covariance", Symmetric(r.sigma) /\ \A a \in DOMAIN r.sigma : RGt(r.sigma[a][a], 0))
       \cup (IF ~sized \/ r.obs < 1000 THEN {} ELSE
              Must("means", \A j \in 1..r.p : MeanNear(r.cols[j], r.mu[j], r.sigma[j][j]))
              \cup Must("covariances", \A a, b \in 1..r.p : CovNear(r.cols[a], r.cols[b], r.sigma[a][b], r.sigma[a][a], r.sigma[b][b]))))

Fails(r) == CASE r.kind = "sur" -> SurFails(r) [] r.kind = "varma" -> VarmaFails(r) [] r.kind = "bin" -> BinFails(r) [] r.kind = "normal" -> NormalFails(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
