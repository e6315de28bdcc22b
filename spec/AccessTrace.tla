----------------------------- MODULE AccessTrace -----------------------------
(* Logs of harness/r/access.R checked against Access.                       *)
EXTENDS Access, Trace
VARIABLES i
Is(a, b, tol) == RSame(a, b) \/ (RIsFinite(a) /\ RIsFinite(b) /\ RClose(a, b, tol))
Same(s, t, tol) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Is(s[k], t[k], tol)
SameCols(s, t, tol) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Same(s[k], t[k], tol)
Tight == "1e-9"

YName(m, j) == m.names[j]
CallFails(r) ==
  LET m == r.m
      eqs == Equations(m, r.sel)
  IN Must("the model is not changed", r.kept) \cup
     IF ~Exist(m, eqs) \/ (r.kind = "exogenous" /\ Len(eqs) # 1) THEN Must("an unknown equation is refused", r.error # "")
     ELSE Must("accepted", r.error = "") \cup
       (IF r.error # "" THEN {} ELSE
         CASE r.kind = "resid" -> Must(IF r.std THEN "standardized residuals" ELSE "residuals", r.matrix /\ SameCols([k \in DOMAIN eqs |-> Resid(m, eqs[k], r.std, r.pear)], r.val, "1e-7"))
                \cup Must("names of equations", r.vnames = [k \in DOMAIN eqs |-> YName(m, eqs[k])])
           [] r.kind = "fitted" -> Must("fitted values", SameCols([k \in DOMAIN eqs |-> Fitted(m, eqs[k])], r.val, Tight))
                \cup Must("names of equations", r.vnames = [k \in DOMAIN eqs |-> YName(m, eqs[k])])
           [] r.kind = "endogenous" -> Must("endogenous data", r.matrix /\ SameCols([k \in DOMAIN eqs |-> m.Y[eqs[k]]], r.val, Tight))
           [] r.kind = "exogenous" -> LET x == XOf(m, eqs[1]) f == Free(m, eqs[1])
                IN Must("exogenous data", r.matrix /\ Len(r.val) = Len(f) /\ \A k \in DOMAIN f : Same([t \in 1..m.n |-> x[t][k]], r.val[k], Tight))
                   \cup Must("names of explanatory variables", f = <<>> \/ r.vnames = [k \in DOMAIN f |-> m.xnames[f[k]]])
           [] r.kind = "coef" ->
                IF r.rest /\ \E j \in 1..m.g, v \in DOMAIN m.coefs[1] : Restricted(m, j, v)
                THEN Must("coefficients that are not restricted", r.islist /\ SameCols([k \in DOMAIN eqs |-> CoefOf(m, eqs[k])], r.val, Tight))
                     \cup Must("names of equations", r.vnames = [k \in DOMAIN eqs |-> YName(m, eqs[k])])
                ELSE Must("coefficients", r.matrix /\ SameCols([k \in DOMAIN eqs |-> m.coefs[eqs[k]]], r.val, Tight))
                     \cup Must("names of equations", r.vnames = [k \in DOMAIN eqs |-> YName(m, eqs[k])]))

\* the model itself: observed = explained + residual
OwnFails(m) == IF m.method = "binary" THEN {} ELSE
   Must("observed values are explained values and residuals", \A j \in 1..m.g, t \in 1..m.n : Is(RSub(m.Y[j][t], RDot(m.X[t], m.coefs[j])), m.resid[j][t], "1e-7"))

Shift(c) == LET known == Only(c, LAMBDA k : ~RIsNaN(c[k]))
                low == TLCEval(LET s == RSort(known) IN s[1])
            IN [k \in DOMAIN c |-> RSub(c[k], low)]
PlotFails(r) ==
  LET m == r.m
      j == r.eq
      shifted == Same(Shift(Fitted(m, j)), IF r.x = <<>> THEN <<>> ELSE Shift(r.x), "1e-7")
      std == TLCEval(Resid(m, j, TRUE, TRUE))
      lev == TLCEval(Laid(m, Leverage(m, j)))
      cook(c) == \E v \in Spreads(m, j) : Same(Laid(m, CookWith(m, j, v)), c, "1e-7")
  IN IF r.type \in {4, 6} /\ m.w # <<>> THEN Must("Cook's distance of weighted observations is refused", r.error # "")
     ELSE IF r.type \in {4, 6} /\ Free(m, j) = <<>> THEN {}
     ELSE Must("accepted", r.error = "") \cup
       (IF r.error # "" THEN {} ELSE
         CASE r.type = 1 -> Must("plot: fitted values", shifted) \cup Must("plot: residuals", Same(Resid(m, j, FALSE, TRUE), r.y, "1e-7"))
           [] r.type = 2 -> Must("plot: standardized residuals", Same(std, r.y, "1e-7"))
           [] r.type = 3 -> Must("plot: fitted values", shifted) \cup Must("plot: scale", Same([t \in DOMAIN std |-> RSqrt(RAbs(std[t]))], r.y, "1e-7"))
           [] r.type = 4 -> Must("plot: Cook's distance", cook(r.x))
           [] r.type = 5 -> Must("plot: leverage", Same(lev, r.x, "1e-7")) \cup Must("plot: standardized residuals", Same(std, r.y, "1e-7"))
           [] r.type = 6 -> Must("plot: ratio of leverage", Same([t \in DOMAIN lev |-> RDiv(lev[t], RSub(1, lev[t]))], r.x, "1e-7")) \cup Must("plot: Cook's distance", cook(r.y)))

Metric(r, name, j) == r.metrics[j][Place(r.mnames, name)]
ValueFails(r) == Must("log-likelihood and criteria", Len(r.values) = 3 /\ RSame(r.values[1], Metric(r, "logL", 1)) /\ RSame(r.values[2], Metric(r, "aic", 1)) /\ RSame(r.values[3], Metric(r, "sic", 1)))

ProjectFails(r) == Must("accepted", r.error = "") \cup (IF r.error # "" THEN {} ELSE
   Must("projections", SameCols(r.pm, r.means, Tight) /\ SameCols(r.pv, r.vars, Tight) /\ SameCols(r.newx, r.vnewx, Tight)))

SplitFails(r) ==
  LET m == r.m
      S == LagSet(r.p[1], r.p[4], r.s)
      Q == LagSet(r.p[3], r.p[6], r.s)
      one == IF r.hasi THEN 1 ELSE 0
      nx == Len(m.coefs[1]) - m.g * (Cardinality(S) + Cardinality(Q)) - one
      from == m.g * Cardinality(S)
      near(given, want) == Len(given) >= Len(want) /\ \A l \in DOMAIN given : \A a, b \in 1..m.g :
           Is(given[l][a][b], IF l \in DOMAIN want THEN want[l][a][b] ELSE 0, Tight)
      e(t, a) == RSub(m.Y[a][t], RSum(<<Lagged(r.ar, m.Y, t, a), IF r.hasi THEN r.int[a] ELSE 0,
                   IF nx = 0 THEN 0 ELSE RDot(r.exo[a], [k \in 1..nx |-> m.X[t][from + one + k]]), Lagged(r.ma, m.resid, t, a)>>))
  IN Must("accepted", r.error = "") \cup (IF r.error # "" THEN {} ELSE
       Must("autoregressive part", near(r.ar, LagMatrices(m, S, 0)))
       \cup Must("intercept", Len(r.int) = m.g * one /\ \A a \in DOMAIN r.int : Is(r.int[a], m.coefs[a][from + 1], Tight))
       \cup Must("exogenous part", IF nx = 0 THEN r.exo = <<>> ELSE Len(r.exo) = m.g /\ \A a \in 1..m.g : Same(r.exo[a], [k \in 1..nx |-> m.coefs[a][from + one + k]], Tight))
       \cup Must("moving average part", near(r.ma, LagMatrices(m, Q, from + one + nx)))
       \cup Must("the parts reproduce the residuals", \A t \in (Max(S) + 1)..m.n, a \in 1..m.g : Is(e(t, a), m.resid[a][t], "1e-7")))

\* name of the date k periods after the first one
Mod(a, b) == a - b * (a \div b)
Label(r, k) == IF r.freq = "month" THEN LET q == 12 * r.f1 + (r.f2 - 1) + k IN ToString(q \div 12) \o "M" \o ToString(Mod(q, 12) + 1)
               ELSE ToString(r.f1 + k)
PredictFails(r) ==
  LET m == r.m
      last == LastRow(m)
      c == IF r.count < 0 THEN last ELSE r.count
      Want(known, new, j) == [t \in 1..(c + r.H) |-> IF t <= c THEN known[last - c + t] ELSE new[j][r.start - 1 + t - c]]
      zeros == [t \in 1..last |-> 0]
      labels == [t \in 1..(c + r.H) |-> Label(r, last - c + t - 1)]
  IN Must("accepted", r.error = "") \cup (IF r.error # "" THEN {} ELSE
       Must("observed values, then predictions", SameCols([j \in 1..m.g |-> Want(m.data[j], r.fmeans, j)], r.means, Tight))
       \cup Must("variances", SameCols([j \in 1..m.g |-> Want(zeros, r.fvars, j)], r.vars, Tight))
       \cup Must("dates", r.labels = labels /\ r.vlabels = labels /\ r.first = labels[1])
       \cup Must("names", r.vnames = [j \in 1..m.g |-> m.names[j]])
       \cup Must("number of observed values", r.acount = c))

-----------------------------------------------------------------------------
Shown(r, s) == r.shown[Place(r.all, s)]
Distinct(s) == Only(s, LAMBDA k : \A h \in 1..(k - 1) : s[h] # s[k])
Concat(ss) == LET RECURSIVE go(_) go(k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o go(k + 1) IN go(1)
TableFails(r) ==
  LET ms == r.models
      deps == TLCEval(IF r.alldeps THEN Distinct(Concat([i0 \in DOMAIN ms |-> ms[i0].deps])) ELSE r.deplist)
      allx == TLCEval(Distinct(Concat([i0 \in DOMAIN ms |-> ms[i0].exps])))
      xs == TLCEval(IF r.how = "all" THEN allx ELSE IF r.how = "number" THEN SubSeq(allx, 1, r.num) \o <<"...">> ELSE r.explist)
      columns == TLCEval(Concat([i0 \in DOMAIN ms |-> LET d == Only(deps, LAMBDA k : Place(ms[i0].deps, deps[k]) # 0) IN [k \in DOMAIN d |-> <<i0, d[k]>>]]))
      single == Len(ms) = 1
      nodep == single \/ Len(deps) = 1
      head == IF nodep THEN <<>> ELSE <<Shown(r, "dep.")>>
      rows == TLCEval(head \o [k \in DOMAIN xs |-> Shown(r, xs[k])] \o [k \in DOMAIN r.reg |-> Shown(r, r.reg[k])])
      X(k) == k - Len(head)
      R(k) == X(k) - Len(xs)
      Coef(c, x) == LET mm == ms[c[1]] j == Place(mm.deps, c[2]) v == Place(mm.exps, x) IN <<mm.coefs[j][v], mm.stds[j][v], mm.ps[j][v]>>
      Info(c, key) == LET mm == ms[c[1]] j == Place(mm.deps, c[2])
                      IN IF key = "obs" THEN mm.obs ELSE IF key = "sigma2" THEN mm.sigma[j][j] ELSE mm.metrics[j][Place(mm.mnames, key)]
      Ok(h, k) == LET c == columns[h] cell == r.cells[h][k]
                  IN IF X(k) < 1 THEN cell.t = Shown(r, c[2]) \/ cell.t = c[2]
                     ELSE IF R(k) < 1 THEN (IF Place(ms[c[1]].exps, xs[X(k)]) = 0 THEN cell.t = ""
                                            ELSE cell.t = "#" /\ Len(cell.v) = 4 /\ cell.v[1] = h /\ Same(Coef(c, xs[X(k)]), SubSeq(cell.v, 2, 4), Tight))
                     ELSE IF r.reg[R(k)] = "" THEN cell.t = ""
                     ELSE cell.t = "#" /\ Len(cell.v) = 2 /\ cell.v[1] = h /\ Is(Info(c, r.reg[R(k)]), cell.v[2], Tight)
  IN IF columns = <<>> THEN {} ELSE Must("accepted", r.error = "") \cup (IF r.error # "" THEN {} ELSE
       Must("columns: one per model and dependent variable", Len(r.cells) = Len(columns) /\ \A h \in DOMAIN r.colsn : h \in DOMAIN columns /\
               r.colsn[h] \in (IF single THEN {Shown(r, columns[h][2]), columns[h][2]} ELSE {Shown(r, ms[columns[h][1]].name)}))
       \cup Must("rows", r.rowsn = rows)
       \cup (IF Len(r.cells) # Len(columns) \/ r.rowsn # rows THEN {} ELSE Must("cells", \A h \in DOMAIN columns : Len(r.cells[h]) = Len(rows) /\ \A k \in DOMAIN rows : Ok(h, k))))

Fails(r) == CASE r.kind = "plot" -> PlotFails(r)
              [] r.kind = "value" -> ValueFails(r)
              [] r.kind = "project" -> ProjectFails(r)
              [] r.kind = "split" -> SplitFails(r) \cup OwnFails(r.m)
              [] r.kind = "predict" -> PredictFails(r)
              [] r.kind = "table" -> TableFails(r)
              [] OTHER -> CallFails(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
