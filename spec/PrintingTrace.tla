---------------------------- MODULE PrintingTrace ----------------------------
(* Logs of harness/r/printing.R checked against Printing.                    *)
EXTENDS Printing, Trace
VARIABLES i
Near(a, b, tol) == RSame(a, b) \/ (RIsFinite(a) /\ RIsFinite(b) /\ RLe(RAbs(RSub(a, b)), RMul(tol, RMax("1e-300", RAbs(b)))))
\* a printed sequence of numbers (seven digits)
Says(s, v) == Len(s) = Len(v) /\ \A k \in DOMAIN v : Near(s[k], v[k], "1e-6")
One(s, x) == Len(s) = 1 /\ Near(s[1], x, "1e-6")
\* quartiles (of the seventh type)
Q7(e, tau) == LET n == Len(e)
                  h == RMul(n - 1, tau)
                  k == CHOOSE j \in 0 .. (n - 1) : RLe(j, h) /\ (j = n - 1 \/ RGt(j + 1, h))
              IN IF k = n - 1 THEN e[n] ELSE RAdd(e[k + 1], RMul(RSub(h, k), RSub(e[k + 2], e[k + 1])))

Restr(r, j, v) == r.restr # <<>> /\ ~Zero(r.restr[j][v])
Section(r, j) ==
  LET s == r.secs[j]
      K == DOMAIN r.xnames
      nr == Cardinality({v \in K : Restr(r, j, v)})
      e == TLCEval(RSort(r.resid[j]))
      big == RMax(RAbs(e[1]), RAbs(e[Len(e)]))
      want == <<e[1], Q7(e, "0.25"), Q7(e, "0.5"), RMean(e), Q7(e, "0.75"), e[Len(e)]>>
      lines == s.rows = r.xnames /\ Len(s.cells) = Len(r.xnames)
  IN Must("equations in order", s.name = r.ynames[j])
     \cup Must("a line for each coefficient", lines)
     \cup Must("kind of the test", s.stat = IF r.method = "binary" \/ r.method = "bin" THEN "z" ELSE "t")
     \cup (IF ~lines THEN {} ELSE
           Must("numbers of the coefficients", \A v \in K : LET x == <<r.coefs[j][v], r.std[j][v], r.stats[j][v], r.p[j][v]>>
                       IN \A c \in 1 .. 4 : RIsNaN(x[c]) = RIsNaN(s.cells[v][c]) /\ (RIsNaN(x[c]) \/ Near(s.cells[v][c], x[c], "1e-3") \/ RLt(RAbs(RSub(s.cells[v][c], x[c])), "1e-12")))
           \cup Must("marks of significance", \A v \in K : s.marks[v] = Mark(r.p[j][v], Restr(r, j, v)) \/
                       \E b \in {"0.001", "0.01", "0.05", "0.1"} : RLt(RAbs(RSub(r.p[j][v], b)), "1e-9")))
     \cup Must("summary of the residuals", Len(s.res) = 6 /\ \A k \in 1 .. 6 : RLe(RAbs(RSub(s.res[k], want[k])), RMul("2e-3", big)))
     \cup Must("numbers of restrictions and of coefficients", One(s.nr, nr) /\ One(s.nc, Len(r.xnames) - nr))
     \cup Must("criteria", One(s.aic, r.ma[j]) /\ One(s.sic, r.ms[j]) /\ (IF r.m2 = <<>> THEN s.r2 = <<>> ELSE One(s.r2, r.m2[j])))
Estim(r) ==
  LET names == Join(r.ynames, ", ")
      free == r.restr = <<>> \/ \A j \in DOMAIN r.restr : \A v \in DOMAIN r.restr[j] : Zero(r.restr[j][v])
      name == CASE r.method = "sur" -> SurName(r.g, names, free) [] r.method = "bin" -> BinaryName(r.link) [] r.method = "varma" -> VarmaName(r.params, r.g, names)
  IN Must("a model can be printed", r.error = "") \cup (IF r.error # "" THEN {} ELSE
     Must("name of the model", r.model = <<name>>)
     \cup Must("a section for each equation", Len(r.secs) = r.g)
     \cup (IF Len(r.secs) # r.g THEN {} ELSE UNION {Section(r, j) : j \in 1 .. r.g})
     \cup Must("numbers of observations and equations", One(r.obs, r.nobs) /\ One(r.eqs, r.g) /\ (IF r.rows = r.nobs THEN r.omitted = <<>> ELSE One(r.omitted, r.rows - r.nobs)))
     \cup Must("what else there is", r.projection = r.hasproj /\ (IF r.valid = <<>> THEN r.simulation = <<>> ELSE One(r.simulation, r.valid[1]))
                                     /\ (IF r.sig = 0 THEN r.auto = <<>> ELSE One(r.auto, r.prob))))

\* ---- entries of the printed search
EntrySet(r, t, e, sec) == SelectSeq(r.entries, LAMBDA x : x.t = t /\ x.e = e /\ x.sec = sec)
Best(r, t, e) == First(r.rep.lists, LAMBDA l : l.t = t /\ l.e = e /\ l.type = "best model")
Table(r, t, e, type, at) == First(r.rep.tabs, LAMBDA l : l.t = t /\ l.e = e /\ l.type = type /\ (~at \/ RSame(l.at, 0)))
\* rows of a table that are shown: the ones surely shown, in order, with values; others may be
Shown(got, rows, sure, val) ==
  LET at(label) == First(got, LAMBDA x : x.label = label)
      certain == {k \in DOMAIN rows : sure[k] = 1}
      open == {k \in DOMAIN rows : sure[k] = 2}
  IN /\ \A k \in certain : ~None(at(rows[k])) /\ Says(at(rows[k]).v, val[k])
     /\ \A k \in DOMAIN got : got[k].label = "none" \/ \E h \in certain \cup open : rows[h] = got[k].label
     /\ Cardinality({got[k].label : k \in DOMAIN got}) = Len(got)
BestPart(r, t, e, l) ==
  LET g == EntrySet(r, t, e, "best")
      at(x) == First(g, LAMBDA q : q.label = x)
      b == l.items[1]
  IN Must("best model", ~None(at("endogenous")) /\ at("endogenous").text = b.endo /\ ~None(at("metric")) /\ Says(at("metric").v, <<b.metric>>)
                        /\ ~None(at("exogenous")) /\ at("exogenous").text = SelectSeq(b.exo, LAMBDA x : x \in {at("exogenous").text[k] : k \in DOMAIN at("exogenous").text})
                        /\ Cardinality({k \in DOMAIN b.exo : b.exo[k] \notin {at("exogenous").text[h] : h \in DOMAIN at("exogenous").text}}) <= 1)
Part(r, t, e) ==
  LET it == r.items
      l == Best(r, t, e)
      inc == Table(r, t, e, "inclusion", FALSE)
      ext == Table(r, t, e, "extreme bound", FALSE)
      cdf == Table(r, t, e, "cdf", TRUE)
      mix == Table(r, t, e, "mixture", FALSE)
      coefs == SelectSeq(r.rep.lists, LAMBDA x : x.t = t /\ x.e = e /\ x.type # "best model" /\ x.type # "model")
      iv == [k \in DOMAIN coefs |-> Interval(coefs[k].items[1].mean, coefs[k].items[1].var)]
  IN (IF r.kind = "search" /\ it.model /\ it.k > 0 /\ ~None(l) THEN BestPart(r, t, e, l) ELSE {})
     \cup (IF ~it.model \/ ~it.inclusion \/ None(inc) \/ (\A k \in DOMAIN inc.v : RIsNaN(inc.v[k][1])) THEN {} ELSE
           LET g == EntrySet(r, t, e, "inclusion")
               at(x) == First(g, LAMBDA q : q.label = x)
               w == [k \in DOMAIN inc.rows |-> inc.v[k][1]]
           IN Must("largest inclusion weight", ~None(at("name")) /\ ~None(at("maximum value")) /\ ~None(at("count")) /\ \E k \in DOMAIN w : at("name").text = <<inc.rows[k]>>
                      /\ (\A h \in DOMAIN w : (RIsNaN(w[h]) \/ RLe(w[h], w[k])))
                      /\ Says(at("maximum value").v, <<w[k]>>) /\ Says(at("count").v, <<inc.v[k][2]>>)))
     \cup (IF ~it.type1 THEN {} ELSE
           (IF it.k = 0 THEN {} ELSE Must("significant coefficients", Shown(EntrySet(r, t, e, "coef"), [k \in DOMAIN coefs |-> coefs[k].cname], [k \in DOMAIN iv |-> Sure(iv[k])], iv)))
           \cup (IF ~RGt(it.extreme, 0) \/ None(ext) THEN {} ELSE Must("significant extreme bounds", Shown(EntrySet(r, t, e, "extreme"), ext.rows,
                      [k \in DOMAIN ext.rows |-> Sure(<<ext.v[k][1], 0, ext.v[k][2]>>)], ext.v)))
           \cup (IF it.cdfs = <<>> THEN {} ELSE IF None(cdf) THEN Must("no cdf at zero", \A k \in DOMAIN EntrySet(r, t, e, "cdf") : EntrySet(r, t, e, "cdf")[k].label = "none")
                 ELSE Must("significant cdfs", Shown(EntrySet(r, t, e, "cdf"), cdf.rows,
                      [k \in DOMAIN cdf.rows |-> LET x == cdf.v[k][1] IN IF RIsNaN(x) THEN 0 ELSE IF RLt(RAbs(RSub(x, "0.1")), "1e-9") \/ RLt(RAbs(RSub(x, "0.9")), "1e-9") THEN 2 ELSE IF RLt(x, "0.1") \/ RGt(x, "0.9") THEN 1 ELSE 0],
                      [k \in DOMAIN cdf.rows |-> <<cdf.v[k][1]>>])))
           \cup (IF ~it.mixture \/ None(mix) THEN {} ELSE LET m == [k \in DOMAIN mix.rows |-> Interval(mix.v[k][1], mix.v[k][2])]
                 IN Must("significant mixtures", Shown(EntrySet(r, t, e, "mixture"), mix.rows, [k \in DOMAIN m |-> Sure(m[k])], m))))
Pairs(r) == {<<r.rep.lists[k].t, r.rep.lists[k].e>> : k \in DOMAIN r.rep.lists} \cup {<<r.rep.tabs[k].t, r.rep.tabs[k].e>> : k \in DOMAIN r.rep.tabs}
PairsShown(r) == {<<r.entries[k].t, r.entries[k].e>> : k \in {h \in DOMAIN r.entries : r.entries[h].sec = "evaluation"}}
Share(n, of) == RMul(RDiv(n, of), 100)
Search(r) ==
  LET p == r.rep
      pairs == Pairs(r)
  IN Must("a search can be printed", r.error = "") \cup (IF r.error # "" THEN {} ELSE
     Must("method", r.name = <<IF r.method = "sur" THEN "SUR" ELSE IF r.method = "bin" THEN "Binary" ELSE "VARMA">>)
     \cup Must("counts", Len(r.head) = 4 /\ RSame(r.head[1], p.expected) /\ RSame(r.head[2], p.searched) /\ RSame(r.head[3], p.failed) /\ RLe(RAbs(RSub(r.head[4], Share(p.failed, p.searched))), "0.051")
                         /\ One(r.length, r.results))
     \cup Must("reasons of failures", Len(r.shownfails) = Len(p.fails) /\ \A k \in DOMAIN p.fails : LET f == r.shownfails[k] IN f.msg = p.fails[k].msg /\ RSame(f.n, p.fails[k].n) /\ RLe(RAbs(RSub(f.share, Share(f.n, p.searched))), "0.051"))
     \cup (IF p.failed = p.searched THEN Must("all failed", r.allfailed /\ r.entries = <<>>) ELSE
           Must("not all failed", ~r.allfailed)
           \cup Must("a part for each target and evaluation with results", pairs \subseteq PairsShown(r))
           \cup Must("number of best models", IF r.items.k > 1 THEN One(r.kept, r.items.k) ELSE r.kept = <<>>)
           \cup Must("all models are saved", r.all = r.items.all)
           \cup UNION {Part(r, q[1], q[2]) : q \in pairs}))
Summary(r) ==
  LET bests == {k \in DOMAIN r.rep.lists : r.rep.lists[k].type = "best model"}
  IN Must("a summary can be printed", r.error = "") \cup (IF r.error # "" THEN {} ELSE
     Must("a model for each target and evaluation", IF r.failed = r.searched THEN r.blocks = 0 ELSE r.blocks = Cardinality(bests) /\ Len(r.models) = r.blocks)
     \cup IF r.failed = r.searched THEN {} ELSE UNION {Part(r, q[1], q[2]) : q \in Pairs(r)})

Yes(b) == IF b THEN <<"TRUE">> ELSE <<"FALSE">>
Predict(r) == Must("a prediction can be printed", r.error = "") \cup (IF r.error # "" THEN {} ELSE
  Must("horizon and variables", One(r.horizon, r.H) /\ One(r.vars, r.g) /\ r.first = <<r.label>> /\ r.has = Yes(r.fv # <<>>))
  \cup Must("first prediction", Says(r.mean, r.fm) /\ (r.fv = <<>> \/ Says(r.var, r.fv))))
Project(r) == Must("a projection can be printed", r.error = "") \cup (IF r.error # "" THEN {} ELSE
  Must("size", One(r.length, r.rows) /\ One(r.nvars, r.cols) /\ r.has = Yes(r.fv # <<>>))
  \cup Must("first values", Says(r.x, r.fx) /\ Says(r.mean, r.fm) /\ (r.fv = <<>> \/ Says(r.var, r.fv))))
List(r) == Must("options can be printed", r.error = "") \cup (IF r.error # "" THEN {} ELSE Must("values of the options", \A k \in DOMAIN r.labels : Says(r.printed[k], r.values[k])))
Fails(r) == CASE r.kind = "estim" -> Estim(r) [] r.kind = "search" -> Search(r) [] r.kind = "summary" -> Summary(r) [] r.kind = "predict" -> Predict(r) [] r.kind = "project" -> Project(r) [] r.kind = "list" -> List(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
