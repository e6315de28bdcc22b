------------------------------- MODULE Report -------------------------------
(* What the report of a search says in the R package, when the models it is *)
(* about are known; variables, targets and items go by name.                *)
(* r: the search: evals (as in Search: "in:aic"), names (as reported),      *)
(*    targets, cnames (items of type 1), vnames, k, model, all, inclusion,  *)
(*    cdfs, mult, mixture, tried (the models; met by metric and position)   *)
(* p: its report: expected, searched, failed, fails, lists, tabs            *)
EXTENDS Search, TLC

Cells(r) == (DOMAIN r.evals) \X (DOMAIN r.targets)
E0(r, m, t) == Entries(r.tried, m, t - 1)
E1(r, m, t, c) == ItemEntries(r.tried, m, t - 1, c)
M(r, m, t) == [i \in E0(r, m, t) |-> Metric(r.tried, i, m, t - 1)]
W(r, m, t) == [i \in E0(r, m, t) |-> Weight(r.evals[m], Metric(r.tried, i, m, t - 1), 0)]
ItemName(c) == "best item for '" \o c \o "'"

ListsOf(r, p, m, t, type) == {q \in DOMAIN p.lists : p.lists[q].e = r.names[m] /\ p.lists[q].t = r.targets[t] /\ p.lists[q].type = type}
TabsOf(r, p, m, t, type) == {q \in DOMAIN p.tabs : p.tabs[q].e = r.names[m] /\ p.tabs[q].t = r.targets[t] /\ p.tabs[q].type = type}
\* a list there is if it has something to hold, and the ranks count from zero
OneList(r, p, m, t, type, E, right(_)) ==
  LET L == ListsOf(r, p, m, t, type)
  IN IF L = {} THEN E = {}
     ELSE Cardinality(L) = 1 /\ \A q \in L : right(p.lists[q].items)
Ranked(r, p, m, t, type) == \A q \in ListsOf(r, p, m, t, type) : p.lists[q].ranks = [j \in DOMAIN p.lists[q].ranks |-> j - 1]
NoneOf(r, p, type) == \A q \in DOMAIN p.lists : p.lists[q].type # type
NoTab(r, p, type) == \A q \in DOMAIN p.tabs : p.tabs[q].type # type

BestModels(r, p, m, t) ==
  LET E == E0(r, m, t)  f == M(r, m, t)
  IN OneList(r, p, m, t, "best model", E, LAMBDA b : BestRight(b, r.tried, E, LAMBDA i : f[i], r.evals[m], r.k))
BestItems(r, p, m, t, c) ==
  LET E == E1(r, m, t, c)  f == M(r, m, t)
  IN OneList(r, p, m, t, ItemName(r.cnames[c]), E, LAMBDA b :
       /\ BestRight(b, r.tried, E, LAMBDA i : f[i], r.evals[m], r.k)
       /\ \A q \in DOMAIN b : \E i \in E : Matches(b[q], r.tried[i]) /\ RClose(b[q].mean, Mean(r.tried, i, t - 1, c), "1e-12") /\ RClose(b[q].var, Var(r.tried, i, t - 1, c), "1e-12"))
AllModels(r, p, m, t) ==
  LET E == E0(r, m, t)  f == M(r, m, t)  w == W(r, m, t)
  IN OneList(r, p, m, t, "model", E, LAMBDA b : AllRight(b, r.tried, E, LAMBDA i : f[i], LAMBDA i : w[i]))

\* tables: one per metric, target (and value); rows by name, none of them twice, no row with something to say missing
OneTab(r, p, m, t, type, at, names, E(_), right(_, _)) ==
  LET T == {q \in TabsOf(r, p, m, t, type) : RIsNaN(at) \/ RSame(p.tabs[q].at, at)}
  IN IF T = {} THEN \A c \in DOMAIN names : E(c) = {}
     ELSE /\ Cardinality(T) = 1
          /\ \A q \in T :
               LET tab == p.tabs[q]
               IN /\ Len(tab.rows) = Len(tab.v)
                  /\ \A x, y \in DOMAIN tab.rows : x # y => tab.rows[x] # tab.rows[y]
                  /\ Range(tab.rows) \subseteq Range(names)
                  /\ \A c \in DOMAIN names : IF \E x \in DOMAIN tab.rows : tab.rows[x] = names[c]
                                             THEN right(c, tab.v[CHOOSE x \in DOMAIN tab.rows : tab.rows[x] = names[c]]) ELSE E(c) = {}
Inclusion(r, p, m, t) ==
  LET E == E0(r, m, t)  w == W(r, m, t)
      has(c) == {i \in E : r.vnames[c] \in Range(r.tried[i].endo) \cup Range(r.tried[i].exo)}
  IN OneTab(r, p, m, t, "inclusion", "nan", r.vnames, LAMBDA c : has(c), LAMBDA c, row : InclusionRight(row, r.tried, E, LAMBDA i : w[i], r.vnames[c]))
Bounds(r, p, m, t) ==
  OneTab(r, p, m, t, "extreme bound", "nan", r.cnames, LAMBDA c : E1(r, m, t, c), LAMBDA c, row : BoundsRight(row, r.tried, E1(r, m, t, c), t - 1, c, r.mult))
Cdf(r, p, m, t, x) ==
  LET w == W(r, m, t)
  IN OneTab(r, p, m, t, "cdf", x, r.cnames, LAMBDA c : E1(r, m, t, c), LAMBDA c, row : CdfRight(row, r.tried, E1(r, m, t, c), LAMBDA i : w[i], t - 1, c, x))
Mixture(r, p, m, t) ==
  LET w == W(r, m, t)
  IN OneTab(r, p, m, t, "mixture", "nan", r.cnames, LAMBDA c : E1(r, m, t, c), LAMBDA c, row : MixRight(row, r.tried, E1(r, m, t, c), LAMBDA i : w[i], t - 1, c))

FailTotal(fails) == LET F[k \in 0 .. Len(fails)] == IF k = 0 THEN 0 ELSE LET x == F[k - 1] IN x + fails[k].n IN F[Len(fails)]
SameFails(a, b) == {<<a[j].msg, a[j].n>> : j \in DOMAIN a} = {<<b[j].msg, b[j].n>> : j \in DOMAIN b} /\ Len(a) = Len(b)

Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
\* what a division of the models says about counts, reasons and times
Total(parts, f(_)) == LET F[k \in 0 .. Len(parts)] == IF k = 0 THEN 0 ELSE LET x == F[k - 1] IN x + f(parts[k]) IN F[Len(parts)]
Reasons(parts) == UNION {{parts[k].fails[j].msg : j \in DOMAIN parts[k].fails} : k \in DOMAIN parts}
Often(fails, msg) == LET F[k \in 0 .. Len(fails)] == IF k = 0 THEN 0 ELSE LET x == F[k - 1] IN IF fails[k].msg = msg THEN x + fails[k].n ELSE x IN F[Len(fails)]
WrongTally(parts, p, must(_, _)) ==
  must("announced", p.expected = Total(parts, LAMBDA q : q.expected))
  \cup must("searched", p.searched = Total(parts, LAMBDA q : q.searched))
  \cup must("failed", p.failed = Total(parts, LAMBDA q : q.failed))
  \cup must("reasons of failures", Reasons(<<p>>) = Reasons(parts) /\ Len(p.fails) = Cardinality(Reasons(parts)))
  \cup must("counts of reasons", \A msg \in Reasons(parts) : Often(p.fails, msg) = Total(parts, LAMBDA q : Often(q.fails, msg)))
  \cup must("from the first start", p.start = -Largest({-parts[k].start : k \in DOMAIN parts}))
  \cup must("to the last end", p.end = Largest({parts[k].end : k \in DOMAIN parts}))
  \cup must("nothing else", p.left = 0)

\* the reasons why report p is not the report of search r
Wrong(r, p, must(_, _)) ==
  LET each(n, ok(_, _)) == must(n, \A x \in Cells(r) : ok(x[1], x[2]))
  IN must("announced", p.expected = r.expected)
     \cup must("searched", p.searched = r.expected)
     \cup must("failed", p.failed = FailTotal(r.fails))
     \cup must("reasons of failures", SameFails(p.fails, r.fails))
     \cup (IF ~r.model THEN must("no models", NoneOf(r, p, "best model") /\ NoneOf(r, p, "model"))
           ELSE each("best models", LAMBDA m, t : BestModels(r, p, m, t))
                \cup each("ranks of the best models", LAMBDA m, t : Ranked(r, p, m, t, "best model"))
                \cup (IF r.all THEN each("all models", LAMBDA m, t : AllModels(r, p, m, t)) ELSE must("not all models", NoneOf(r, p, "model")))
                \cup (IF r.inclusion THEN each("inclusion weights", LAMBDA m, t : Inclusion(r, p, m, t)) ELSE must("no inclusion weights", NoTab(r, p, "inclusion"))))
     \cup each("best items", LAMBDA m, t : \A c \in DOMAIN r.cnames : BestItems(r, p, m, t, c))
     \cup each("ranks of the best items", LAMBDA m, t : \A c \in DOMAIN r.cnames : Ranked(r, p, m, t, ItemName(r.cnames[c])))
     \cup (IF RLt(0, r.mult) THEN each("extreme bounds", LAMBDA m, t : Bounds(r, p, m, t)) ELSE must("no extreme bounds", NoTab(r, p, "extreme bound")))
     \cup each("distribution values", LAMBDA m, t : \A x \in DOMAIN r.cdfs : Cdf(r, p, m, t, r.cdfs[x]))
     \cup (IF r.mixture THEN each("mixture", LAMBDA m, t : Mixture(r, p, m, t)) ELSE must("no mixture", NoTab(r, p, "mixture")))
     \cup must("no other metric, target or item",
            /\ \A q \in DOMAIN p.lists : p.lists[q].e \in Range(r.names) /\ p.lists[q].t \in Range(r.targets)
                                         /\ p.lists[q].type \in {"best model", "model"} \cup {ItemName(r.cnames[c]) : c \in DOMAIN r.cnames}
            /\ \A q \in DOMAIN p.tabs : p.tabs[q].e \in Range(r.names) /\ p.tabs[q].t \in Range(r.targets) /\ p.tabs[q].type \in {"inclusion", "extreme bound", "cdf", "mixture"})
=============================================================================
