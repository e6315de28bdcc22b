------------------------------- MODULE Whole -------------------------------
(* A search and the estimation of its models one by one, through the R      *)
(* package: the report of a search that keeps everything is the table of    *)
(* the models of its space that can be estimated and pass the checks, with  *)
(* the numbers that estimating each of them alone gives; a summary of a     *)
(* reported model is that estimation again.                                 *)
(* m.sure: the optimization of the model settles, so its numbers do not     *)
(* hang on the order of a sum                                               *)
(* r: parts, numfix, sizes, inner (names), innerExo, extras, targets,       *)
(*    evals, nin, cnames, vnames, ck; alone: the facts of single            *)
(*    estimations (met[e][t], mean[c][t], var[c][t]; NaN if there is none)  *)
EXTENDS Search, TLC

Index(r, v) == (CHOOSE k \in DOMAIN r.vnames : r.vnames[k] = v) - 1
Indices(r, groups) == [k \in DOMAIN groups |-> [j \in DOMAIN groups[k] |-> Index(r, groups[k][j])]]
Config(r) == [parts |-> Indices(r, r.parts), sizes |-> r.sizes, fix |-> r.numfix, inner |-> Indices(r, r.inner), T |-> Len(r.targets), innerExo |-> r.innerExo]
NamesOf(r, S) == {r.vnames[k + 1] : k \in S}
\* the models asked for, by names; what makes variants of a model goes with the exogenous names
Asked(r) == {<<NamesOf(r, m[1]), NamesOf(r, m[2]) \cup Range(x)>> : m \in Space(Config(r)), x \in Range(r.extras)}

Can(m) == m.err = ""
Near(a, b) == RIsFinite(a) /\ RIsFinite(b) /\ RClose(a, b, "1e-7")
Dof(m) == m.obs - m.params
Passes(r, m) ==
  /\ ~RLt(r.ck.maxaic, m.aic) /\ ~RLt(r.ck.maxsic, m.sic) /\ ~RLt(m.r2, r.ck.minr2)
  /\ (r.ck.minobs <= 0 \/ m.obs >= r.ck.minobs)
  /\ (r.ck.mindof <= 0 \/ Dof(m) >= r.ck.mindof)
\* decided by rounding only
OnEdge(r, m) == Near(r.ck.maxaic, m.aic) \/ Near(r.ck.maxsic, m.sic) \/ Near(m.r2, r.ck.minr2)
Simulated(r) == Len(r.evals) > r.nin
Says(r, m) == \E e \in DOMAIN r.evals : \E t \in DOMAIN r.targets : ~RIsNaN(m.met[e][t])
\* the models to report
Right(r) == {k \in DOMAIN r.alone : Id(r.alone[k]) \in Asked(r) /\ Can(r.alone[k]) /\ Passes(r, r.alone[k]) /\ Says(r, r.alone[k])}
Undecided(r) == {k \in DOMAIN r.alone : Can(r.alone[k]) /\ (~r.alone[k].sure \/ OnEdge(r, r.alone[k]))}
Found(r) == {Id(r.found[k]) : k \in DOMAIN r.found}

\* numbers of the same computation
Same(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ RClose(a, b, "1e-7")
\* m: facts; f: a reported model, with the targets f.targets
PosT(f, t) == IF \E j \in DOMAIN f.targets : f.targets[j] = t - 1 THEN CHOOSE j \in DOMAIN f.targets : f.targets[j] = t - 1 ELSE 0
Metrics(r, m, f) == ~m.sure \/ \A e \in DOMAIN r.evals : \A t \in DOMAIN r.targets :
   IF PosT(f, t) = 0 THEN RIsNaN(m.met[e][t]) ELSE Same(f.met[e][PosT(f, t)], m.met[e][t])
Items(r, m, f) == ~m.sure \/ \A c \in DOMAIN r.cnames : \A t \in DOMAIN r.targets : PosT(f, t) # 0 =>
   /\ Same(f.mean[c][PosT(f, t)], m.mean[c][t])
   /\ Same(f.var[c][PosT(f, t)], m.var[c][t])
Facts(r, id) == r.alone[CHOOSE k \in DOMAIN r.alone : Id(r.alone[k]) = id]
=============================================================================
