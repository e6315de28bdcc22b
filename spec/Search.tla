------------------------------- MODULE Search -------------------------------
(* What a model search is: which models it has to attempt, and what it has  *)
(* to report as a function of the outcomes of the attempts.                 *)
(* A search configuration c has: parts (sequence of sequences of variable   *)
(* indices), sizes, fix (number of leading partitions in every model),      *)
(* inner (sequence of groups of the other kind of variables), T (variables  *)
(* with index < T are targets), innerExo (the inner groups are exogenous).  *)
EXTENDS Integers, Sequences, FiniteSets, FReal

Range(s) == {s[i] : i \in DOMAIN s}

\* ---- the search space
\* Sets of k items, one from each of k distinct partitions from i on, the first `fix` always used
RECURSIVE Models(_, _, _, _)
Models(parts, fix, i, k) ==
  IF i > Len(parts) THEN (IF k = 0 THEN {{}} ELSE {})
  ELSE (IF i > fix THEN Models(parts, fix, i + 1, k) ELSE {})
       \cup (IF k > 0 THEN {{x} \cup m : x \in Range(parts[i]), m \in Models(parts, fix, i + 1, k - 1)} ELSE {})

HasTarget(endo, T) == \E e \in endo : e < T

\* <<endogenous set, exogenous set>> of every model of the search
Space(c) ==
  LET outer == UNION {Models(c.parts, c.fix, 1, c.sizes[i]) : i \in DOMAIN c.sizes}
      inner == {Range(c.inner[i]) : i \in DOMAIN c.inner}
      all == IF c.innerExo THEN {<<m, g>> : m \in outer, g \in inner} ELSE {<<g, m>> : m \in outer, g \in inner}
  IN {x \in all : HasTarget(x[1], c.T)}

\* ---- the attempts: a sequence of records [endo, exo, out, targets, met, mean, var, ...]
Id(a) == <<Range(a.endo), Range(a.exo)>>
EachOnce(tried, space) ==
  /\ Len(tried) = Cardinality(space)
  /\ {Id(tried[i]) : i \in DOMAIN tried} = space

Ok(a) == a.out = "ok"

\* ---- what is reported
CountOut(tried, msg) == Cardinality({i \in DOMAIN tried : tried[i].out = msg})
FailMessages(tried) == {tried[i].out : i \in DOMAIN tried} \ {"ok"}
FailsRight(tried, fails) ==
  /\ {fails[i].msg : i \in DOMAIN fails} = FailMessages(tried)
  /\ \A i \in DOMAIN fails : fails[i].n = CountOut(tried, fails[i].msg)
  /\ \A i, j \in DOMAIN fails : i # j => fails[i].msg # fails[j].msg

\* position of target t in attempt a, 0 if the model does not have it
PosOf(a, t) == IF \E j \in DOMAIN a.targets : a.targets[j] = t THEN CHOOSE j \in DOMAIN a.targets : a.targets[j] = t ELSE 0

\* the attempts that report metric m for target t
Entries(tried, m, t) ==
  {i \in DOMAIN tried : Ok(tried[i]) /\ PosOf(tried[i], t) > 0 /\ ~RIsNaN(tried[i].met[m][PosOf(tried[i], t)])}
Metric(tried, i, m, t) == tried[i].met[m][PosOf(tried[i], t)]
\* ... and that also have item c (coefficient, horizon)
ItemEntries(tried, m, t, c) == {i \in Entries(tried, m, t) : ~RIsNaN(tried[i].mean[c][PosOf(tried[i], t)])}
Mean(tried, i, t, c) == tried[i].mean[c][PosOf(tried[i], t)]
Var(tried, i, t, c) == tried[i].var[c][PosOf(tried[i], t)]

\* direction and weight of every metric; mn is the reference minimum of the target
Positive(name) == name \in {"in:aucIn", "out:aucOut", "out:sign", "out:direction"}
Weight(name, x, mn) ==
  CASE name \in {"in:aic", "in:sic", "in:brierIn", "out:mae", "out:rmse", "out:brierOut", "out:crps"} -> RExp(RMul("-0.5", RSub(x, mn)))
    [] name \in {"out:mape", "out:rmspe"} -> RExp(RDiv(RMul("-0.5", RSub(x, mn)), 100))
    [] name \in {"in:aucIn", "out:aucOut", "out:sign", "out:direction"} -> x
    [] name \in {"in:frequencyCostIn", "out:frequencyCostOut"} -> RSub(1, x)
Better(name, x, y) == IF Positive(name) THEN RLt(y, x) ELSE RLt(x, y)

\* a reported entry k is attempt i
Matches(k, a) == Range(k.endo) = Range(a.endo) /\ Range(k.exo) = Range(a.exo)
\* the K best of the entries E (with metric function M), best first; ties in any order
BestRight(bests, tried, E, M(_), name, K) ==
  LET n == IF Cardinality(E) < K THEN Cardinality(E) ELSE K
      better(i) == {j \in E : Better(name, M(j), M(i))}
      idx(k) == {i \in E : Matches(k, tried[i])}
  IN /\ Len(bests) = n
     /\ \A p \in DOMAIN bests : Cardinality(idx(bests[p])) = 1
     /\ \A p, q \in DOMAIN bests : p < q => idx(bests[p]) # idx(bests[q])
     /\ \A p \in DOMAIN bests :
          LET i == CHOOSE i \in idx(bests[p]) : TRUE
          IN /\ RSame(bests[p].metric, M(i))
             /\ Cardinality(better(i)) < p          \* nothing better is left out or placed behind
     /\ \A p \in 1 .. Len(bests) - 1 : ~Better(name, bests[p + 1].metric, bests[p].metric)

AllRight(all, tried, E, M(_), W(_)) ==
  /\ Len(all) = Cardinality(E)
  /\ \A i \in E : \E p \in DOMAIN all : Matches(all[p], tried[i]) /\ RSame(all[p].metric, M(i)) /\ RClose(all[p].weight, W(i), "1e-12")
  /\ \A p, q \in DOMAIN all : p # q => ~(Range(all[p].endo) = Range(all[q].endo) /\ Range(all[p].exo) = Range(all[q].exo))

\* ---- sums over a finite set, in some order
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
SumOver(S, f(_)) == LET s == SeqOf(S) IN RSum([i \in DOMAIN s |-> f(s[i])])

\* inclusion weight of variable v: mean weight of the models that have it
InclusionRight(rep, tried, E, W(_), v) ==
  LET has == {i \in E : v \in Range(tried[i].endo) \cup Range(tried[i].exo)}
  IN /\ rep[2] = Cardinality(has)
     /\ IF has = {} THEN RIsNaN(rep[1]) ELSE RClose(rep[1], RDiv(SumOver(has, W), Cardinality(has)), "1e-9")

\* extreme bounds: smallest mean - mult*sd and largest mean + mult*sd
BoundsRight(b, tried, E, t, c, mult) ==
  LET lo(i) == RSub(Mean(tried, i, t, c), RMul(mult, RSqrt(Var(tried, i, t, c))))
      hi(i) == RAdd(Mean(tried, i, t, c), RMul(mult, RSqrt(Var(tried, i, t, c))))
  IN E # {} =>
     /\ \A i \in E : RLe(b[1], RAdd(lo(i), "1e-10")) /\ RLe(RSub(hi(i), "1e-10"), b[2])
     /\ \E i \in E : RClose(lo(i), b[1], "1e-10")
     /\ \E i \in E : RClose(hi(i), b[2], "1e-10")

\* weighted distribution value at x, every estimate being normal
CdfRight(rep, tried, E, W(_), t, c, x) ==
  LET wf(i) == RMul(W(i), RNormCdf(RDiv(RSub(x, Mean(tried, i, t, c)), RSqrt(Var(tried, i, t, c)))))
      sw == SumOver(E, W)
  IN (E # {} /\ RLt("1e-250", sw)) =>
       /\ rep[2] = Cardinality(E)
       /\ RClose(rep[1], RDiv(SumOver(E, wf), sw), "1e-8")

\* moments of the mixture of normals
MixRight(rep, tried, E, W(_), t, c) ==
  LET sw == SumOver(E, W)
      m(i) == Mean(tried, i, t, c)
      v(i) == Var(tried, i, t, c)
      mu == RDiv(SumOver(E, LAMBDA i : RMul(W(i), m(i))), sw)
      d(i) == RSub(m(i), mu)
      M2 == RDiv(SumOver(E, LAMBDA i : RMul(W(i), RAdd(v(i), RSq(d(i))))), sw)
      M3 == RDiv(SumOver(E, LAMBDA i : RMul(W(i), RAdd(RMul(3, RMul(d(i), v(i))), RPow(d(i), 3)))), sw)
      M4 == RDiv(SumOver(E, LAMBDA i : RMul(W(i), RAdd(RAdd(RPow(d(i), 4), RMul(6, RMul(RSq(d(i)), v(i)))), RMul(3, RSq(v(i)))))), sw)
  IN (E # {} /\ RLt("1e-250", sw)) =>
       /\ rep[5] <= Cardinality(E) /\ rep[5] >= Cardinality({i \in E : RLt("1e-300", W(i))})  \* a model of weight zero need not be counted
       /\ RClose(rep[1], mu, "1e-9")
       /\ RClose(rep[2], M2, "1e-8")
       /\ RClose(rep[3], RDiv(M3, RPow(M2, "1.5")), "1e-6")
       /\ RClose(rep[4], RSub(RDiv(M4, RSq(M2)), 3), "1e-6")
=============================================================================
