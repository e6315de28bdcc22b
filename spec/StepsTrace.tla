----------------------------- MODULE StepsTrace -----------------------------
(* Searches in steps of the R package (harness/r/steps.R) checked against    *)
(* Steps: every search that is made is an action of that machine.            *)
EXTENDS Steps, Trace
VARIABLES i, c      \* record, number of its searches done
vars == <<i, c, q, step, kept, weights, stopped>>
Rec == Log[i]

Intercept == "(Intercept)"
Sets(groups) == [k \in DOMAIN groups |-> Rng(groups[k])]
\* binary models have the intercept, alone in the first partition and always there
Alone(r) == r.parts # <<>> /\ r.parts[1] = <<Intercept>>
PartsAsked(r) ==
  IF r.method # "bin" THEN Sets(r.parts)
  ELSE IF Alone(r) THEN Sets(r.parts)
  ELSE <<{Intercept}>> \o Filter([k \in DOMAIN r.parts |-> Rng(r.parts[k]) \ {Intercept}], LAMBDA g : g # {})
FixAsked(r) ==
  IF r.method # "bin" THEN r.numfix
  ELSE IF Alone(r) THEN (IF r.numfix = 0 THEN 1 ELSE r.numfix)
  ELSE 1 + Len(Filter([k \in 1 .. Min(r.numfix, Len(r.parts)) |-> Rng(r.parts[k]) \ {Intercept}], LAMBDA g : g # {}))
Ask(r) == [endo |-> r.endo, exo |-> r.exo, targets |-> r.targets, fixed |-> r.fixed \o (IF r.method = "bin" THEN <<Intercept>> ELSE <<>>),
           counts |-> r.counts, sizes |-> Sets(r.sizes), parts |-> PartsAsked(r), numfix |-> FixAsked(r), inner |-> Sets(r.inner), innerExo |-> r.method = "varma"]
Begin(r) == q' = Ask(r) /\ step' = 0 /\ kept' = Rng(r.endo) \cup Rng(r.exo) /\ weights' = [v \in kept' |-> 0] /\ stopped' = ""

Seen(l) == Rng(l.cols) \ {"(Weights)"}
WeightsOf(l) == [v \in Seen(l) |-> IF v \in Rng(l.incn) THEN l.inc[CHOOSE k \in DOMAIN l.incn : l.incn[k] = v] ELSE "nan"]
CallFails(r, l) ==
  LET K == Seen(l)
      n == step + 1
  IN IF n > Len(q.counts) THEN {"as many searches as steps"}
     ELSE Must("a search after all models failed", c = 0 \/ r.calls[c].failed # r.calls[c].searched)
      \cup Must("fixed variables fit in", ~TooFew(n))
      \cup Must("only variables that are left", K \subseteq kept)
      \cup (IF TooFew(n) \/ ~(K \subseteq kept) THEN {} ELSE
           Must("targets and fixed variables stay", Fixed \subseteq K \/ q.counts[n] = -1)
           \cup Must("number of variables", Cardinality(K) = (IF q.counts[n] = -1 THEN Cardinality(kept) ELSE Min(q.counts[n], Cardinality(kept))))
           \cup Must("the best variables are kept", Keeps(n, K))
           \cup Must("columns in order", l.cols = OrderOf(q.endo, K) \o (IF r.weighted THEN <<"(Weights)">> ELSE <<>>) \o OrderOf(q.exo, K))
           \cup Must("numbers of variables", l.endo = Len(OrderOf(q.endo, K)) /\ l.exo = Len(OrderOf(q.exo, K)) /\ l.weighted = r.weighted /\ l.targets = r.targets)
           \cup Must("values of the variables", l.same)
           \cup Must("sizes of the step", Rng(l.sizes) = q.sizes[n])
           \cup Must("partitions without removed variables", Sets(l.parts) = PartsOf(K))
           \cup Must("fixed partitions", l.numfix = FixOf(K))
           \cup Must("inner groups without removed variables", LET g == Rng(Sets(l.inner)) IN g \ {{}} = InnerOf(K) /\ ({} \in g => MayBeEmpty(K)))
           \cup Must("inner groups once", Len(l.inner) = Cardinality(Rng(Sets(l.inner))) \/ Len(q.inner) # Cardinality(Rng(q.inner)))
           \cup Must("models of these sizes exist", Possible(n, K))
           \cup Must("settings of the step", l.settings \/ r.direct # "recorded"))

Failed(l) == l.failed = l.searched
Sum(s, F(_)) == LET S[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE S[k - 1] + F(s[k]) IN S[Len(s)]
Explained(r) ==
  \/ r.unknown
  \/ \E n \in DOMAIN r.counts : r.counts[n] > Len(r.endo) + Len(r.exo)
  \/ step = 0 /\ r.direct # "recorded"
  \/ 0 < step /\ step < Len(q.counts) /\ Failed(r.calls[step])
  \/ step < Len(q.counts) /\ TooFew(step + 1)
  \/ step < Len(q.counts) /\ \E K \in SUBSET kept : Keeps(step + 1, K) /\ ~Possible(step + 1, K)
Total(r) == <<Sum(r.calls, LAMBDA l : l.expected), Sum(r.calls, LAMBDA l : l.searched), Sum(r.calls, LAMBDA l : l.failed)>>
EndFails(r) ==
  IF r.error # "" THEN Must("refused or stopped without a reason", Explained(r))
  ELSE Must("unknown names are refused", ~r.unknown)
       \cup Must("all steps are done", step = Len(q.counts))
       \cup Must("counts of all steps", r.total = Total(r))
       \cup (IF ~r.again THEN {} ELSE
              Must("only steps without saved results are searched again", r.second = [k \in DOMAIN r.missing |-> r.calls[r.missing[k]]])
              \cup Must("saved results are used", r.error2 = "" /\ r.total2 = r.total /\ r.same2))

Reject(fails) == PrintT(<<"REJECT", i, fails>>)
Leave == /\ i' = i + 1 /\ c' = 0
         /\ IF i < Len(Log) THEN Begin(Log[i + 1]) ELSE PrintT(<<"DONE", i>>) /\ UNCHANGED <<q, step, kept, weights, stopped>>
TraceInit == /\ i = Start /\ c = 0 /\ q = Ask(Log[i]) /\ Init
Call == /\ i <= Len(Log) /\ c < Len(Rec.calls)
        /\ LET l == Rec.calls[c + 1]
               f == CallFails(Rec, l)
           IN IF f = {} THEN Search(Seen(l), WeightsOf(l)) /\ c' = c + 1 /\ UNCHANGED i
              ELSE Reject(f) /\ Leave
End == i <= Len(Log) /\ c = Len(Rec.calls) /\ (LET f == EndFails(Rec) IN IF f = {} THEN TRUE ELSE Reject(f)) /\ Leave
TraceNext == Call \/ End
Spec == TraceInit /\ [][TraceNext]_vars
=============================================================================
