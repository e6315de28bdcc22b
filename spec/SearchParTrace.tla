--------------------------- MODULE SearchParTrace ---------------------------
(* Logs of harness/par_drv: the events are a behaviour of SearchPar, and    *)
(* what is reported is what a search over the models finished in it reports.*)
EXTENDS SearchTrace
Par == INSTANCE SearchPar

\* models of every group, in the order of the engine (sizes, inner groups within)
GroupSize(r, g) ==
  LET k == r.sizes[((g - 1) \div Len(r.inner)) + 1]
      v == r.inner[((g - 1) % Len(r.inner)) + 1]
      outer == Models(r.parts, r.fix, 1, k)
  IN Cardinality({m \in outer : HasTarget(IF r.innerExo THEN m ELSE Range(v), r.T)})
Sizes(r) == [g \in 1 .. (Len(r.sizes) * Len(r.inner)) |-> GroupSize(r, g)]

\* attempts are listed group by group in the order they ran
Ordinal(tried, k) == Cardinality({j \in 1 .. k : tried[j].s = tried[k].s})
Without(tried, S) == LET F[k \in 0 .. Len(tried)] == IF k = 0 THEN <<>> ELSE IF k \in S THEN F[k - 1] ELSE Append(F[k - 1], tried[k]) IN F[Len(tried)]
NoCancel(fails) == SelectSeq(fails, LAMBDA f : f.msg # "cancel")
CancelCount(fails) == LET S == {k \in DOMAIN fails : fails[k].msg = "cancel"} IN IF S = {} THEN 0 ELSE fails[CHOOSE k \in S : TRUE].n

Reported(r, kept) ==
  LET q == [r EXCEPT !.tried = kept, !.fails = NoCancel(r.fails), !.searched = @ - CancelCount(r.fails)]
  IN S02(q) \cup S03(q) \cup S04(q)

ParFails(r) ==
  LET w == Par!Walk(Par!Fresh(Sizes(r)), r.events, 1)
      s == w.s
      open == {k \in DOMAIN r.tried : Ordinal(r.tried, k) > s.atcancel[r.tried[k].s + 1]}   \* in progress when the cancel came
      picked == LET F[g \in 0 .. Len(s.n)] == IF g = 0 THEN 0 ELSE F[g - 1] + (s.picked[g] - s.atcancel[g]) IN F[Len(s.n)]
  IN Must("no error", r.error = "")
     \cup Must("a behaviour of the specification", w.ok)
     \cup (IF ~w.ok THEN {} ELSE
       Must("ended", Par!Over(s))
       \cup Must("work areas are not shared", ~r.torn)
       \cup Must("no model twice", \A j, k \in DOMAIN r.tried : j # k => Id(r.tried[j]) # Id(r.tried[k]))
       \cup Must("only models of the search", {Id(r.tried[k]) : k \in DOMAIN r.tried} \subseteq Space(r))
       \cup Must("what ran is what was logged", \A g \in DOMAIN s.n : s.run[g] = Cardinality({k \in DOMAIN r.tried : r.tried[k].s = g - 1}))
       \cup Must("announced count", r.expected = Cardinality(Space(r)))
       \cup (IF ~s.cancelled THEN Must("each admissible model once", EachOnce(r.tried, Space(r))) \cup S02(r) \cup S03(r) \cup S04(r)
             ELSE Must("given up at most once", CancelCount(r.fails) <= picked)
                  \cup (IF \E Q \in SUBSET open : Reported(r, Without(r.tried, Q)) = {} THEN {} ELSE {"report after the cancel"} \cup Reported(r, r.tried))))

ParNext == /\ i <= Len(Log)
           /\ LET f == ParFails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
           /\ i' = i + 1
           /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
ParSpec == Init /\ [][ParNext]_i
=============================================================================
