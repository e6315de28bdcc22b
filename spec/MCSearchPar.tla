---------------------------- MODULE MCSearchPar ----------------------------
(* SearchPar with threads and with what the groups keep, explored by TLC:   *)
(* every interleaving, every moment of a cancel, every outcome of every     *)
(* model.  Each group keeps the K best of its models by insertion, a count, *)
(* a sum of weights and the failures, and they are merged at the end in any *)
(* order of the groups.  The merged report must be that of the set of the   *)
(* finished models, whatever the schedule.                                  *)
EXTENDS SearchPar, TLC
CONSTANTS Shape, Threads, K, Values   \* Values: metrics; Failed, GivenUp and None are not metrics
VARIABLES s, owner, val, best, count, fails, merged, left
vars == <<s, owner, val, best, count, fails, merged, left>>
Groups == DOMAIN Shape
Models == {<<g, k>> : g \in Groups, k \in 1 .. 4} \cap UNION {{<<g, k>> : k \in 1 .. Shape[g]} : g \in Groups}
NoOne == 0
Failed == 0
GivenUp == -1
None == -2
Shape22 == <<2, 2>>
Shape211 == <<2, 1, 1>>
Shape32 == <<3, 2>>
TwoValues == {1, 2}
ThreeValues == {1, 2, 3}

\* insertion into a list of at most K, smaller is better, equal ones keep their order
Insert(list, x) ==
  LET before == SelectSeq(list, LAMBDA y : y <= x)
      after == SelectSeq(list, LAMBDA y : y > x)
      l == before \o <<x>> \o after
  IN IF Len(l) > K THEN SubSeq(l, 1, K) ELSE l
InsertAll(list, xs) == LET F[k \in 0 .. Len(xs)] == IF k = 0 THEN list ELSE Insert(F[k - 1], xs[k]) IN F[Len(xs)]

Init == /\ s = Fresh(Shape)
        /\ owner = [g \in Groups |-> NoOne]
        /\ val = [m \in Models |-> None]
        /\ best = [g \in Groups |-> <<>>] /\ count = [g \in Groups |-> 0] /\ fails = [g \in Groups |-> 0]
        /\ merged = [best |-> <<>>, count |-> 0, fails |-> 0] /\ left = Groups
\* a free thread takes a group that nobody has taken
Take(t, g) == /\ left = Groups /\ owner[g] = NoOne /\ s.picked[g] = 0 /\ ~s.cancelled
              /\ \A h \in Groups : owner[h] = t => s.finished[h] = s.n[h]
              /\ owner' = [owner EXCEPT ![g] = t]
              /\ UNCHANGED <<s, val, best, count, fails, merged, left>>
Step(name, g) == /\ left = Groups    \* the threads are joined before the merge
                 /\ owner[g] # NoOne /\ Can(s, <<name, g>>) /\ s' = Apply(s, <<name, g>>)
Pick(g) == Step("pick", g) /\ UNCHANGED <<owner, val, best, count, fails, merged, left>>
Run(g) == /\ Step("run", g)
          /\ \E v \in Values \cup {Failed} : val' = [val EXCEPT ![<<g, s.run[g] + 1>>] = v]
          /\ UNCHANGED <<owner, best, count, fails, merged, left>>
\* the outcome is put into the lists of the group; after a cancel it may be given up instead
Keep(g) == /\ Step("finish", g)
           /\ LET v == val[<<g, s.finished[g] + 1>>]
              IN IF v = Failed THEN fails' = [fails EXCEPT ![g] = @ + 1] /\ UNCHANGED <<best, count>>
                 ELSE best' = [best EXCEPT ![g] = Insert(@, v)] /\ count' = [count EXCEPT ![g] = @ + 1] /\ UNCHANGED fails
           /\ UNCHANGED <<owner, val, merged, left>>
GiveUp(g) == /\ s.cancelled /\ Step("finish", g)
             /\ val' = [val EXCEPT ![<<g, s.finished[g] + 1>>] = GivenUp]
             /\ UNCHANGED <<owner, best, count, fails, merged, left>>
Cancel == /\ Can(s, <<"cancel", 0>>) /\ s' = Apply(s, <<"cancel", 0>>)
          /\ UNCHANGED <<owner, val, best, count, fails, merged, left>>
Merge(g) == /\ Over(s) /\ g \in left
            /\ merged' = [best |-> InsertAll(merged.best, best[g]), count |-> merged.count + count[g], fails |-> merged.fails + fails[g]]
            /\ left' = left \ {g}
            /\ UNCHANGED <<s, owner, val, best, count, fails>>
Next == \/ \E g \in Groups : Pick(g) \/ Run(g) \/ Keep(g) \/ GiveUp(g) \/ Merge(g)
        \/ \E t \in Threads, g \in Groups : Take(t, g)
        \/ (left = Groups /\ Cancel)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(\E g \in Groups : Pick(g) \/ Run(g) \/ Keep(g) \/ Merge(g)) /\ WF_vars(\E t \in Threads, g \in Groups : Take(t, g))

\* ---- the joint search: a function of the outcomes alone
Kept == {m \in Models : m[2] <= s.finished[m[1]] /\ val[m] # GivenUp}
Good == {m \in Kept : val[m] # Failed}
Ranked(S) == \* the values of S in order
  LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : val[x] <= val[y] IN <<val[x]>> \o F[T \ {x}] IN F[S]
BestOf(S) == LET r == Ranked(S) IN SubSeq(r, 1, IF Len(r) < K THEN Len(r) ELSE K)

OneThreadEach == \A g, h \in Groups : (g # h /\ owner[g] # NoOne /\ owner[g] = owner[h]) => (s.finished[g] = s.n[g] \/ s.finished[h] = s.n[h] \/ s.cancelled)
InOrder == \A g \in Groups : s.finished[g] <= s.run[g] /\ s.run[g] <= s.picked[g] /\ s.picked[g] <= s.n[g] /\ s.picked[g] - s.finished[g] <= 1
GroupRight == \A g \in Groups : LET mine == {m \in Good : m[1] = g} IN best[g] = BestOf(mine) /\ count[g] = Cardinality(mine)
Joint == left = {} => /\ merged.best = BestOf(Good) /\ merged.count = Cardinality(Good) /\ merged.fails = Cardinality(Kept \ Good)
                      /\ (~s.cancelled => Kept = Models)
                      /\ \A m \in Models : m[2] <= s.atcancel[m[1]] => m \in Kept
NoStartAfterCancel == [][s.cancelled => s'.picked = s.picked]_vars
Ends == <>(left = {})
=============================================================================
