-------------------------------- MODULE Steps --------------------------------
(* A search in steps.  The first step looks at all variables; every later   *)
(* one keeps the variables that did best in the step before it, and those   *)
(* declared fixed, and searches models of its own sizes over them.          *)
(* q: endo, exo (sequences of names), targets, fixed (names), counts (-1:   *)
(*    keep all), sizes (sequence of sets), parts (sequence of sets of       *)
(*    names), numfix, inner (sequence of sets of names), innerExo           *)
EXTENDS Integers, Sequences, FiniteSets, FReal
VARIABLES q,         \* the request
          step,      \* number of searches done
          kept,      \* the variables of the last search
          weights,   \* what it reported: [name -> mean inclusion weight]
          stopped    \* reason to give up, "" if none

Rng(s) == {s[k] : k \in DOMAIN s}
Min(a, b) == IF a < b THEN a ELSE b
Filter(s, ok(_)) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN <<>> ELSE LET p == F[k - 1] IN IF ok(s[k]) THEN Append(p, s[k]) ELSE p IN F[Len(s)]
Every == Rng(q.endo) \cup Rng(q.exo)
Fixed == {q.endo[k] : k \in 1 .. q.targets} \cup Rng(q.fixed)
\* no number is no weight at all
Above(a, b) == ~RIsNaN(a) /\ (RIsNaN(b) \/ RLt(b, a))

\* K can be what is kept for step i
Keeps(i, K) ==
  /\ K \subseteq kept
  /\ IF q.counts[i] = -1 THEN K = kept
     ELSE /\ Fixed \subseteq K
          /\ Cardinality(K) = Min(q.counts[i], Cardinality(kept))
          /\ i > 1 => \A v \in K \ Fixed, w \in kept \ K : ~Above(weights[w], weights[v])
TooFew(i) == q.counts[i] # -1 /\ q.counts[i] < Cardinality(Fixed)

\* what is left of groups of variables
Left(groups, K) == [k \in DOMAIN groups |-> groups[k] \cap K]
NonEmpty(groups) == Filter(groups, LAMBDA g : g # {})
PartsOf(K) == NonEmpty(Left(q.parts, K))
FixOf(K) == Len(NonEmpty(SubSeq(Left(q.parts, K), 1, q.numfix)))
InnerOf(K) == {g \in Rng(Left(q.inner, K)) : g # {}}
MayBeEmpty(K) == \E g \in Rng(Left(q.inner, K)) : g = {}
\* models of these sizes exist
Possible(i, K) == PartsOf(K) # <<>> /\ \A s \in q.sizes[i] : s <= Len(PartsOf(K))
OrderOf(names, K) == Filter(names, LAMBDA v : v \in K)

Init == step = 0 /\ kept = Every /\ weights = [v \in Every |-> 0] /\ stopped = ""
Search(K, w) ==
  /\ stopped = "" /\ step < Len(q.counts)
  /\ ~TooFew(step + 1) /\ Keeps(step + 1, K) /\ Possible(step + 1, K)
  /\ step' = step + 1 /\ kept' = K /\ weights' = w /\ stopped' = "" /\ UNCHANGED q
GiveUp ==
  /\ stopped = "" /\ step < Len(q.counts)
  /\ TooFew(step + 1) \/ \E K \in SUBSET kept : Keeps(step + 1, K) /\ ~Possible(step + 1, K)
  /\ stopped' = "not possible" /\ UNCHANGED <<q, step, kept, weights>>
\* a search without results ends the steps, unless it is the last one
NoResults == stopped = "" /\ 0 < step /\ step < Len(q.counts) /\ stopped' = "all failed" /\ UNCHANGED <<q, step, kept, weights>>

\* ---- what a user relies on
FixedStay == step > 0 => Fixed \subseteq kept
Shrinks == [][kept' \subseteq kept]_<<q, step, kept, weights, stopped>>
NotMore == step > 0 /\ q.counts[step] # -1 => Cardinality(kept) <= q.counts[step]
PartsApart == \A j, k \in DOMAIN PartsOf(kept) : j # k => PartsOf(kept)[j] \cap PartsOf(kept)[k] = {}
=============================================================================
