------------------------------ MODULE Assemble ------------------------------
(* From a table of named columns to the matrix of a search, and from the    *)
(* user's names and numbers to positions in it.                             *)
(* A request q:                                                             *)
(*   cols     sequence of [name, v], the columns of the data (names "" when *)
(*            the data have none), rows all of one length                   *)
(*   mode     "number" (the first k columns are endogenous), "names" (endo  *)
(*            lists them) or "equations" (eqs: sequence of [y, x])          *)
(*   intercept, weights ( <<>> if none), lambdas ( <<>> if none, one per    *)
(*            endogenous variable otherwise)                                *)
(*   new      sequence of [name, v], or <<>> ; hasnew                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FReal

Rng(s) == {s[k] : k \in DOMAIN s}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]
Filter(s, ok(_)) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN <<>> ELSE IF ok(s[k]) THEN Append(F[k - 1], s[k]) ELSE F[k - 1] IN F[Len(s)]
\* first occurrences
Unique(s) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN <<>> ELSE LET p == F[k - 1] IN IF s[k] \in Rng(p) THEN p ELSE Append(p, s[k]) IN F[Len(s)]
Flat(ss) == LET F[k \in 0 .. Len(ss)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o ss[k] IN F[Len(ss)]
Str(pre, k) == pre \o ToString(k)

Named(q) == q.named
ColNames(q) == IF Named(q) THEN Map(q.cols, LAMBDA c : c.name)
               ELSE [j \in DOMAIN q.cols |-> IF j <= q.k THEN Str("Y", j) ELSE Str("X", j - q.k)]
\* a valid request only: the names of the two kinds of variables, in order
EndoNames(q) == CASE q.mode = "number" -> SubSeq(ColNames(q), 1, q.k)
                  [] q.mode = "names" -> q.endo
                  [] q.mode = "equations" -> Map(q.eqs, LAMBDA e : e.y)
OtherNames(q) == CASE q.mode = "number" -> SubSeq(ColNames(q), q.k + 1, Len(q.cols))
                   [] q.mode = "names" -> Filter(ColNames(q), LAMBDA n : n \notin Rng(q.endo))
                   [] q.mode = "equations" -> Filter(Unique(Flat(Map(q.eqs, LAMBDA e : e.x))), LAMBDA n : n \notin Rng(EndoNames(q)))
ExoNames(q) == (IF q.intercept THEN <<"(Intercept)">> ELSE <<>>) \o OtherNames(q)
AllNames(q) == EndoNames(q) \o (IF q.weights = <<>> THEN <<>> ELSE <<"(Weights)">>) \o ExoNames(q)
Rows(q) == Len(q.cols[1].v)
Source(q, name) == q.cols[CHOOSE j \in DOMAIN q.cols : ColNames(q)[j] = name].v

BoxCox(x, l) == IF RSame(l, 0) THEN RLog(x) ELSE RDiv(RSub(RPow(x, l), 1), l)
PosIn(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
\* the values the column of a name has to have
Values(q, name) ==
  IF name = "(Weights)" THEN q.weights
  ELSE IF name = "(Intercept)" /\ q.intercept THEN [t \in 1 .. Rows(q) |-> 1]
  ELSE IF name \in Rng(EndoNames(q)) /\ q.lambdas # <<>>
    THEN Map(Source(q, name), LAMBDA x : BoxCox(x, q.lambdas[PosIn(EndoNames(q), name)]))
  ELSE Source(q, name)

\* new values of the exogenous variables
NewNames(q) == IF Named(q) THEN Map(q.new, LAMBDA c : c.name) ELSE [j \in DOMAIN q.new |-> Str("X", j)]
NewRows(q) == Len(q.new[1].v)
NewValues(q, name) == IF name = "(Intercept)" /\ q.intercept THEN [t \in 1 .. NewRows(q) |-> 1] ELSE q.new[PosIn(NewNames(q), name)].v

\* ---- requests that have to be refused, by name of the reason
Constant1(v) == \A t \in DOMAIN v : RSame(v[t], 1)
Reasons(q) ==
  LET known == Rng(ColNames(q))
      must(n, bad) == IF bad THEN {n} ELSE {}
  IN must("no endogenous variable", (q.mode = "number" /\ q.k < 1) \/ (q.mode = "names" /\ q.endo = <<>>))
     \cup must("too many endogenous variables", q.mode = "number" /\ q.k > Len(q.cols))
     \cup must("unknown endogenous variable", q.mode = "names" /\ ~(Rng(q.endo) \subseteq known))
     \cup must("endogenous variable given twice", q.mode = "names" /\ ~Distinct(q.endo))
     \cup must("names for data without names", q.mode = "names" /\ ~Named(q))
     \cup must("two equations of one variable", q.mode = "equations" /\ ~Distinct(Map(q.eqs, LAMBDA e : e.y)))
     \cup must("unknown variable in an equation", q.mode = "equations" /\ \E k \in DOMAIN q.eqs : ~(({q.eqs[k].y} \cup Rng(q.eqs[k].x)) \subseteq known))
     \cup must("weights of another length", q.weights # <<>> /\ Len(q.weights) # Rows(q))
Refused(q) == Reasons(q) # {}
\* with the names known: an intercept that is there already, new data that lack a variable
Refused2(q) ==
  (q.mode # "equations" /\ q.intercept /\ \E j \in 2 .. Len(q.cols) : Constant1(q.cols[j].v))
  \/ (q.hasnew /\ OtherNames(q) # <<>> /\
       IF Named(q) THEN ~(Rng(OtherNames(q)) \subseteq Rng(NewNames(q))) ELSE Len(q.new) # Len(OtherNames(q)))

\* ---- rows after the sample for h horizons: kind of the answer and the rows of every column
\* (-1: no number of horizons is required)
Appended(q, h) ==
  IF q.hasnew /\ ExoNames(q) # <<>>
  THEN IF NewRows(q) < h THEN [ok |-> FALSE, n |-> 0] ELSE [ok |-> TRUE, n |-> NewRows(q)]
  ELSE IF h < 1 \/ ExoNames(q) = <<>> THEN [ok |-> TRUE, n |-> 0]
  ELSE IF ExoNames(q) = <<"(Intercept)">> /\ q.intercept THEN [ok |-> TRUE, n |-> h] ELSE [ok |-> FALSE, n |-> 0]
LongValues(q, name, n) ==
  Values(q, name) \o [t \in 1 .. n |-> IF name \notin Rng(ExoNames(q)) THEN "nan" ELSE IF name = "(Intercept)" /\ q.intercept THEN 1 ELSE NewValues(q, name)[t]]
CompleteRows(cols) == Filter([t \in DOMAIN cols[1] |-> t], LAMBDA t : \A j \in DOMAIN cols : ~RIsNaN(cols[j][t]))

\* ---- positions: a request for combinations over an assembled matrix a = [endo, exo] (sequences of names)
\* p: [sizes, parts, inner, targets, innerExo]; parts and inner are sequences of [names, numbers, byname]
OuterNames(p, a) == IF p.innerExo THEN a.endo ELSE a.exo
InnerNames(p, a) == IF p.innerExo THEN a.exo ELSE a.endo
\* zero-based position in the matrix without the weights
Offset(outer, p, a) == IF outer = p.innerExo THEN 0 ELSE Len(a.endo)
Names(g, pool) == IF g.byname THEN Rng(g.names) ELSE {pool[k] : k \in Rng(g.numbers)}
Places(g, pool, off) == {(off + k) - 1 : k \in {k \in DOMAIN pool : pool[k] \in Names(g, pool)}}
Valid(g, pool) == IF g.byname THEN Rng(g.names) \subseteq Rng(pool) ELSE Rng(g.numbers) \subseteq DOMAIN pool
Parts(p, a) == IF p.parts = <<>> THEN [k \in DOMAIN OuterNames(p, a) |-> [byname |-> FALSE, names |-> <<>>, numbers |-> <<k>>]] ELSE p.parts
PartPlaces(p, a) == [k \in DOMAIN Parts(p, a) |-> Places(Parts(p, a)[k], OuterNames(p, a), Offset(TRUE, p, a))]
InnerPlaces(p, a) == [k \in DOMAIN p.inner |-> Places(p.inner[k], InnerNames(p, a), Offset(FALSE, p, a))]
IndexReasons(p, a) ==
  LET must(n, bad) == IF bad THEN {n} ELSE {}
      parts == Parts(p, a)
      okp == \A k \in DOMAIN parts : Valid(parts[k], OuterNames(p, a))
      oki == \A k \in DOMAIN p.inner : Valid(p.inner[k], InnerNames(p, a))
  IN must("unknown member of a partition", ~okp)
     \cup must("unknown member of an inner group", ~oki)
     \cup must("partitions with a common member", okp /\ \E j, k \in DOMAIN parts : j # k /\ PartPlaces(p, a)[j] \cap PartPlaces(p, a)[k] # {})
     \cup must("size", \E k \in DOMAIN p.sizes : p.sizes[k] < 1 \/ p.sizes[k] > Len(parts))
     \cup must("targets", p.targets > Len(a.endo))
     \cup (IF p.innerExo \/ ~oki THEN {} ELSE
            must("target in no inner group", \E t \in 0 .. (p.targets - 1) : \A k \in DOMAIN p.inner : t \notin InnerPlaces(p, a)[k])
            \cup must("inner group without a target", \E k \in DOMAIN p.inner : \A t \in 0 .. (p.targets - 1) : t \notin InnerPlaces(p, a)[k]))
=============================================================================
