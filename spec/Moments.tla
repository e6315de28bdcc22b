------------------------------ MODULE Moments ------------------------------
(* Weighted moments.  A part is a sequence of components [w, x, v, s, k]:   *)
(* weight, mean, variance, skewness, excess kurtosis (a plain value has     *)
(* v = s = k = 0).                                                          *)
EXTENDS Integers, Sequences, FReal

Value(x, w) == [w |-> w, x |-> x, v |-> 0, s |-> 0, k |-> 0]
\* ---- the batch definitions
SumW(p) == RSum([j \in DOMAIN p |-> p[j].w])
\* relative weights: absolute ones may be tiny
Rel(p) == LET t == SumW(p) IN [j \in DOMAIN p |-> RDiv(p[j].w, t)]
Empty(p) == \A j \in DOMAIN p : RSame(p[j].w, 0)
MeanOf(p) == LET r == Rel(p) IN RSum([j \in DOMAIN p |-> RMul(r[j], p[j].x)])
Dev(p) == LET m == MeanOf(p) IN [j \in DOMAIN p |-> RSub(p[j].x, m)]
Mu2(p) == LET r == Rel(p) d == Dev(p) IN RSum([j \in DOMAIN p |-> RMul(r[j], RAdd(p[j].v, RSq(d[j])))])
Third(c) == RMul(c.s, RPow(c.v, "1.5"))
Mu3(p) ==
  LET r == Rel(p) d == Dev(p)
  IN RSum([j \in DOMAIN p |-> RMul(r[j], RAdd(Third(p[j]), RAdd(RMul(3, RMul(p[j].v, d[j])), RMul(d[j], RSq(d[j])))))])
Mu4(p) ==
  LET r == Rel(p) d == Dev(p)
  IN RSum([j \in DOMAIN p |-> RMul(r[j],
        RAdd(RMul(RAdd(p[j].k, 3), RSq(p[j].v)),
             RAdd(RMul(4, RMul(d[j], Third(p[j]))), RAdd(RMul(6, RMul(RSq(d[j]), p[j].v)), RSq(RSq(d[j]))))))])
Skew(p) == RDiv(Mu3(p), RPow(Mu2(p), "1.5"))
Kurt(p) == RSub(RDiv(Mu4(p), RSq(Mu2(p))), 3)

\* ---- the incremental algorithm (Pebay 2008): [w, m, m2, m3, m4]
Zero == [w |-> 0, m |-> 0, m2 |-> 0, m3 |-> 0, m4 |-> 0]
Join(a, b) ==
  IF RSame(a.w, 0) THEN b
  ELSE IF RSame(b.w, 0) THEN a
  ELSE LET t == RAdd(a.w, b.w)
           d == RSub(b.m, a.m)
           d2 == RSq(d)
           p == RDiv(a.w, t)
           q == RDiv(b.w, t)
           wq == RMul(a.w, q)
       IN [w |-> t,
           m |-> RAdd(RMul(p, a.m), RMul(q, b.m)),
           m2 |-> RAdd(RAdd(a.m2, b.m2), RMul(d2, wq)),
           m3 |-> RAdd(RAdd(a.m3, b.m3), RAdd(RMul(RMul(RMul(d, d2), wq), RSub(p, q)), RMul(RMul(3, d), RSub(RMul(p, b.m2), RMul(q, a.m2))))),
           m4 |-> RAdd(RAdd(RAdd(a.m4, b.m4), RMul(RMul(RSq(d2), wq), RAdd(RSub(RSq(p), RMul(p, q)), RSq(q)))),
                       RAdd(RMul(RMul(6, d2), RAdd(RMul(RSq(p), b.m2), RMul(RSq(q), a.m2))), RMul(RMul(4, d), RSub(RMul(p, b.m3), RMul(q, a.m3)))))]
Single(x, w) == [w |-> w, m |-> IF RSame(w, 0) THEN 0 ELSE x, m2 |-> 0, m3 |-> 0, m4 |-> 0]
=============================================================================
