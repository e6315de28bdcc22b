---------------------------- MODULE Matrices ----------------------------
(* What the operations of include/matrix.h mean.  A matrix is a sequence of rows, every element a real (FReal), NaN included; a vector *)
(* is a matrix with one column.  Positions given to the operations count from zero, as in the library.                               *)
EXTENDS FReal, Sequences, Integers, FiniteSets, TLC

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Mk(n, m, F(_, _)) == [i \in 1..n |-> [j \in 1..m |-> F(i, j)]]
Row(A, i) == A[i]
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
Flat(A) == [k \in 1..(Rows(A) * Cols(A)) |-> A[((k - 1) % Rows(A)) + 1][((k - 1) \div Rows(A)) + 1]] \* column by column
ColVec(s) == [i \in DOMAIN s |-> <<s[i]>>]
SameM(A, B) == Len(A) = Len(B) /\ \A i \in DOMAIN A : Len(A[i]) = Len(B[i]) /\ \A j \in DOMAIN A[i] : RSame(A[i][j], B[i][j])
SameS(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : RSame(s[k], t[k])
Tr(A) == Mk(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
Eye(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)

\* ------------------------------------------------------------ products
Times(A, B) == Mk(Rows(A), Cols(B), LAMBDA i, j : RDot(A[i], Col(B, j)))
\* alpha P + beta C; with beta zero, what C held does not matter
Scaled(P, C, alpha, beta) == Mk(Rows(P), Cols(P), LAMBDA i, j : RAdd(RMul(alpha, P[i][j]), IF RSame(beta, 0) THEN 0 ELSE RMul(beta, C[i][j])))
UpperOnly(P, C) == Mk(Rows(P), Cols(P), LAMBDA i, j : IF i <= j THEN P[i][j] ELSE C[i][j])
Kron(A, B) == Mk(Rows(A) * Rows(B), Cols(A) * Cols(B),
                 LAMBDA i, j : RMul(A[((i - 1) \div Rows(B)) + 1][((j - 1) \div Cols(B)) + 1], B[((i - 1) % Rows(B)) + 1][((j - 1) % Cols(B)) + 1]))
PairTerms(A, i, j) == SelectSeq([k \in 1..Rows(A) |-> RMul(A[k][i], A[k][j])], LAMBDA x : ~RIsNaN(x))
DotDiag(A, b) == Mk(Rows(A), Cols(A), LAMBDA i, j : RMul(A[i][j], b[j][1]))
DiagDot(a, B) == Mk(Rows(B), Cols(B), LAMBDA i, j : RMul(a[i][1], B[i][j]))

ProductOf(r) ==
  LET A == r.a
      B == r.b
      S(P) == Scaled(P, r.c, r.alpha, r.beta)
      Half(P) == IF r.flag THEN Mk(Rows(P), Cols(P), LAMBDA i, j : IF i <= j THEN S(P)[i][j] ELSE S(P)[j][i]) ELSE UpperOnly(S(P), r.c)
  IN CASE r.op = "dot" -> S(Times(A, B)) [] r.op = "dottr" -> S(Times(A, Tr(B))) [] r.op = "trdot" -> S(Times(Tr(A), B)) [] r.op = "trdottr" -> S(Times(Tr(A), Tr(B)))
       [] r.op = "dotvec" -> S(Times(A, B)) [] r.op = "tdotvec" -> S(Times(Tr(A), B)) [] r.op \in {"symdot", "dotsym"} -> S(Times(A, B))
       [] r.op = "aat" -> Half(Times(A, Tr(A))) [] r.op = "ata" -> Half(Times(Tr(A), A))
       [] r.op = "atanan" -> Mk(Cols(A), Cols(A), LAMBDA i, j : RSum(PairTerms(A, i, j)))
       [] r.op = "dotdiag" -> DotDiag(A, B) [] r.op = "diagdot" -> DiagDot(A, B)
       [] r.op = "kron" -> Kron(A, B) [] r.op = "kroniden" -> Kron(A, Eye(r.h)) [] r.op = "idenkron" -> Kron(Eye(r.h), A) [] r.op = "trkroniden" -> Kron(Tr(A), Eye(r.h))
PairCounts(A) == Mk(Cols(A), Cols(A), LAMBDA i, j : Len(PairTerms(A, i, j)))

\* ------------------------------------------------------------ element by element
ElementOf(r) ==
  LET F(x, y) == CASE r.op = "add" -> RAdd(x, y) [] r.op = "subtract" -> RSub(x, y) [] r.op = "multiply" -> RMul(x, y) [] r.op = "divide" -> RDiv(x, y)
                   [] r.op = "power" -> RPow(x, y) [] r.op = "apply" -> RSub(RMul(x, 3), y)
  IN Mk(Rows(r.a), Cols(r.a), LAMBDA i, j :
        LET v == F(r.a[i][j], IF r.scalar THEN r.s ELSE r.b[i][j])
        IN IF RSame(r.beta, 0) THEN v ELSE RAdd(v, RMul(r.beta, r.c[i][j])))

\* ------------------------------------------------------------ moving elements
\* M with the block of n x m elements at (x, y) replaced
Block(M, x, y, n, m, F(_, _)) == Mk(Rows(M), Cols(M), LAMBDA i, j : IF i > x /\ i <= x + n /\ j > y /\ j <= y + m THEN F(i - x, j - y) ELSE M[i][j])
Left(n, out) == SelectSeq([k \in 1..n |-> k - 1], LAMBDA k : \A q \in DOMAIN out : out[q] # k)
\* the place of the pair (i, j), i before j, when the pairs are read row by row
PlaceOf(n, diag, i, j) == Cardinality({p \in (1..n) \X (1..n) : (IF diag THEN p[1] <= p[2] ELSE p[1] < p[2]) /\ (p[1] < i \/ (p[1] = i /\ p[2] <= j))})
Triangular(M, e, up, diag) ==
  LET n == Rows(M)
      E == Flat(e)
      In(i, j) == IF diag THEN i <= j ELSE i < j
  IN Mk(n, n, LAMBDA i, j : CASE up >= 0 /\ In(i, j) -> E[PlaceOf(n, diag, i, j)]
                              [] up <= 0 /\ In(j, i) -> E[PlaceOf(n, diag, j, i)]
                              [] OTHER -> M[i][j])
Sorted(s, up) == IF up THEN RSort(s) ELSE LET t == RSort(s) IN [k \in DOMAIN t |-> t[(Len(t) - k) + 1]]
MoveOf(r) ==
  LET A == r.a
      B == r.b
      C == r.c
      n == Rows(A)
      m == Cols(A)
      SetRow(F(_)) == Block(A, r.x, 0, 1, m, LAMBDA i, j : F(j))
      SetCol(F(_)) == Block(A, 0, r.x, n, 1, LAMBDA i, j : F(i))
  IN CASE r.op \in {"transpose", "transposein"} -> Tr(A)
       [] r.op = "getsub" -> Block(C, r.p, r.q, r.rc, r.cc, LAMBDA i, j : A[r.x + i][r.y + j])
       [] r.op = "setsub" -> Block(A, r.x, r.y, r.rc, r.cc, LAMBDA i, j : B[r.p + i][r.q + j])
       [] r.op = "setsubt" -> Block(A, r.x, r.y, r.rc, r.cc, LAMBDA i, j : B[r.p + j][r.q + i])
       [] r.op = "getsubidx" ->
            LET u == IF r.other THEN Left(IF r.flag THEN m ELSE n, r.u) ELSE r.u
            IN IF r.flag THEN Block(C, r.p, r.q, r.rc, Len(u), LAMBDA i, j : A[r.x + i][u[j] + 1]) ELSE Block(C, r.p, r.q, Len(u), r.rc, LAMBDA i, j : A[u[i] + 1][r.x + j])
       [] r.op = "getsubtwo" -> Block(C, r.p, r.q, Len(r.u), Len(r.w), LAMBDA i, j : A[r.u[i] + 1][r.w[j] + 1])
       [] r.op = "setsubvec" -> Block(A, r.x, 0, r.rc, 1, LAMBDA i, j : B[r.p + i][1])
       [] r.op = "getsubvec" -> Block(C, r.p, 0, r.rc, 1, LAMBDA i, j : A[r.x + i][1])
       [] r.op = "setsubrow" -> Block(A, r.x, r.y, 1, r.cc, LAMBDA i, j : B[j][1])
       [] r.op = "setrow" -> SetRow(LAMBDA j : B[j][1]) [] r.op = "setcol" -> SetCol(LAMBDA i : B[i][1])
       [] r.op = "getrow" -> ColVec(A[r.x + 1]) [] r.op = "getcol" -> ColVec(Col(A, r.x + 1))
       [] r.op = "getdiag" -> [k \in 1..n |-> <<A[k][k]>>]
       [] r.op = "rowfromrow" -> SetRow(LAMBDA j : B[r.y + 1][j]) [] r.op = "colfromrow" -> SetCol(LAMBDA i : B[r.y + 1][i])
       [] r.op = "colfromcol" -> SetCol(LAMBDA i : B[i][r.y + 1]) [] r.op = "colfromdiag" -> SetCol(LAMBDA i : B[i][i]) [] r.op = "rowfromdiag" -> SetRow(LAMBDA j : B[j][j])
       [] r.op = "setrowval" -> SetRow(LAMBDA j : r.s) [] r.op = "setcolval" -> SetCol(LAMBDA i : r.s)
       [] r.op = "rowplus" -> SetRow(LAMBDA j : RAdd(A[r.x + 1][j], r.s)) [] r.op = "rowminus" -> SetRow(LAMBDA j : RSub(A[r.x + 1][j], r.s))
       [] r.op = "colplus" -> SetCol(LAMBDA i : RAdd(A[i][r.x + 1], r.s)) [] r.op = "colminus" -> SetCol(LAMBDA i : RSub(A[i][r.x + 1], r.s))
       [] r.op = "setvalue" -> Mk(n, m, LAMBDA i, j : r.s)
       [] r.op = "sequence" -> Mk(n, m, LAMBDA i, j : RAdd(r.s, RMul(((j - 1) * n + i) - 1, r.t)))
       [] r.op = "diag" -> Mk(n, n, LAMBDA i, j : IF i = j THEN r.s ELSE A[i][j])
       [] r.op \in {"diagoff", "diagonal"} -> Mk(n, n, LAMBDA i, j : IF i = j THEN r.s ELSE r.t)
       [] r.op = "offdiag" -> Mk(n, n, LAMBDA i, j : IF i = j THEN A[i][j] ELSE r.s)
       [] r.op = "triangular" -> Triangular(A, B, r.x, r.flag)
       [] r.op = "sort" -> LET s == [j \in 1..m |-> Sorted(Col(A, j), r.flag)] IN Mk(n, m, LAMBDA i, j : s[j][i])
       [] r.op \in {"sortby", "sortrows"} -> Mk(n, m, LAMBDA i, j : A[r.u[i] + 1][j])
       [] r.op = "sortcols" -> Mk(n, m, LAMBDA i, j : A[i][r.u[j] + 1])
       [] r.op = "applyrow" -> SetRow(LAMBDA j : RAdd(RMul(A[r.x + 1][j], 2), 1)) [] r.op = "applycol" -> SetCol(LAMBDA i : RAdd(RMul(A[i][r.x + 1], 2), 1))
       [] r.op = "copyto" -> A [] r.op = "copyfrom" -> B
       [] r.op = "plusat" -> Block(A, r.x, r.y, 1, 1, LAMBDA i, j : RAdd(A[r.x + 1][r.y + 1], r.s)) [] r.op = "minusat" -> Block(A, r.x, r.y, 1, 1, LAMBDA i, j : RSub(A[r.x + 1][r.y + 1], r.s))
       [] r.op = "setat" -> Block(A, r.x, r.y, 1, 1, LAMBDA i, j : r.s)

\* ------------------------------------------------------------ what a matrix says about itself
Equal(a, b, eps, nans) == IF RIsNaN(a) \/ RIsNaN(b) THEN RIsNaN(a) /\ RIsNaN(b) /\ nans ELSE ~RGt(RAbs(RSub(a, b)), eps)
EqualM(A, B, eps, nans) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : Equal(A[i][j], B[i][j], eps, nans)
AllEqual(s, v, eps, nans, ignore) == \A k \in DOMAIN s : (ignore /\ RIsNaN(s[k])) \/ Equal(s[k], v, eps, nans)
Known(s) == {k \in DOMAIN s : ~RIsNaN(s[k])}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RangeOf(s) == IF Known(s) = {} THEN <<-1, -1>> ELSE <<MinOf(Known(s)) - 1, MaxOf(Known(s)) - 1>>
HasGap(s) == Known(s) # {} /\ \E k \in DOMAIN s : k > MinOf(Known(s)) /\ k < MaxOf(Known(s)) /\ RIsNaN(s[k])
Missing(x, inf) == RIsNaN(x) \/ (inf /\ RIsInf(x))
FullRows(A, cols, inf) == SelectSeq([i \in 1..Rows(A) |-> i - 1], LAMBDA i : \A j \in cols : ~Missing(A[i + 1][j], inf))
\* the columns for which Keep holds
Columns(A, Keep(_)) == LET k == SelectSeq([j \in 1..Cols(A) |-> j], LAMBDA j : Keep(j)) IN Mk(Rows(A), Len(k), LAMBDA i, j : A[i][k[j]])
Filled(s) == LET kn == Known(s)
             IN [k \in DOMAIN s |-> IF ~RIsNaN(s[k]) \/ kn = {} \/ k < MinOf(kn) \/ k > MaxOf(kn) THEN s[k]
                                    ELSE LET a == MaxOf({x \in kn : x < k})
                                             b == MinOf({x \in kn : x > k})
                                         IN RAdd(s[a], RMul(RSub(s[b], s[a]), RDiv(k - a, b - a)))]
GapCount(s) == Cardinality({k \in DOMAIN s : RIsNaN(s[k]) /\ ~RIsNaN(Filled(s)[k])})
FirstMax(s) == MinOf({k \in DOMAIN s : \A q \in DOMAIN s : RLe(s[q], s[k])})
FirstMin(s) == MinOf({k \in DOMAIN s : \A q \in DOMAIN s : RLe(s[k], s[q])})
IsSorting(s, order, up) == /\ Len(order) = Len(s) /\ {order[k] + 1 : k \in DOMAIN order} = DOMAIN s
                           /\ \A k \in 1..(Len(order) - 1) : LET a == s[order[k] + 1]
                                                                 b == s[order[k + 1] + 1]
                                                             IN (IF up THEN RLt(a, b) ELSE RGt(a, b)) \/ (RSame(a, b) /\ order[k] < order[k + 1])

\* ------------------------------------------------------------ moments
Values(s, check) == IF check THEN SelectSeq(s, LAMBDA x : ~RIsNaN(x)) ELSE s
MeanOf(s) == RDiv(RSum(s), Len(s))
SumSquares(s, t) == LET a == MeanOf(s)
                        b == MeanOf(t)
                    IN RSum([k \in DOMAIN s |-> RMul(RSub(s[k], a), RSub(t[k], b))])
Divisor(n, sample) == IF sample THEN n - 1 ELSE n
VarOf(s, sample) == IF Len(s) = 0 THEN "nan" ELSE RDiv(SumSquares(s, s), Divisor(Len(s), sample))
CovOf(s, t, sample) == IF Len(s) = 0 THEN "nan" ELSE RDiv(SumSquares(s, t), Divisor(Len(s), sample))
Pairs(s, t, check) == LET k == SelectSeq([q \in DOMAIN s |-> q], LAMBDA q : ~check \/ (~RIsNaN(s[q]) /\ ~RIsNaN(t[q])))
                      IN <<[q \in DOMAIN k |-> s[k[q]]], [q \in DOMAIN k |-> t[k[q]]]>>
Standardized(x, m, v, isVar) == IF RSame(v, 0) THEN "nan" ELSE RDiv(RSub(x, m), IF isVar THEN RSqrt(v) ELSE v)

\* ------------------------------------------------------------ triangles and norms
Upper(A, unit) == Mk(Rows(A), Rows(A), LAMBDA i, j : IF i = j /\ unit THEN 1 ELSE IF i <= j THEN A[i][j] ELSE 0)
Lower(A, unit) == Mk(Rows(A), Rows(A), LAMBDA i, j : IF i = j /\ unit THEN 1 ELSE IF i >= j THEN A[i][j] ELSE 0)
SumAbs(s) == RSum([k \in DOMAIN s |-> RAbs(s[k])])
Largest(s) == LET t == RSort(s) IN t[Len(t)]
NormOf(A, which) == CASE which = "1" -> Largest([j \in 1..Cols(A) |-> SumAbs(Col(A, j))]) [] which = "I" -> Largest([i \in 1..Rows(A) |-> SumAbs(A[i])])
                      [] which = "M" -> Largest([k \in 1..(Rows(A) * Cols(A)) |-> RAbs(Flat(A)[k])]) [] which = "F" -> RSqrt(RSum([k \in 1..(Rows(A) * Cols(A)) |-> RSq(Flat(A)[k])]))
=============================================================================
