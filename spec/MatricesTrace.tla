---------------------------- MODULE MatricesTrace ----------------------------
(* Logs of harness/matrix_drv (single matrix operations) checked against Matrices.                                                  *)
EXTENDS Matrices, Trace
VARIABLES i

NearM(A, B) == Len(A) = Len(B) /\ \A x \in DOMAIN A : RCloseSeq(A[x], B[x], "1e-10")
Storage(r, before, want) ==
  Must("sizes that do not fit are refused", r.checked /\ ~r.legal => r.threw)
  \cup Must("sizes that fit are accepted", r.legal => ~r.threw)
  \cup Must("result", r.legal /\ ~r.threw => want)
  \cup Must("a refused operation changes nothing", r.threw => SameM(r.out, before))
  \cup Must("operands kept", r.kept) \cup Must("inside the storage", r.guard)
Product(r) ==
  Storage(r, r.c, IF r.op = "vecvec" THEN RSame(r.value, RDot(Col(r.a, 1), Col(r.b, 1))) ELSE SameM(r.out, ProductOf(r)))
  \cup Must("counts", r.op = "atanan" /\ r.legal => SameM(r.counts, PairCounts(r.a)))
Element(r) == Storage(r, IF r.inplace THEN r.a ELSE r.c, SameM(r.out, ElementOf(r)))
ToStorage == {"transpose", "getsub", "getsubidx", "getsubtwo", "getsubvec", "getrow", "getcol", "getdiag", "sort", "sortby", "sortrows", "sortcols", "copyto"}
Move(r) == Storage(r, IF r.op \in ToStorage THEN r.c ELSE r.a, SameM(r.out, MoveOf(r)))
Query(r) ==
  LET A == r.a
      n == Rows(A)
      m == Cols(A)
      F == TLCEval(Flat(A))
      R == A[r.i + 1]
      C == Col(A, r.j + 1)
      cr == TLCEval([j \in 1..m |-> RangeOf(Col(A, j))])
      whole == IF \E j \in 1..m : cr[j][1] < 0 THEN <<-1, -1>> ELSE LET a == MaxOf({cr[j][1] : j \in 1..m})
                                                                        b == MinOf({cr[j][2] : j \in 1..m})
                                                                    IN IF a > b THEN <<-1, -1>> ELSE <<a, b>>
      clean == \A k \in DOMAIN F : RIsFinite(F[k])
      inRows == 0..(n - 1)
      kept == Columns(A, LAMBDA j : \A k \in 1..n : ~Missing(A[k][j], r.checkInf))
      left == Columns(A, LAMBDA j : \A q \in DOMAIN r.dropped : r.dropped[q] # j - 1)
  IN Must("shape", r.square = (n = m) /\ r.vector = (m = 1) /\ r.length = n * m /\ r.hasNan = \E k \in DOMAIN F : RIsNaN(F[k]))
     \cup Must("symmetric, diagonal, trace", n = m =>
               /\ clean => r.symmetric = (\A x, y \in 1..n : x < y => ~RGt(RAbs(RSub(A[x][y], A[y][x])), r.eps))
               /\ clean => r.diagonal = (\A x, y \in 1..n : ~RGt(RAbs(RSub(IF x = y THEN 3 ELSE 1, A[x][y])), r.eps))
               /\ RSame(r.trace, RSum([k \in 1..n |-> A[k][k]])))
     \cup Must("equality", r.equals = EqualM(A, r.b, r.eps, r.nans) /\ r.equalsOther = FALSE /\ r.equalsThrows)
     \cup Must("equal to a value", ~(r.ignore /\ RIsNaN(r.value)) => /\ r.equalsValue = AllEqual(F, r.value, r.eps, r.nans, r.ignore)
                                                                    /\ r.equalsColumn = AllEqual(C, r.value, r.eps, r.nans, r.ignore))
     \cup Must("any and all", r.any = (\E k \in DOMAIN F : RSame(F[k], r.value)) /\ r.allOf = (\A k \in DOMAIN F : RSame(F[k], r.value)))
     \cup Must("indices of a value", r.indices = SelectSeq([k \in DOMAIN F |-> k - 1], LAMBDA k : RSame(F[k + 1], r.value)))
     \cup Must("range of a column", r.rangeColumn = RangeOf(C) /\ (Known(C) # {} => r.missColumn = HasGap(C)))
     \cup Must("range of a row", r.rangeRow = RangeOf(R) /\ (Known(R) # {} => r.missRow = HasGap(R)))
     \cup Must("range of the columns", r.range = whole /\ (whole[1] >= 0 => r.missAny = \E j \in 1..m : HasGap(Col(A, j))))
     \cup Must("rows without missing values", r.fullRows = FullRows(A, 1..m, r.checkInf) /\ r.fullRowsOf = FullRows(A, {r.cols[k] + 1 : k \in DOMAIN r.cols}, r.checkInf))
     \cup Must("columns without missing values", SameM(r.noNanColumns, kept) /\ r.noNanShape = <<n, Cols(kept)>> /\ r.guard1)
     \cup Must("columns removed", SameM(r.columnsLeft, left) /\ r.leftShape = <<n, Cols(left)>> /\ r.guard2)
     \cup Must("vector without missing values", SameS(r.noNan, SelectSeq(F, LAMBDA x : ~Missing(x, r.checkInf))) /\ r.nonNan = Cardinality(Known(F))
               /\ (r.nonNan > 0 => SameS(r.noNan2, SelectSeq(F, LAMBDA x : ~RIsNaN(x))) /\ r.guard3))
     \cup Must("interpolated column", ~r.inf => LET s == Filled(C) IN /\ NearM(r.interpColumn, Mk(n, m, LAMBDA x, y : IF y = r.j + 1 THEN s[x] ELSE A[x][y]))
                                                                    /\ r.interpColumnCount = GapCount(C) /\ r.guard4)
     \cup Must("interpolated row", ~r.inf => LET s == Filled(R) IN /\ NearM(r.interpRow, Mk(n, m, LAMBDA x, y : IF x = r.i + 1 THEN s[y] ELSE A[x][y]))
                                                                 /\ r.interpRowCount = GapCount(R) /\ r.guard5)
     \cup (IF r.hasNan \/ "sum" \notin DOMAIN r THEN {} ELSE
             LET up(s, k) == RIsFinite(s[k])
                 kM == FirstMax(F)
                 km == FirstMin(F)
                 of(ix, all) == IF Len(ix) = 0 THEN [k \in 1..all |-> k] ELSE [k \in DOMAIN ix |-> ix[k] + 1]
                 oc == of(r.ofCols, m)
                 or == of(r.ofRows, n)
             IN Must("extremes", RSame(r.maximum, F[kM]) /\ RSame(r.minimum, F[km]) /\ RSame(r.max, F[kM]) /\ RSame(r.min, F[km])
                     /\ RSame(r.maxRow, R[FirstMax(R)]) /\ RSame(r.minRow, R[FirstMin(R)]) /\ RSame(r.maxCol, C[FirstMax(C)]) /\ RSame(r.minCol, C[FirstMin(C)]))
                \cup Must("positions of the extremes",
                     /\ up(F, kM) => r.at[1] = (kM - 1) % n /\ r.at[2] = (kM - 1) \div n
                     /\ up(F, km) => r.at[3] = (km - 1) % n /\ r.at[4] = (km - 1) \div n
                     /\ up(R, FirstMax(R)) => r.at[5] = FirstMax(R) - 1
                     /\ up(R, FirstMin(R)) => r.at[6] = FirstMin(R) - 1
                     /\ up(C, FirstMax(C)) => r.at[7] = FirstMax(C) - 1
                     /\ up(C, FirstMin(C)) => r.at[8] = FirstMin(C) - 1)
                \cup Must("sorting indices", IsSorting(F, r.up, TRUE) /\ IsSorting(F, r.down, FALSE))
                \cup Must("first and last", RSame(r.first, F[1]) /\ RSame(r.last, F[Len(F)]))
                \cup Must("sums", RSame(r.sum, RSum(F)) /\ SameS(r.rowSums, [k \in DOMAIN or |-> RSum(A[or[k]])]) /\ SameS(r.colSums, [k \in DOMAIN oc |-> RSum(Col(A, oc[k]))])
                          /\ RCloseSeq(r.colMeans, [k \in DOMAIN oc |-> MeanOf(Col(A, oc[k]))], "1e-12") /\ r.guard6)
                \cup Must("variance of the columns", "colVariance" \in DOMAIN r => NearM(r.colVariance, Mk(Len(oc), Len(oc), LAMBDA x, y : CovOf(Col(A, oc[x]), Col(A, oc[y]), r.sample)))))
     \cup Must("elements by position",
               LET in == r.gx >= 0 /\ r.gx < n /\ r.gy >= 0 /\ r.gy < m
                   in1 == r.gz >= 0 /\ r.gz < n * m
               IN /\ r.getThrew = ~in /\ (in => RSame(r.get, A[r.gx + 1][r.gy + 1]))
                  /\ r.get1Threw = ~in1 /\ (in1 => RSame(r.get1, F[r.gz + 1]))
                  /\ r.tr = r.tz % n /\ r.tc = r.tz \div n)
     \cup Must("iterators", SameS(r.iter, F) /\ SameS(r.iterColumn, C) /\ SameS(r.iterRow, R))
     \cup Must("inside the storage", r.guard)
\* with a single value, the variance of a population is left undecided; without any, so is the mean that comes with the variance
Moment(r) ==
  LET A == r.a
      n == Rows(A)
      m == Cols(A)
      F == Values(Flat(A), r.check)
      C == Values(Col(A, r.j + 1), r.check)
      P == Pairs(Col(A, r.j + 1), Col(A, r.j2 + 1), r.check)
      tol == "1e-8"
      var(v, s, whole) == (whole = 1 /\ ~r.sample) \/ RClose(v, VarOf(s, r.sample), tol)
      mean(v, s) == Len(s) = 0 \/ RClose(v, MeanOf(s), "1e-12")
      cols == [j \in 1..m |-> Values(Col(A, j), r.check)]
      s1 == SumSquares(P[1], P[1])
      s2 == SumSquares(P[2], P[2])
      const(s) == \A k \in DOMAIN s : RSame(s[k], s[1]) /\ RIsFinite(s[k])
  IN Must("mean", IF Len(F) = 0 THEN RIsNaN(r.mean) ELSE mean(r.mean, F))
     \cup Must("variance", var(r.variance, F, n * m) /\ mean(r.varianceMean, F))
     \cup Must("variance of a column", var(r.varColumn, C, n) /\ mean(r.varColumnMean, C) /\ (n > 1 => r.varColumnCount = Len(C)))
     \cup Must("covariance of two columns", ((n = 1 /\ ~r.sample) \/ RClose(r.covColumn, CovOf(P[1], P[2], r.sample), tol))
               /\ mean(r.covMeans[1], P[1]) /\ mean(r.covMeans[2], P[2]) /\ (n > 1 => r.covCount = Len(P[1])))
     \cup Must("correlation of two columns",
               /\ var(r.corVars[1], P[1], n) /\ var(r.corVars[2], P[2], n) /\ mean(r.corMeans[1], P[1]) /\ mean(r.corMeans[2], P[2])
               /\ n > 1 => r.corCount = Len(P[1])
               /\ (n > 1 /\ Len(P[1]) > 1) =>
                    CASE const(P[1]) /\ const(P[2]) -> RSame(r.corColumn, 1)
                      [] const(P[1]) # const(P[2]) -> ~RIsFinite(r.corColumn)
                      [] OTHER -> RClose(r.corColumn, RDiv(SumSquares(P[1], P[2]), RMul(RSqrt(s1), RSqrt(s2))), "1e-7"))
     \cup Must("means and variances of the columns", \A j \in 1..m :
               /\ IF Len(cols[j]) = 0 THEN RIsNaN(r.means[j]) ELSE mean(r.means[j], cols[j])
               /\ var(r.variances[j], cols[j], n) /\ mean(r.means2[j], cols[j]) /\ var(r.variances2[j], cols[j], n))
     \cup Must("standardized columns", NearM(r.standard, Mk(n, m, LAMBDA x, j : CASE r.mode = 2 -> RSub(A[x][j], r.byMeans[j])
                                                                                    [] OTHER -> Standardized(A[x][j], IF r.mode = 1 THEN 0 ELSE r.byMeans[j], r.bySds[j], r.isVar))))
     \cup Must("sizes that do not fit are refused", r.standardThrew /\ r.meansThrew /\ r.covThrew) \cup Must("inside the storage", r.guard)
Solve(r) ==
  LET A == r.a
      n == Rows(A)
      X == r.out
      fine == r.legal /\ ~r.threw
      near(P, Q, size) == RMNear(P, Q, "1e-8", size)
      size(P, Q) == RMax(1, RMul(RMMax(P), RMMax(Q)))
      T == IF r.upper THEN Upper(A, r.unit) ELSE Lower(A, r.unit)
      op == IF r.tr THEN Tr(T) ELSE T
  IN Must("sizes that do not fit are refused", r.checked /\ ~r.legal => r.threw)
     \cup Must("sizes that fit are accepted", r.legal /\ r.op # "det" => ~r.threw)
     \cup (CASE r.op \in {"inv", "inv2"} -> IF ~fine THEN {} ELSE IF r.singular THEN Must("singular", r.info # 0)
                                            ELSE IF RLt(RAbs(RMDet(A)), "1e-6") THEN {} ELSE Must("inverse", r.info = 0 /\ near(Times(A, X), Eye(n), size(A, X)))
             [] r.op = "det" -> IF r.singular THEN Must("determinant", r.threw \/ RSame(r.value, 0)) ELSE IF RLt(RAbs(RMDet(A)), "1e-6") THEN {} ELSE Must("determinant", ~r.threw /\ RClose(r.value, RMDet(A), "1e-8"))
             [] r.op = "detpd" -> IF r.singular THEN Must("determinant", n = 1 \/ RIsNaN(r.value)) ELSE Must("determinant", RClose(r.value, RMDet(A), "1e-8"))
             [] r.op = "chol" -> IF ~fine THEN {} ELSE IF r.singular THEN Must("not positive definite", r.info # 0)
                                 ELSE Must("Cholesky factor", r.info = 0 /\ SameM(X, IF r.upper THEN Upper(X, FALSE) ELSE Lower(X, FALSE))
                                           /\ near(IF r.upper THEN Times(Tr(X), X) ELSE Times(X, Tr(X)), A, RMax(1, RMMax(A))) /\ \A k \in 1..n : RGt(X[k][k], 0))
             [] r.op = "triangle" -> IF ~fine THEN {} ELSE IF r.singular /\ ~r.unit THEN Must("singular", r.info # 0)
                                     ELSE Must("triangular system", r.info = 0 /\ near(Times(op, X), r.b, RMax(1, size(op, X))))
             [] r.op = "positive" -> IF ~fine THEN {} ELSE IF r.singular THEN Must("not positive definite", r.info # 0) ELSE Must("positive system", r.info = 0 /\ near(Times(A, X), r.b, RMax(1, size(A, X))))
             [] r.op = "norm" -> Must("norm", RClose(r.value, NormOf(A, r.norm), "1e-12"))
             [] r.op = "svdvalues" ->
                  LET G == Times(Tr(A), A)
                  IN Must("singular values", r.info = 0 /\ \A k \in DOMAIN r.S : RGe(r.S[k], 0) /\ (k > 1 => RLe(r.S[k], r.S[k - 1])))
                     \cup Must("squares", RClose(RSum([k \in DOMAIN r.S |-> RSq(r.S[k])]), RSq(NormOf(A, "F")), "1e-9")
                               /\ RClose(RSum([k \in DOMAIN r.S |-> RSq(RSq(r.S[k]))]), RSq(NormOf(G, "F")), "1e-9"))
             [] r.op = "svd" ->
                  LET m == Cols(A)
                      D == Mk(n, m, LAMBDA x, y : IF x = y THEN r.S[x] ELSE 0)
                  IN Must("singular values", r.info = 0 /\ \A k \in DOMAIN r.S : RGe(r.S[k], 0) /\ (k > 1 => RLe(r.S[k], r.S[k - 1])))
                     \cup Must("decomposition", near(Times(Times(r.U, D), r.V), A, RMax(1, RMMax(A))) /\ near(Times(r.U, Tr(r.U)), Eye(n), 1) /\ near(Times(r.V, Tr(r.V)), Eye(m), 1)))
     \cup Must("operands kept", r.kept) \cup Must("inside the storage", r.guard)
Symmetric(r) ==
  LET diag == r.op = "diag"
      bad(w) == w.i < 0 \/ w.i >= r.n \/ (~diag /\ w.i = w.j)
      last(a, b) == LET k == {q \in DOMAIN r.writes : ~bad(r.writes[q]) /\ {r.writes[q].i, r.writes[q].j} = {a, b}} IN IF k = {} THEN 7 ELSE r.writes[MaxOf(k)].x
      cells == {p \in (0..(r.n - 1)) \X (0..(r.n - 1)) : p[1] < p[2] \/ (diag /\ p[1] = p[2])}
  IN Must("writes outside are refused", \A k \in DOMAIN r.writes : r.writes[k].threw = bad(r.writes[k]))
     \cup Must("elements", \A a, b \in 0..(r.n - 1) : IF a = b /\ ~diag THEN ToString(r.get[a + 1][b + 1]) = ToString("refused") ELSE r.get[a + 1][b + 1] = last(a, b))
     \cup Must("any and all", r.any = (\E p \in cells : last(p[1], p[2]) = r.x) /\ r.allOf = (\A p \in cells : last(p[1], p[2]) = r.x))
     \cup Must("length", r.length = Cardinality(cells)) \cup Must("inside the storage", r.guard)
Standard(r) ==
  LET A == r.a
      n == Rows(A)
      m == Cols(A)
      vals == [j \in 1..m |-> Values(Col(A, j), r.check)]
      mean == TLCEval([j \in 1..m |-> IF ~r.center THEN 0 ELSE IF r.ownMean THEN (IF Len(vals[j]) = 0 THEN "nan" ELSE MeanOf(vals[j])) ELSE r.byMeans[j]])
      var == TLCEval([j \in 1..m |-> IF ~r.scale THEN 1 ELSE IF r.ownVar THEN VarOf(vals[j], r.sample) ELSE r.byVars[j]])
      gone == IF r.scale /\ r.drop THEN SelectSeq([j \in 1..m |-> j - 1], LAMBDA j : RSame(var[j + 1], 0)) ELSE <<>>
      left == Left(m, gone)
  IN Must("removed columns", r.removed = gone)
     \cup Must("shape", r.shape = <<n, Len(left)>>)
     \cup Must("means used", r.ownMean => \A j \in 1..m : Len(vals[j]) = 0 \/ RClose(r.means[j], mean[j], "1e-10"))
     \cup Must("variances used", r.ownVar => \A j \in 1..m : RClose(r.vars[j], var[j], "1e-10"))
     \cup Must("standardized", NearM(r.out, Mk(n, Len(left), LAMBDA x, j : LET c == left[j] + 1 IN IF r.scale THEN Standardized(A[x][c], mean[c], var[c], TRUE) ELSE RSub(A[x][c], mean[c]))))
     \cup Must("inside the storage", r.guard)
Fails(r) ==
  CASE r.kind = "product" -> Product(r) [] r.kind = "element" -> Element(r) [] r.kind = "move" -> Move(r) [] r.kind = "query" -> Query(r)
    [] r.kind = "moment" -> Moment(r) [] r.kind = "solve" -> Solve(r) [] r.kind = "symmetric" -> Symmetric(r) [] r.kind = "standard" -> Standard(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
