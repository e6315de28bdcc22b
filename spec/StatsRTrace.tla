----------------------------- MODULE StatsRTrace -----------------------------
(* Records of harness/r/stats.R checked against StatsR.                       *)
EXTENDS StatsR, Trace
VARIABLES i
Tol == "1e-9"
WeightOf(r) ==
  IF r.error # "" THEN {"accepted"}
  ELSE Must("weight", RClose(r.w, M!Weight(r.name, r.x, r.mn), Tol))
       \cup Must("back", RClose(r.back, r.x, "1e-7"))
Roc(r) ==
  Must("input not changed", r.kept) \cup
  IF r.hasCost /\ Len(r.costs) # Len(r.y) THEN Must("a cost for every observation", r.error # "")
  ELSE IF A!BadBounds(r) \/ A!BadCosts(r) THEN Must("invalid options are rejected", r.error # "")
  ELSE IF r.error # "" THEN {"accepted"}
  ELSE IF A!Degenerate(r) THEN {}
  ELSE LET c == A!Curve(r)
           n == A!Normalized(c)
       IN Must("auc", RClose(r.auc, A!Area(n, r.lower, r.upper), Tol))
          \cup Must("the same by default", RSame(r.auc, r.auc1))
          \cup Must("number", r.n = Len(r.y))
          \cup Must("points", A!SameCurve(r.points, n))
Quantiles(r) ==
  IF r.error # "" THEN {"accepted"}
  ELSE Must("quantile", \A q \in DOMAIN r.p : RClose(r.q[q], Quantile(r.p[q], r.L), Tol))
       \cup Must("density", \A q \in DOMAIN r.p : RClose(r.d[q], Density(r.p[q], r.L), Tol))
\* parameters from moments: exact mean and variance; the shape is at least as near as that of the start
Gld(r) ==
  IF r.error # "" THEN {"accepted"}
  ELSE LET s == ShapeMoments(r.L[3], r.L[4])
           s0 == ShapeMoments(r.start[1], r.start[2])
           tame(a) == RGt(a, "-0.2")
       IN Must("restriction", Restriction(r.type, r.L[3], r.L[4]))
          \cup Must("names", r.names = <<"L1", "L2", "L3", "L4", "Iter">>)
          \cup Must("iterations", r.iters <= r.most)
          \cup Must("scale", RGt(r.L[2], 0))
          \cup Must("mean", RLe(RAbs(RSub(RAdd(r.L[1], RDiv(s[1], r.L[2])), r.mean)), RMul("1e-6", RAdd(1, RAdd(RAbs(r.L[1]), RDiv(RAbs(s[1]), r.L[2]))))))
          \cup Must("variance", RClose(RDiv(s[2], RSq(r.L[2])), r.variance, "1e-5"))
          \cup Must("shape no worse than at the start", tame(r.L[3]) /\ tame(r.L[4]) => RLe(Miss(s, r.skew, r.kurt), RAdd("1e-6", RMul("1.00001", Miss(s0, r.skew, r.kurt)))))
Combined(r) ==
  LET p == [j \in DOMAIN r.x |-> B!Value(r.x[j], r.w[j])]
  IN IF r.error # "" THEN {"accepted"}
     ELSE Must("mean", RClose(r.mean, B!MeanOf(p), Tol)) \cup Must("variance", RClose(r.variance, B!Mu2(p), Tol))
          \cup Must("skewness", RLe(RAbs(RSub(r.skew, B!Skew(p))), "1e-7"))
          \cup Must("kurtosis is not excess kurtosis", RLe(RAbs(RSub(r.kurt, RAdd(B!Kurt(p), 3))), "1e-7"))
          \cup Must("weight", RClose(r.weight, B!SumW(p), Tol)) \cup Must("count", r.count = Len(r.x))
Components(r) ==
  LET kept == P!Kept(r.x, TRUE, r.scale)
      mo == P!Moments(r.x, r.center, r.scale)
      S == TLCEval(P!Standard(r.x, mo, kept))
      total == P!Total(S)
      c == P!Count(S)
      flat == \A j \in 1 .. P!Cols(r.x) : P!Constant(P!Col(r.x, j))
  IN Must("input not changed", r.kept) \cup
     IF kept = <<>> THEN Must("nothing to analyse is refused", r.error # "")
     ELSE IF r.error # "" THEN {"accepted"}
     ELSE Must("removed", r.scale => r.removed = SelectSeq([j \in 1 .. P!Cols(r.x) |-> j - 1], LAMBDA j : P!Constant(P!Col(r.x, j + 1))))
          \cup IF flat THEN {}
               ELSE IF Len(r.stds) # c \/ Len(r.ratios) # c \/ Len(r.dirs) < c \/ (\E q \in 1 .. c : Len(r.dirs[q]) # Len(kept)) THEN {"shape"}
               ELSE LET Q == TLCEval(P!Project(S, r.dirs, c)) IN
                    Must("orthonormal directions", P!Orthonormal(r.dirs, c, Tol))
                    \cup Must("uncorrelated components with the dispersions", P!Uncorrelated(Q, r.stds, total, Tol))
                    \cup Must("in order", P!InOrder(r.stds)) \cup Must("complete", P!Complete(r.stds, total, Tol))
                    \cup Must("ratios", RCloseSeq(r.ratios, P!Ratios(r.stds), "1e-10"))
                    \cup (IF r.nx = <<>> THEN Must("no projections", r.fc = <<>>)
                          ELSE LET F == P!Project(TLCEval(P!Standard(r.nx, mo, kept)), r.dirs, c)
                               IN Must("projections", Len(r.fc) = Len(F) /\ \A q \in DOMAIN F : Len(r.fc[q]) >= c /\ \A j \in 1 .. c : RLe(RAbs(RSub(r.fc[q][j], F[q][j])), RMul(Tol, RMul(Len(kept), RAdd(1, RMMax(F)))))))
DistanceRight(method, d, s, t) ==
  LET p == Common(s, t)
      me == MethodName(method)
      x == p[1]
      y == p[2]
      ranked(z) == IF me \in {"spearman", "absspearman"} THEN D!Ranks(z, FALSE) ELSE z
      corr == me \in {"pearson", "spearman", "abspearson", "absspearman"}
  IN IF x = <<>> THEN TRUE
     ELSE IF corr THEN ~(D!Varies(ranked(x)) /\ D!Varies(ranked(y)))
                       \/ RLe(RAbs(RSub(RSq(d), RSq(D!DistOf(me, x, y)))), RMul(Tol, RMul(D!Amplify(ranked(x)), D!Amplify(ranked(y)))))
     ELSE RLe(RAbs(RSub(d, D!DistOf(me, x, y))), RMul(Tol, RAdd(1, RAdd(D!AbsMax(x), D!AbsMax(y)))))
Distances(r) ==
  Must("input not changed", r.kept) \cup
  IF r.error # "" THEN {"accepted"}
  ELSE IF Len(r.d) # (r.m * (r.m - 1)) \div 2 THEN {"number"}
  ELSE Must("distances", \A q \in DOMAIN r.d : LET p == Pairs(r.m)[q] IN DistanceRight(r.method, r.d[q], r.cols[p[1] + 1], r.cols[p[2] + 1]))
Triangular(k) == \E n \in 2 .. 20 : n * (n - 1) = 2 * k
Tree(r) ==
  LET nodes == Nodes(r.n, r.merge, r.heights) IN
  Must("input not changed", r.kept) \cup
  IF ~Triangular(Len(r.d)) THEN Must("not a triangle", r.error # "")
  ELSE IF r.error # "" THEN {"accepted"}
  ELSE IF r.bad THEN {}
  ELSE IF Len(r.heights) # Len(r.merge) \/ ~Earlier(r.merge) THEN {"rows refer to earlier rows"}
  ELSE IF ~C!WellFormed(r.n, nodes) THEN {"every cluster merged once"}
  ELSE Must("heights in order", \A j \in 2 .. Len(r.heights) : RLe(r.heights[j - 1], r.heights[j]))
       \cup Must("heights are the linkage distances", C!HeightsRight(LinkName(r.link), r.n, r.d, nodes, Tol))
       \cup Must("closest pairs are merged", C!Greedy(LinkName(r.link), r.n, r.d, nodes, Tol))
Groups(r) ==
  LET low == [g \in DOMAIN r.groups |-> [a \in DOMAIN r.groups[g] |-> r.groups[g][a] - 1]]
      rem == [a \in DOMAIN r.removed |-> r.removed[a] - 1]
      nan == \E q \in DOMAIN r.dist : RIsNaN(r.dist[q])
      m == [a \in 1 .. r.m |-> [b \in 1 .. r.m |-> C!D(r.m, r.dist, a - 1, b - 1)]]
  IN Must("input not changed", r.kept) \cup
     IF RLt(r.thr, 0) THEN Must("negative threshold", r.error # "")
     ELSE IF r.error # "" THEN {"accepted"}
     ELSE Must("warning", r.warned = nan)
          \cup Must("number of groups", Len(low) = r.k)
          \cup Must("every column kept or removed once", C!KeptAndRemoved(r.m, low, rem))
          \cup Must("no empty group", \A g \in DOMAIN low : low[g] # <<>>)
          \cup IF nan \/ ~C!KeptAndRemoved(r.m, low, rem) THEN {}
               ELSE Must("kept columns of a group are not closer than the threshold", RGt(r.thr, 0) => C!NoNearKept(m, r.thr, low))
                    \cup Must("only near columns are removed", IF RGt(r.thr, 0) THEN C!RemovedNearKept(m, r.thr, low, rem) ELSE rem = <<>>)
                    \cup Must("clusters of the tree", RSame(r.thr, 0) /\ r.merge # <<>> /\ Earlier(r.merge) => C!GroupsRight(r.m, Nodes(r.m, r.merge, [k \in DOMAIN r.merge |-> 0]), low, r.k))
Fails(r) == CASE r.kind = "weight" -> WeightOf(r) [] r.kind = "roc" -> Roc(r) [] r.kind = "quantile" -> Quantiles(r) [] r.kind = "gld" -> Gld(r)
              [] r.kind = "combine" -> Combined(r) [] r.kind = "pca" -> Components(r) [] r.kind = "distance" -> Distances(r)
              [] r.kind = "cluster" -> Tree(r) [] r.kind = "group" -> Groups(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
