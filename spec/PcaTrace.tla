------------------------------ MODULE PcaTrace ------------------------------
(* Records of harness/pca_drv checked against Pca.                          *)
EXTENDS Pca, Trace
VARIABLES i
TolS == "1e-9"
Near(A, B, tol, size) == Len(A) = Len(B) /\ \A q \in DOMAIN A : Len(A[q]) = Len(B[q]) /\ \A j \in DOMAIN A[q] : RLe(RAbs(RSub(A[q][j], B[q][j])), RMul(tol, size[j]))
Ones(n) == [j \in 1 .. n |-> 1]
Scale(x, mo, kept) == [j \in DOMAIN kept |-> RAdd(1, RDiv(RMax(RAbs(mo[kept[j]].m), 1), mo[kept[j]].s))]
ColMax(x, j) == RMMax([q \in DOMAIN x |-> <<x[q][j]>>])

\* an analysis
Judge(a) ==
  LET kept == Kept(a.x, a.check, a.scale)
      mo == Moments(a.x, a.center, a.scale)
      bad == \E j \in DOMAIN kept : a.scale /\ Constant(Col(a.x, kept[j]))
      S == TLCEval(Standard(a.x, mo, kept))
      total == Total(S)
      c == Count(S)
  IN Must("memory respected", a.guard) \cup Must("data not changed", a.kept) \cup Must("repeated", a.repeated)
     \cup IF kept = <<>> THEN Must("nothing to analyse is refused", a.error # "")
          ELSE IF bad THEN {}                                          \* no unit for a constant: nothing is claimed
          ELSE IF a.error # "" THEN Must("not refused", FALSE)
          ELSE Must("removed", a.scale /\ a.check => a.removed = SelectSeq([j \in 1 .. Cols(a.x) |-> j - 1], LAMBDA j : Constant(Col(a.x, j + 1))))
               \cup Must("standardized sample", (a.center \/ a.scale) => Near(a.s, S, TolS, [j \in DOMAIN kept |-> RAdd(1, RDiv(RAbs(ColMax(a.x, kept[j])), mo[kept[j]].s))]))
               \cup Must("shape", Len(a.stds) = c /\ Len(a.ratios) = c /\ Len(a.dirs) >= c /\ \A q \in 1 .. c : Len(a.dirs[q]) = Len(kept))
               \cup IF Len(a.stds) # c \/ Len(a.dirs) < c \/ (\E q \in 1 .. c : Len(a.dirs[q]) # Len(kept)) \/ (\A j \in DOMAIN kept : Constant(Col(a.x, kept[j]))) THEN {}
                    ELSE LET P == TLCEval(Project(S, a.dirs, c))
                             big == RMul(TolS, RAdd(1, RMax(RMMax(S), 1)))
                             near(A, B) == Len(A) = Len(B) /\ \A q \in DOMAIN A : Len(A[q]) >= c /\ \A j \in 1 .. c : RLe(RAbs(RSub(A[q][j], B[q][j])), RMul(TolS, RMul(Len(kept), RAdd(1, RMMax(B)))))
                         IN Must("orthonormal directions", Orthonormal(a.dirs, c, TolS))
                            \cup Must("uncorrelated components with the dispersions", Uncorrelated(P, a.stds, total, TolS))
                            \cup Must("in order", InOrder(a.stds))
                            \cup Must("complete", Complete(a.stds, total, TolS))
                            \cup Must("ratios", RCloseSeq(a.ratios, Ratios(a.stds), "1e-10"))
                            \cup Must("components", a.dopcs => near(a.pcs, P))
                            \cup Must("new values", a.nx # <<>> => near(a.fc, Project(TLCEval(Standard(a.nx, mo, kept)), a.dirs, c)))
                            \cup Must("cutoff", \A q \in DOMAIN a.rates : a.cuts[q] = Enough(a.ratios, a.rates[q]) \/ \E n \in DOMAIN a.ratios : RLt(RAbs(RSub(Explained(a.ratios, n), a.rates[q])), "1e-9"))

\* the selection for a model: what replaces the variables
Alone(b) == b.ignore >= b.c \/ b.an.error # "" \/ \E j \in (b.ignore + 1) .. b.c : Constant(Col(b.x, j))
Available(b) == IF b.ignore >= b.c THEN 0 ELSE Less(Len(b.x), b.c - b.ignore)
MustRefuse(b) == b.ignore >= b.c \/ Refused(b, b.c, \E j \in (b.ignore + 1) .. b.c : Constant(Col(b.x, j)), Available(b))
\* the components are those of the verified analysis
UsedRight(b) ==
  LET c == Final(b.an.ratios, b)
      tight == \E n \in DOMAIN b.an.ratios : b.exact = 0 /\ RLt(RAbs(RSub(Explained(b.an.ratios, n), b.cutoff)), "1e-9")
      near(A, B) == Len(A) = Len(B) /\ \A q \in DOMAIN A : Len(A[q]) = Len(B[q]) /\ \A j \in DOMAIN A[q] : RLe(RAbs(RSub(A[q][j], B[q][j])), RMul(TolS, RAdd(1, RAbs(B[q][j]))))
  IN Must("analysis refused", b.an.error = "") \cup IF b.an.error # "" THEN {} ELSE
     Judge(b.an) \cup IF tight THEN {} ELSE
     Must("what is used", near(b.used, Replaced(b.x, b.ignore, b.an.pcs, c)))
     \cup Must("new values used", b.nx # <<>> => near(b.nused, Replaced(b.nx, b.ignore, b.an.fc, c)))
JudgeSelect(r) ==
  Must("memory respected", r.guard)
  \cup Must("refused", MustRefuse(r.b) => r.error # "")
  \cup Must("not refused", ~MustRefuse(r.b) => r.error = "")
  \cup IF r.error # "" \/ MustRefuse(r.b) THEN {} ELSE UsedRight(r.b)
\* a model on components is the model of the components
JudgeModel(r) ==
  LET refuse == \E q \in DOMAIN r.blocks : MustRefuse(r.blocks[q])
  IN Must("memory respected", r.guard) \cup Must("data not changed", r.kept)
     \cup Must("refused", refuse => r.error # "")
     \cup Must("refused as the model of the components", ~refuse => r.can /\ ((r.error = "") <=> (r.error2 = "")))
     \cup IF r.error # "" \/ r.error2 # "" \/ refuse THEN {}
          ELSE UNION {UsedRight(r.blocks[q]) : q \in DOMAIN r.blocks}
               \cup Must("the estimates are those of the model of the components", RCloseSeq(r.a, r.b, "1e-9"))
Judged(r) == CASE r.kind = "raw" -> Judge(r.an) [] r.kind = "select" -> JudgeSelect(r) [] OTHER -> JudgeModel(r)

Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Judged(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
