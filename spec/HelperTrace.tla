---------------------------- MODULE HelperTrace ----------------------------
(* Logs of harness/help_drv (arrays, polynomials) checked against Helpers.  *)
EXTENDS Helpers, Trace
VARIABLES i

SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : RSame(a[k], b[k])
RangeOf(r) ==
  LET v == Valid(r.data) # {}
  IN Must("valid", r.valid = v /\ r.valid2 = v)
     \cup Must("first and last", v => r.from = First(r.data) - 1 /\ r.to = Last(r.data) - 1 /\ r.from2 = r.from /\ r.to2 = r.to)
     \cup Must("count", r.count = IF v THEN (Last(r.data) - First(r.data)) + 1 ELSE 0)
     \cup Must("gaps", r.missing = HasGap(r.data))
Interp(r) ==
  LET o == Interpolated(r.data)
  IN Must("interpolated values", Len(o) = Len(r.out) /\ \A k \in DOMAIN o : IF IsInterior(r.data, k) THEN RClose(o[k], r.out[k], "1e-12") ELSE RSame(o[k], r.out[k]))
     \cup Must("number of filled values", r.n = Filled(r.data))
     \cup Must("range", r.valid = (Valid(r.data) # {}) /\ (r.valid => r.from = First(r.data) - 1 /\ r.to = Last(r.data) - 1))
PartsOf(r) == Must("parts", r.parts = Parts(r.data, r.size, r.fromEnd))
BoxCoxOf(r) ==
  Must("transformed", \A k \in DOMAIN r.data : RClose(r.out[k], BoxCox(r.data[k], r.lambda), "1e-9") /\ RSame(r.out0[k], r.out[k]))
  \cup Must("inverse", \A k \in DOMAIN r.data : RClose(r.back[k], r.data[k], "1e-9") /\ RSame(r.back0[k], r.back[k]))
Trimmed(r) ==
  LET ta == TrimZeros(r.a)
      tb == TrimZeros(r.b)
  IN IF ta = <<>> \/ tb = <<>> THEN Must("zero polynomials are rejected", r.error) ELSE Must("trimmed", ~r.error /\ SameSeq(r.ta, ta) /\ SameSeq(r.tb, tb))
Poly(r, want(_)) ==
  IF r.error # "" THEN {"no error"} ELSE Must("coefficients", want(r.out)) \cup Must("inside the storage", r.inside)
Fails(r) ==
  CASE r.kind = "range" -> RangeOf(r) [] r.kind = "interpolate" -> Interp(r) [] r.kind = "parts" -> PartsOf(r) [] r.kind = "boxcox" -> BoxCoxOf(r)
    [] r.kind = "trim" -> Trimmed(r)
    [] r.kind = "mul" -> Poly(r, LAMBDA o : SamePoly(o, Cut(Mul(r.a, r.b), r.len)))
    [] r.kind = "pow" -> Poly(r, LAMBDA o : SamePoly(o, Cut(Power(r.a, r.power), r.len)))
    [] r.kind = "mmul" -> Poly(r, LAMBDA o : SamePolyM(o, Cut(PMul(r.a, r.b, r.size), r.len)))
    [] r.kind = "smul" -> Poly(r, LAMBDA o : SamePolyM(o, Cut(PMulScalar(r.a, r.b, r.size), r.len)))
    [] r.kind = "minv" -> Poly(r, LAMBDA o : Len(o) = r.len /\ IsInverse(r.a, o, r.size)) \cup Must("argument kept", r.kept)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
