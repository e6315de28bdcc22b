------------------------------- MODULE MCPca -------------------------------
(* The selection of components for every small spectrum and options.       *)
EXTENDS Pca
CONSTANTS Top, Len0
VARIABLES spec, o, used
vars == <<spec, o, used>>
Rates == {"0.25", "0.5", "0.75", "0.9"}
Spectra == UNION {{s \in [1 .. n -> 0 .. Top] : s[1] > 0 /\ \A q \in 1 .. (n - 1) : s[q] >= s[q + 1]} : n \in 1 .. Len0}
R(s) == LET t == RSum(s) IN [q \in DOMAIN s |-> RDiv(s[q], t)]
Options == [ignore : 0 .. 2, exact : 0 .. Len0 + 1, cutoff : Rates, max : 1 .. Len0]
Init == spec \in Spectra /\ o \in Options /\ used = 0
\* a model of the ignored variables and of as many others as the spectrum has
Select == /\ used = 0
          /\ used' = IF Refused(o, o.ignore + Len(spec), FALSE, Len(spec)) THEN -1 ELSE Final(R(spec), o)
          /\ UNCHANGED <<spec, o>>
\* another rate
Raise == /\ used > 0 /\ o.exact = 0
         /\ \E r \in Rates : RLt(o.cutoff, r) /\ o' = [o EXCEPT !.cutoff = r] /\ used' = Final(R(spec), o')
         /\ UNCHANGED spec
Next == Select \/ Raise
Spec == Init /\ [][Next]_vars
InRange == used > 0 => used <= Len(spec)
Possible == used # 0 => (used = -1 <=> o.exact > Len(spec))
ExactCount == used > 0 /\ o.exact > 0 => used = o.exact
AtMost == used > 0 /\ o.exact = 0 => used <= o.max
ExplainsEnough == used > 0 /\ o.exact = 0 /\ used < o.max /\ used < Len(spec) => RLt(o.cutoff, Explained(R(spec), used))
NoneNeedless == used > 1 /\ o.exact = 0 => ~RLt(o.cutoff, Explained(R(spec), used - 1))
NeverFewer == [][used > 0 => used' >= used]_vars
=============================================================================
