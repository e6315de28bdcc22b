------------------------------ MODULE Printing ------------------------------
(* What the printed text about an estimated model, a search, a prediction or *)
(* a set of options has to say, as a function of the object.                 *)
EXTENDS FReal, Integers, Sequences, FiniteSets, TLC
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Text(n) == ToString(n)
Numbers(s) == Join([k \in DOMAIN s |-> Text(s[k])], ", ")

\* ---- names of models
VarmaName(p, g, names) ==
  LET many == g > 1
      seasonal == p[4] # 0 \/ p[5] # 0 \/ p[6] # 0
      tail == IF many THEN ": " \o names ELSE ""
      v == IF many THEN "V" ELSE ""
      base == IF p[1] = 0 /\ p[3] = 0 /\ p[4] = 0 /\ p[6] = 0 THEN
                "OLM" \o (IF p[2] = 0 /\ p[5] = 0 THEN "" ELSE IF p[5] = 0 THEN " (d=" \o Text(p[2]) \o ")" ELSE IF p[2] = 0 THEN " (D=" \o Text(p[5]) \o ")"
                          ELSE " (d=" \o Text(p[2]) \o "D=" \o Text(p[5]) \o ")")
              ELSE IF seasonal THEN "S-" \o v \o "ARIMA(" \o Numbers(p) \o ")"
              ELSE IF p[2] # 0 THEN v \o "ARIMA(" \o Numbers(SubSeq(p, 1, 3)) \o ")"
              ELSE IF p[3] = 0 THEN v \o "AR(" \o Text(p[1]) \o ")"
              ELSE IF p[1] = 0 THEN v \o "MA(" \o Text(p[3]) \o ")"
              ELSE v \o "ARMA(" \o Text(p[1]) \o ", " \o Text(p[3]) \o ")"
  IN base \o tail
Zero(x) == RSame(x, 0)
SurName(g, names, free) == IF g = 1 THEN "Linear Model" ELSE IF free THEN "Unrestricted SUR: " \o names ELSE "SUR: " \o names
BinaryName(link) == IF link = "logit" THEN "Logit Model" ELSE "Probit Model"

\* ---- marks of significance
Mark(p, restricted) == IF restricted THEN "r" ELSE IF RIsNaN(p) THEN "" ELSE IF RLt(p, "0.001") THEN "***" ELSE IF RLt(p, "0.01") THEN "**"
                       ELSE IF RLt(p, "0.05") THEN "*" ELSE IF RLt(p, "0.1") THEN "." ELSE ""

\* ---- printed parts of a search
First(s, P(_)) == IF \E k \in DOMAIN s : P(s[k]) THEN s[CHOOSE k \in DOMAIN s : P(s[k]) /\ \A h \in 1 .. (k - 1) : ~P(s[h])] ELSE [none |-> TRUE]
None(x) == "none" \in DOMAIN x
Interval(m, v) == LET d == RMul("1.95", RSqrt(v)) IN <<RSub(m, d), m, RAdd(m, d)>>
Away(iv) == RGt(iv[1], 0) \/ RLt(iv[3], 0)
\* 1: significant, 0: not, 2: too near to tell
Sure(iv) == IF RIsNaN(iv[1]) THEN 0 ELSE IF RLt(RAbs(iv[1]), "1e-9") \/ RLt(RAbs(iv[3]), "1e-9") THEN 2 ELSE IF Away(iv) THEN 1 ELSE 0
=============================================================================
