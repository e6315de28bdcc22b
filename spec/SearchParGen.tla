---------------------------- MODULE SearchParGen ----------------------------
(* Behaviours of SearchPar as schedules for the real engine: every order of *)
(* "let group g go on" (run, finish) and every moment of a cancel, for      *)
(* searches given by <<partitions (of one variable), sizes, inner groups>>. *)
(* A group picks its next model by itself, so picks come as early as they   *)
(* can; after a cancel a picked model may run, be given up, in any order.   *)
EXTENDS SearchPar, TLC, Json
Models == INSTANCE Search
CONSTANTS Searches
VARIABLES q, s, h
vars == <<q, s, h>>
Small == {<<1, <<1>>, 3>>, <<2, <<1>>, 2>>, <<2, <<1, 2>>, 1>>, <<3, <<1, 3>>, 1>>, <<2, <<2, 1>>, 1>>, <<4, <<1>>, 1>>, <<2, <<2>>, 3>>, <<3, <<3>>, 4>>}
Large == Small \cup {<<2, <<1, 2>>, 2>>, <<3, <<1>>, 2>>, <<3, <<1, 2, 3>>, 1>>, <<3, <<3>>, 5>>, <<2, <<2>>, 4>>}
Parts(p) == [i \in 1 .. p |-> <<i>>]
\* groups in the order of the engine: sizes first, inner groups within
N(x) == [g \in 1 .. (Len(x[2]) * x[3]) |-> Cardinality(Models!Models(Parts(x[1]), 0, 1, x[2][((g - 1) \div x[3]) + 1]))]
Picks(z) == {g \in DOMAIN z.n : Can(z, <<"pick", g>>)}
RECURSIVE PickAll(_)
PickAll(z) == IF Picks(z) = {} THEN z ELSE PickAll(Apply(z, <<"pick", CHOOSE g \in Picks(z) : TRUE>>))
Init == q \in Searches /\ s = PickAll(Fresh(N(q))) /\ h = <<>>
Go(name, g) == Can(s, <<name, g>>) /\ s' = PickAll(Apply(s, <<name, g>>)) /\ h' = Append(h, g)
Stop == Can(s, <<"cancel", 0>>) /\ ~Over(s) /\ s' = Apply(s, <<"cancel", 0>>) /\ h' = Append(h, 0)
Next == /\ (Stop \/ \E g \in DOMAIN s.n : Go("run", g) \/ Go("finish", g))
        /\ UNCHANGED q
        /\ IF Over(s') /\ (s'.cancelled => s'.run = s'.picked) THEN PrintT("GEN " \o ToJson([parts |-> q[1], sizes |-> q[2], inner |-> q[3], steps |-> h'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
