----------------------------- MODULE SearchPar -----------------------------
(* A search as a process.  The models are dealt into groups (one per size   *)
(* and inner group); every group is walked by at most one thread at a time, *)
(* model by model; a request to cancel may come at any moment.              *)
(* State s: n[g] models of group g; how many were picked, run and finished; *)
(* whether a cancel was requested, and how many models of each group were   *)
(* finished then.                                                           *)
(* An event is <<name, g>> with name in pick, run, finish, or <<"cancel",0>>.*)
EXTENDS Integers, Sequences, FiniteSets

Zero(n) == [g \in DOMAIN n |-> 0]
Fresh(n) == [n |-> n, picked |-> Zero(n), run |-> Zero(n), finished |-> Zero(n), cancelled |-> FALSE, atcancel |-> Zero(n)]

Can(s, e) ==
  LET g == e[2]
  IN CASE e[1] = "pick"   -> ~s.cancelled /\ s.picked[g] < s.n[g] /\ s.finished[g] = s.picked[g]
       [] e[1] = "run"    -> s.picked[g] > s.run[g]
       [] e[1] = "finish" -> s.run[g] > s.finished[g]
       [] e[1] = "cancel" -> ~s.cancelled
       [] OTHER -> FALSE
Apply(s, e) ==
  LET g == e[2]
  IN CASE e[1] = "pick"   -> [s EXCEPT !.picked[g] = @ + 1]
       [] e[1] = "run"    -> [s EXCEPT !.run[g] = @ + 1]
       [] e[1] = "finish" -> [s EXCEPT !.finished[g] = @ + 1]
       [] e[1] = "cancel" -> [s EXCEPT !.cancelled = TRUE, !.atcancel = s.finished]
\* a model that was picked before the cancel may be given up before it runs
Over(s) == IF s.cancelled THEN s.run = s.finished ELSE \A g \in DOMAIN s.n : s.finished[g] = s.n[g]

\* the state after a sequence of events, or the events that can not happen
RECURSIVE Walk(_, _, _)
Walk(s, ev, k) == IF k > Len(ev) THEN [ok |-> TRUE, s |-> s, at |-> 0]
                  ELSE IF Can(s, ev[k]) THEN Walk(Apply(s, ev[k]), ev, k + 1) ELSE [ok |-> FALSE, s |-> s, at |-> k]
=============================================================================
