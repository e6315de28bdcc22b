---------------------------- MODULE ClusterTrace -----------------------------
(* Logs of harness/stat_drv (cluster, group) checked against Cluster.       *)
EXTENDS Cluster, Trace
VARIABLES i
Tol == "1e-9"
TreeOf(r) ==
  LET bad == \E k \in DOMAIN r.d : RIsNaN(r.d[k])
  IN Must("storage respected", r.guard) \cup Must("an undefined distance is rejected, only", r.error = bad)
     \cup IF r.error \/ bad THEN {}
          ELSE IF ~WellFormed(r.n, r.nodes) THEN {"every cluster merged once"}
          ELSE Must("sizes", \A k \in DOMAIN r.nodes : r.nodes[k][5] = Cardinality(Leaves(r.n, r.nodes)[r.nodes[k][1]]))
               \cup Must("heights are the linkage distances", HeightsRight(r.link, r.n, r.d, r.nodes, Tol))
               \cup Must("heights do not decrease", r.n > 1 => Monotone(r.n, r.d, r.nodes, Tol))
               \cup Must("closest pairs are merged", r.n > 1 => Greedy(r.link, r.n, r.d, r.nodes, Tol))
               \cup Must("groups", Len(r.groups) = r.n /\ \A k \in 1 .. r.n : GroupsRight(r.n, r.nodes, r.groups[k], k))
               \cup Must("merge rows", r.n > 1 => MergeRight(r.n, r.nodes, r.merge, r.heights, r.order))
\* the groups of columns before the removal: the removed columns belong to some group
GroupOf(r) ==
  Must("storage respected", r.guard) \cup Must("data not changed", r.kept) \cup Must("no error", r.error = "")
  \cup IF r.error # "" THEN {}
       ELSE Must("undefined distances reported", r.nanFound = r.nan)
            \cup Must("number of groups", Len(r.groups) = r.k)
            \cup Must("every column kept or removed once", KeptAndRemoved(r.m, r.groups, r.removed))
            \cup Must("kept columns of a group are not closer than the threshold", RGt(r.thr, 0) => NoNearKept(r.dist, r.thr, r.groups))
            \cup Must("only near columns are removed", IF RGt(r.thr, 0) THEN RemovedNearKept(r.dist, r.thr, r.groups, r.removed) ELSE r.removed = <<>>)
            \cup Must("no empty group", \A g \in DOMAIN r.groups : r.groups[g] # <<>>)
Fails(r) == CASE r.kind = "cluster" -> TreeOf(r) [] r.kind = "group" -> GroupOf(r)
Init == i = Start
Next == /\ i <= Len(Log)
        /\ LET f == Fails(Log[i]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i, f>>)
        /\ i' = i + 1
        /\ IF i' > Len(Log) THEN PrintT(<<"DONE", Len(Log)>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
