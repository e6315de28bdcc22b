------------------------------- MODULE Cluster -------------------------------
(* Agglomerative clustering.  Points are 0..n-1; merge k creates the cluster *)
(* n+k-1.  State of the process: the clusters that are not merged yet; step: *)
(* merge a closest pair.  MCCluster explores the process and the nearest-    *)
(* neighbour chain that the library uses; ClusterTrace checks its trees.     *)
EXTENDS Integers, Sequences, FiniteSets, FReal

\* ---- a distance matrix as the sequence (0,1), (0,2), .., (1,2), ..
PairPos(n, i, j) == \* i < j
  ((i * n) - ((i * (i + 1)) \div 2)) + (j - i)
D(n, d, i, j) == IF i = j THEN 0 ELSE IF i < j THEN d[PairPos(n, i, j)] ELSE d[PairPos(n, j, i)]

\* ---- trees: nodes[k] = <<id, left, right, height, size>>, ids n, n+1, ..
Ids(n, nodes) == 0 .. ((n + Len(nodes)) - 1)
IsLeaf(n, c) == c < n
Left(n, nodes, c) == nodes[(c - n) + 1][2]
Right(n, nodes, c) == nodes[(c - n) + 1][3]
Height(n, nodes, c) == IF IsLeaf(n, c) THEN 0 ELSE nodes[(c - n) + 1][4]
\* every point and cluster is merged exactly once, after it exists
WellFormed(n, nodes) ==
  /\ Len(nodes) = n - 1
  /\ \A k \in DOMAIN nodes : nodes[k][1] = (n + k) - 1 /\ nodes[k][2] # nodes[k][3]
                             /\ nodes[k][2] \in 0 .. (nodes[k][1] - 1) /\ nodes[k][3] \in 0 .. (nodes[k][1] - 1)
  /\ \A c \in 0 .. ((2 * n) - 3) : Cardinality({k \in DOMAIN nodes : nodes[k][2] = c \/ nodes[k][3] = c}) = 1
Leaves(n, nodes) == \* leaves of every node
  LET F[c \in Ids(n, nodes)] == IF c < n THEN {c} ELSE F[Left(n, nodes, c)] \cup F[Right(n, nodes, c)] IN F
Parent(n, nodes, c) == n - 1 + (CHOOSE k \in DOMAIN nodes : nodes[k][2] = c \/ nodes[k][3] = c)
HasParent(n, nodes, c) == c < n + Len(nodes) - 1

\* ---- linkages, from the points (independent of how the clusters were built)
SeqOfSet(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o F[T \ {x}] IN F[S]
Cross(n, d, A, B) == \* distances of the pairs, as a sequence (duplicates kept)
  LET a == SeqOfSet(A)
      b == SeqOfSet(B)
      m == Len(b)
  IN [k \in 1 .. (Len(a) * m) |-> D(n, d, a[((k - 1) \div m) + 1], b[((k - 1) % m) + 1])]
MinOf(s) == LET F[k \in 1 .. Len(s)] == IF k = 1 THEN s[1] ELSE RMin(F[k - 1], s[k]) IN F[Len(s)]
MaxOf(s) == LET F[k \in 1 .. Len(s)] == IF k = 1 THEN s[1] ELSE RMax(F[k - 1], s[k]) IN F[Len(s)]
\* weight of each point within a cluster of the tree: halved at each merge (WPGMA)
Depths(n, nodes, c) ==
  LET F[x \in Ids(n, nodes)] == IF x < n THEN [p \in {x} |-> 0]
                                ELSE LET l == F[Left(n, nodes, x)] r == F[Right(n, nodes, x)]
                                     IN [p \in DOMAIN l \cup DOMAIN r |-> 1 + (IF p \in DOMAIN l THEN l[p] ELSE r[p])]
  IN F[c]
Pow2(k) == LET F[i \in 0 .. k] == IF i = 0 THEN 1 ELSE 2 * F[i - 1] IN F[k]
Weighted(n, d, A, B, wa, wb) ==
  LET a == SeqOfSet(A)
      b == SeqOfSet(B)
      m == Len(b)
  IN RSum([k \in 1 .. (Len(a) * m) |-> LET x == a[((k - 1) \div m) + 1] y == b[((k - 1) % m) + 1]
                                       IN RDiv(D(n, d, x, y), Pow2(wa[x] + wb[y]))])
Linkage(link, n, d, nodes, x, y) ==
  LET L == Leaves(n, nodes)
      A == L[x]
      B == L[y]
      a == Cardinality(A)
      b == Cardinality(B)
      mean(P, Q) == RDiv(RSum(Cross(n, d, P, Q)), Cardinality(P) * Cardinality(Q))
  IN CASE link = "single" -> MinOf(Cross(n, d, A, B))
       [] link = "complete" -> MaxOf(Cross(n, d, A, B))
       [] link = "upgma" -> mean(A, B)
       [] link = "wpgma" -> Weighted(n, d, A, B, Depths(n, nodes, x), Depths(n, nodes, y))
       [] link = "ward" -> \* closed form of the Lance-Williams recursion
            RMul(RDiv(2 * a * b, a + b), RSub(mean(A, B), RDiv(RAdd(mean(A, A), mean(B, B)), 2)))

\* ---- a valid agglomeration
Scale(d) == IF d = <<>> THEN 1 ELSE RMax(MaxOf(d), "1e-300")
HeightsRight(link, n, d, nodes, tol) ==
  \A k \in DOMAIN nodes : RClose(RDiv(nodes[k][4], Scale(d)), RDiv(Linkage(link, n, d, nodes, nodes[k][2], nodes[k][3]), Scale(d)), tol)
Monotone(n, d, nodes, tol) ==
  \A c \in 0 .. ((2 * n) - 3) : c >= n => RLe(Height(n, nodes, c), RAdd(Height(n, nodes, Parent(n, nodes, c)), RMul(tol, Scale(d))))
\* two clusters that are available together are not closer than the first merge of one of them
Greedy(link, n, d, nodes, tol) ==
  \A x, y \in 0 .. ((2 * n) - 3) :
    (x < y /\ Leaves(n, nodes)[x] \cap Leaves(n, nodes)[y] = {}) =>
      LET born == RMax(Height(n, nodes, x), Height(n, nodes, y))
          dies == RMin(Height(n, nodes, Parent(n, nodes, x)), Height(n, nodes, Parent(n, nodes, y)))
          slack == RMul(tol, Scale(d))
      IN RLt(RAdd(born, slack), dies) => RGe(RAdd(Linkage(link, n, d, nodes, x, y), slack), dies)

\* ---- k groups: a partition into clusters of the tree
GroupsRight(n, nodes, groups, k) ==
  /\ Len(groups) = k
  /\ \A g \in DOMAIN groups : \A a, b \in DOMAIN groups[g] : a # b => groups[g][a] # groups[g][b]
  /\ \A g, h \in DOMAIN groups : g # h => {groups[g][a] : a \in DOMAIN groups[g]} \cap {groups[h][a] : a \in DOMAIN groups[h]} = {}
  /\ UNION {{groups[g][a] : a \in DOMAIN groups[g]} : g \in DOMAIN groups} = 0 .. (n - 1)
  /\ \A g \in DOMAIN groups : \E c \in Ids(n, nodes) : Leaves(n, nodes)[c] = {groups[g][a] : a \in DOMAIN groups[g]}

\* ---- the form used by R: rows in the order of the heights; -i for point i, j for row j
RowLeaves(rows) ==
  LET F[j \in 1 .. Len(rows)] ==
        LET part(v) == IF v < 0 THEN {-v} ELSE IF v < j THEN F[v] ELSE {}
        IN part(rows[j][1]) \cup part(rows[j][2])
  IN F
MergeRight(n, nodes, rows, heights, order) ==
  /\ Len(rows) = n - 1 /\ Len(heights) = n - 1 /\ Len(order) = n - 1
  /\ {order[j] : j \in DOMAIN order} = 0 .. (n - 2)
  /\ \A j \in DOMAIN rows : RSame(heights[j], nodes[order[j] + 1][4])
  /\ \A j \in 2 .. Len(heights) : RLe(heights[j - 1], heights[j])
  /\ \A j \in DOMAIN rows : \A s \in 1 .. 2 : rows[j][s] \in ((-n) .. (-1)) \cup (1 .. (n - 1))
  /\ \A j \in DOMAIN rows : \A s \in 1 .. 2 : rows[j][s] >= j => RClose(heights[j], heights[rows[j][s]], "1e-12")
  /\ (\A j \in DOMAIN rows : \A s \in 1 .. 2 : rows[j][s] < j) =>
       \A j \in DOMAIN rows : RowLeaves(rows)[j] = {p + 1 : p \in Leaves(n, nodes)[(n + order[j])]}

\* ---- grouping of variables by their distances, dropping near copies
KeptAndRemoved(m, groups, removed) ==
  LET kept == UNION {{groups[g][a] : a \in DOMAIN groups[g]} : g \in DOMAIN groups}
      rem == {removed[a] : a \in DOMAIN removed}
  IN /\ kept \cap rem = {} /\ kept \cup rem = 0 .. (m - 1)
     /\ Len(removed) = Cardinality(rem)
     /\ \A g, h \in DOMAIN groups : \A a \in DOMAIN groups[g] : \A b \in DOMAIN groups[h] : (g # h \/ a # b) => groups[g][a] # groups[h][b]
NoNearKept(dist, thr, groups) ==
  \A g \in DOMAIN groups : \A a, b \in DOMAIN groups[g] : a < b => ~RLt(dist[groups[g][a] + 1][groups[g][b] + 1], thr)
RemovedNearKept(dist, thr, groups, removed) ==
  \A r \in DOMAIN removed : \E g \in DOMAIN groups : \E a \in DOMAIN groups[g] : RLt(dist[removed[r] + 1][groups[g][a] + 1], thr)
=============================================================================
