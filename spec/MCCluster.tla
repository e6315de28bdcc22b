------------------------------ MODULE MCCluster ------------------------------
(* The nearest-neighbour chain of the library, step by step, over every     *)
(* small distance matrix (ties included) and every linkage: it ends, and    *)
(* its tree is an agglomeration that merges closest pairs.                  *)
EXTENDS Cluster
CONSTANTS N, Values
VARIABLES link, d, dist, nodes, active, chain, ended
vars == <<link, d, dist, nodes, active, chain, ended>>
Links == {"single", "complete", "upgma", "wpgma", "ward"}
Pairs == (N * (N - 1)) \div 2
Size(c) == IF c < N THEN 1 ELSE nodes[(c - N) + 1][5]
\* distance of a new cluster (a, b) to c by the Lance-Williams recursion
Update(a, b, c) ==
  LET x == dist[{a, c}]
      y == dist[{b, c}]
      p == Size(a)
      q == Size(b)
      s == Size(c)
  IN CASE link = "single" -> RMin(x, y)
       [] link = "complete" -> RMax(x, y)
       [] link = "upgma" -> RDiv(RAdd(RMul(p, x), RMul(q, y)), p + q)
       [] link = "wpgma" -> RDiv(RAdd(x, y), 2)
       [] link = "ward" -> RDiv(RSub(RAdd(RMul(p + s, x), RMul(q + s, y)), RMul(s, dist[{a, b}])), (p + q) + s)
\* the first (smallest id) of the nearest clusters
Nearest(c) == CHOOSE x \in active \ {c} : \A y \in active \ {c} : RLt(dist[{c, x}], dist[{c, y}]) \/ (RSame(dist[{c, x}], dist[{c, y}]) /\ x <= y)
Init ==
  /\ link \in Links
  /\ d \in [1 .. Pairs -> Values]
  /\ dist = [p \in {{i, j} : <<i, j>> \in {x \in (0 .. (N - 1)) \X (0 .. (N - 1)) : x[1] < x[2]}} |->
              LET i == CHOOSE i \in p : \A j \in p : i <= j
                  j == CHOOSE j \in p : \A k \in p : k <= j IN D(N, d, i, j)]
  /\ nodes = <<>>
  /\ active = 0 .. (N - 1)
  /\ chain = <<0>>
  /\ ended = (N = 1)
Top == chain[Len(chain)]
\* the top of the chain and its nearest are each other's nearest: merge; otherwise follow the nearest
Grow ==
  /\ ~ended
  /\ chain # <<>>
  /\ ~(Len(chain) > 1 /\ Nearest(Top) = chain[Len(chain) - 1])
  /\ chain' = Append(chain, Nearest(Top))
  /\ UNCHANGED <<link, d, dist, nodes, active, ended>>
Merge ==
  /\ ~ended
  /\ Len(chain) > 1 /\ Nearest(Top) = chain[Len(chain) - 1]
  /\ LET a == chain[Len(chain) - 1]
         b == Top
         new == N + Len(nodes)
         rest == active \ {a, b}
     IN /\ nodes' = Append(nodes, <<new, a, b, dist[{a, b}], Size(a) + Size(b)>>)
        /\ active' = rest \cup {new}
        /\ dist' = [p \in {{x, y} : <<x, y>> \in {z \in active' \X active' : z[1] < z[2]}} |->
                      IF new \in p THEN Update(a, b, CHOOSE x \in p : x # new) ELSE dist[p]]
        /\ chain' = IF Len(chain) = 2 THEN <<new>> ELSE SubSeq(chain, 1, Len(chain) - 2)
        /\ ended' = (Len(nodes) + 1 = N - 1)
        /\ UNCHANGED <<link, d>>
Next == Grow \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* cutting in the reverse order of the merges
Cut(k) ==
  LET F[q \in 1 .. k] == IF q = 1 THEN {(2 * N) - 2}
                         ELSE LET c == CHOOSE c \in F[q - 1] : \A e \in F[q - 1] : e <= c
                              IN (F[q - 1] \ {c}) \cup {Left(N, nodes, c), Right(N, nodes, c)}
  IN F[k]
Tree == ended => /\ WellFormed(N, nodes)
                 /\ HeightsRight(link, N, d, nodes, "1e-9")
                 /\ N > 1 => Monotone(N, d, nodes, "1e-9") /\ Greedy(link, N, d, nodes, "1e-9")
CutRight == ended => \A k \in 1 .. N : LET g == Cut(k) IN
   /\ Cardinality(g) = k
   /\ UNION {Leaves(N, nodes)[c] : c \in g} = 0 .. (N - 1)
   /\ \A a, b \in g : a # b => Leaves(N, nodes)[a] \cap Leaves(N, nodes)[b] = {}
NoRepeat == \A a, b \in DOMAIN chain : a # b => chain[a] # chain[b]
Ends == <>ended
=============================================================================
