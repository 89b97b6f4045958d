---------------------------- MODULE GraphTheory ----------------------------
(***************************************************************************)
(* Definitions of graph theory on graphs [n, dir, E], E a set of <<u,v,w>>  *)
(* over vertices 0..n-1, integer weights, undirected edges in both          *)
(* directions.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

GV(g) == 0..(g.n - 1)
Succ(g, u) == {t[2] : t \in {x \in g.E : x[1] = u}}
SuccTab(g) == [u \in GV(g) |-> Succ(g, u)]
Adjacent(g, u, v) == \E t \in g.E : t[1] = u /\ t[2] = v
Inf == 1000000

RECURSIVE HopLevels(_, _, _, _, _)
\* d: function vertex -> hops (Inf unknown), frontier at distance k
HopLevels(S, g, d, F, k) ==
  IF F = {} THEN d
  ELSE LET nx == {v \in UNION {S[u] : u \in F} : d[v] = Inf}
       IN HopLevels(S, g, [v \in GV(g) |-> IF v \in nx THEN k + 1 ELSE d[v]], nx, k + 1)
Hops(g, s) == LET S == SuccTab(g) IN HopLevels(S, g, [v \in GV(g) |-> IF v = s THEN 0 ELSE Inf], {s}, 0)
Reach(g, s) == LET d == Hops(g, s) IN {v \in GV(g) : d[v] < Inf}

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* shortest walk weight with at most k edges
RECURSIVE Relax(_, _, _)
Relax(g, d, k) ==
  IF k = 0 THEN d
  ELSE LET d2 == [v \in GV(g) |-> Min({d[v]} \cup {IF d[t[1]] = Inf THEN Inf ELSE d[t[1]] + t[3] : t \in {x \in g.E : x[2] = v}})]
       IN IF d2 = d THEN d ELSE Relax(g, d2, k - 1)
Start(g, s) == [v \in GV(g) |-> IF v = s THEN 0 ELSE Inf]
Dist(g, s) == Relax(g, Start(g, s), g.n - 1)
NegCycle(g, s) == LET d == Dist(g, s) IN Relax(g, d, 1) # d

\* weight of a minimum spanning forest: add the lightest edge joining two components
RECURSIVE Forest(_, _, _)
Forest(g, comp, acc) ==
  LET X == {t \in g.E : comp[t[1]] # comp[t[2]]} IN
  IF X = {} THEN acc
  ELSE LET t == CHOOSE x \in X : \A y \in X : x[3] <= y[3]
       IN Forest(g, [v \in GV(g) |-> IF comp[v] = comp[t[2]] THEN comp[t[1]] ELSE comp[v]], [w |-> acc.w + t[3], k |-> acc.k + 1])
MSF(g) == Forest(g, [v \in GV(g) |-> v], [w |-> 0, k |-> 0])
\* the edges F (a sequence of <<u,v,..>>) have no cycle, treated as undirected
RECURSIVE AcyclicFrom(_, _, _)
AcyclicFrom(F, i, comp) ==
  IF i > Len(F) THEN TRUE
  ELSE LET a == comp[F[i][1]] b == comp[F[i][2]] IN
       IF a = b THEN FALSE ELSE AcyclicFrom(F, i + 1, [v \in DOMAIN comp |-> IF comp[v] = b THEN a ELSE comp[v]])
Acyclic(g, F) == AcyclicFrom(F, 1, [v \in GV(g) |-> v])

IsDag(g) == \A s \in GV(g) : ~\E v \in Reach(g, s) : Adjacent(g, v, s)
IsTopo(g, o) == /\ Len(o) = g.n /\ {o[i] : i \in 1..Len(o)} = GV(g)
                /\ \A i, j \in 1..Len(o) : Adjacent(g, o[i], o[j]) => i < j
Comps(g) == {Reach(g, s) : s \in GV(g)}

\* order o visits Reach(s) once each, as a depth-first search does: every vertex is entered from
\* the latest visited vertex that still has an unvisited successor
DfsParent(S, o, i) ==
  LET seen == {o[j] : j \in 1..(i - 1)}
      C == {j \in 1..(i - 1) : S[o[j]] \ seen # {}}
  IN IF C = {} THEN -1 ELSE o[CHOOSE j \in C : \A k \in C : k <= j]
IsPerm(o, R) == Len(o) = Cardinality(R) /\ {o[i] : i \in 1..Len(o)} = R
IsDfs(g, s, o) == LET S == SuccTab(g) IN
  IsPerm(o, Reach(g, s)) /\ o[1] = s /\ \A i \in 2..Len(o) : LET p == DfsParent(S, o, i) IN p # -1 /\ o[i] \in S[p]
\* breadth-first: the parents' positions never decrease
BfsPos(S, o, i) == CHOOSE j \in 1..(i - 1) : o[i] \in S[o[j]] /\ \A k \in 1..(j - 1) : o[i] \notin S[o[k]]
IsBfs(g, s, o) == LET S == SuccTab(g) IN
  /\ IsPerm(o, Reach(g, s)) /\ o[1] = s
  /\ \A i \in 2..Len(o) : \E j \in 1..(i - 1) : o[i] \in S[o[j]]
  /\ \A i \in 3..Len(o) : BfsPos(S, o, i - 1) <= BfsPos(S, o, i)

\* number of shortest (hop) paths from s, level by level
RECURSIVE Counts(_, _, _, _)
Counts(g, d, c, k) ==
  IF k > g.n THEN c
  ELSE Counts(g, d, [v \in GV(g) |-> IF d[v] # k THEN c[v]
        ELSE LET P == {u \in GV(g) : d[u] = k - 1 /\ Adjacent(g, u, v)}
                 RECURSIVE Sum(_)
                 Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN c[x] + Sum(X \ {x})
             IN Sum(P)], k + 1)
Sigma(g, s) == LET d == Hops(g, s) IN Counts(g, d, [v \in GV(g) |-> IF v = s THEN 1 ELSE 0], 1)

\* brute-force counterparts, for checking the above
RECURSIVE Walks(_, _, _)
Walks(g, s, k) == IF k = 0 THEN {<<s>>}
  ELSE {<<s>>} \cup UNION {{Append(p, v) : v \in {x \in Succ(g, p[Len(p)]) : \A i \in 1..Len(p) : p[i] # x}} : p \in Walks(g, s, k - 1)} \cup Walks(g, s, k - 1)
=============================================================================
