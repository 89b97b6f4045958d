--------------------------- MODULE GraphTheoryMC ---------------------------
(* Graphs grow edge by edge; on every graph the definitions used to judge    *)
(* the library agree with brute force over simple paths and edge subsets,    *)
(* and an abstract traversal that may pick any successor always ends in an   *)
(* order the predicates IsDfs / IsBfs accept.                               *)
EXTENDS GraphTheory
CONSTANTS NV, Ws, Dir
WsA == {-2, 1, 2}
WsB == {-1, 2}
VARIABLES g, q, order, mode   \* q: stack or queue of pending <<vertex>> visits
vars == <<g, q, order, mode>>
Init == g = [n |-> NV, dir |-> Dir, E |-> {}] /\ q = <<>> /\ order = <<>> /\ mode = "build"
AddEdge == mode = "build" /\ \E u, v \in GV(g), w \in Ws :
   /\ u # v /\ ~Adjacent(g, u, v) /\ (Dir \/ u < v)
   /\ \A t \in g.E : (~Dir => (u * NV + v > (IF t[1] < t[2] THEN t[1] * NV + t[2] ELSE t[2] * NV + t[1])))
                     /\ (Dir => u * NV + v > t[1] * NV + t[2])
   /\ g' = [g EXCEPT !.E = @ \cup {<<u, v, w>>} \cup (IF Dir THEN {} ELSE {<<v, u, w>>})]
   /\ UNCHANGED <<q, order, mode>>
Begin == mode = "build" /\ mode' \in {"dfs", "bfs"} /\ q' = <<0>> /\ order' = <<0>> /\ UNCHANGED g
Seen == {order[i] : i \in 1..Len(order)}
\* depth-first: extend from the top of the stack, or pop
Dfs == mode = "dfs" /\ q # <<>> /\
   LET top == q[Len(q)] N == Succ(g, top) \ Seen IN
   IF N = {} THEN q' = SubSeq(q, 1, Len(q) - 1) /\ UNCHANGED <<g, order, mode>>
   ELSE \E v \in N : q' = Append(q, v) /\ order' = Append(order, v) /\ UNCHANGED <<g, mode>>
Bfs == mode = "bfs" /\ q # <<>> /\
   LET top == q[1] N == Succ(g, top) \ Seen IN
   IF N = {} THEN q' = Tail(q) /\ UNCHANGED <<g, order, mode>>
   ELSE \E v \in N : q' = Append(q, v) /\ order' = Append(order, v) /\ UNCHANGED <<g, mode>>
Next == AddEdge \/ Begin \/ Dfs \/ Bfs
Spec == Init /\ [][Next]_vars

Orders == (mode = "dfs" /\ q = <<>> => IsDfs(g, 0, order)) /\ (mode = "bfs" /\ q = <<>> => IsBfs(g, 0, order))
PW(p) == LET RECURSIVE f(_)
             f(i) == IF i >= Len(p) THEN 0 ELSE (CHOOSE t \in g.E : t[1] = p[i] /\ t[2] = p[i + 1])[3] + f(i + 1) IN f(1)
Paths == mode = "build" =>
  LET P == Walks(g, 0, NV - 1) d == Dist(g, 0) hp == Hops(g, 0) IN
  /\ ~NegCycle(g, 0) => \A v \in GV(g) : LET X == {PW(p) : p \in {x \in P : x[Len(x)] = v}} IN d[v] = (IF X = {} THEN Inf ELSE Min(X))
  /\ \A v \in GV(g) : LET X == {Len(p) - 1 : p \in {x \in P : x[Len(x)] = v}} IN hp[v] = (IF X = {} THEN Inf ELSE Min(X))
  /\ \A v \in GV(g) : hp[v] < Inf => Sigma(g, 0)[v] = Cardinality({p \in P : p[Len(p)] = v /\ Len(p) - 1 = hp[v]})
\* a reachable negative cycle: some simple cycle through a reachable vertex has negative weight
Cycles == mode = "build" =>
  (NegCycle(g, 0) = \E s \in Reach(g, 0) : \E p \in Walks(g, s, NV - 1) : Adjacent(g, p[Len(p)], s) /\ Len(p) > 1 /\ PW(Append(p, s)) < 0)
\* spanning forests by brute force
Forests == (mode = "build" /\ ~Dir) =>
  LET U == {t \in g.E : t[1] < t[2]}
      Ord(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]
      Sp == {S \in SUBSET U : Acyclic(g, Ord(S)) /\ Cardinality(S) = g.n - Cardinality(Comps(g))}
      RECURSIVE W(_)
      W(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[3] + W(S \ {x})
  IN MSF(g).w = Min({W(S) : S \in Sp}) /\ MSF(g).k = g.n - Cardinality(Comps(g))
Dags == (mode = "build" /\ Dir) => (IsDag(g) = \E o \in [1..NV -> GV(g)] : IsTopo(g, o))
=============================================================================
