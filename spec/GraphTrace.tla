----------------------------- MODULE GraphTrace -----------------------------
(* Validates recorded histories of Graph objects: after each call, every     *)
(* query describes the abstract graph the history defines.                  *)
EXTENDS Graph, Rat, TraceFile
VARIABLES h, l, st, dead

WeightsOut(g, u) == RSum([i \in 1..N(g) |-> IF HasEdge(g, u, i - 1) THEN Weight(g, u, i - 1) ELSE 0])
A(g, u, v) == IF HasEdge(g, u, v) THEN Weight(g, u, v) ELSE 0
ElemEq(M, g, f(_, _)) == Len(M) = N(g) /\ \A u, v \in V(g) : Len(M[u + 1]) = N(g) /\ REq(M[u + 1][v + 1], f(u, v))

\* o : everything observed
Obs(g, o) ==
  /\ Chk("numVertices", o.nv = N(g))
  /\ Chk("numEdges", o.ne = NumEdges(g))
  /\ Chk("isEmpty", o.empty = (N(g) = 0))
  /\ Chk("type", o.dir = g.dir /\ o.undir = ~g.dir /\ o.loops = g.loops)
  /\ Chk("vertexData", o.data = g.data)
  /\ Chk("isWeighted", o.weighted = \E t \in g.edges : ~REq(t[3], 1))
  \* has[u+1][v+1] for u, v in 0..n (n is out of range)
  /\ Chk("hasEdge", \A u, v \in 0..N(g) : o.has[u + 1][v + 1] = HasEdge(g, u, v))
  \* neighbour lists: exactly the out-edges, each once
  /\ Chk("neighbors", \A u \in V(g) :
        LET L == o.nbr[u + 1] IN
        /\ Len(L) = Cardinality(Out(g, u))
        /\ \A t \in Out(g, u) : \E i \in 1..Len(L) : L[i][1] = t[2] /\ REq(L[i][2], t[3]))
  /\ Chk("edgeWeight", \A u, v \in 0..N(g) :
        LET x == o.wt[u + 1][v + 1] IN
        IF u = N(g) \/ v = N(g) THEN x = "out_of_range"
        ELSE IF HasEdge(g, u, v) THEN REq(x, Weight(g, u, v)) ELSE x = "invalid_argument")
  /\ Chk("degrees", \A u \in V(g) :
        /\ o.deg[u + 1] = Cardinality(Out(g, u)) /\ o.outd[u + 1] = o.deg[u + 1]
        /\ o.ind[u + 1] = Cardinality(InE(g, u)))
  /\ LET Adj(u, v) == A(g, u, v)
         Deg(u, v) == IF u = v THEN WeightsOut(g, u) ELSE 0
         Lap(u, v) == RSub(Deg(u, v), A(g, u, v))
     IN /\ Chk("adjacency matrix", ElemEq(o.adjM, g, Adj))
        /\ Chk("degree matrix", ElemEq(o.degM, g, Deg))
        /\ Chk("Laplacian", ElemEq(o.lapM, g, Lap))
  /\ Chk("normalised Laplacian", Len(o.nlap) = N(g) /\ \A u, v \in V(g) :
        LET du == WeightsOut(g, u)
            dv == WeightsOut(g, v)
            \* delta(u,v) - w / sqrt(du dv)
            x == RSub(IF u = v THEN 1 ELSE 0, IF RLe(du, 0) \/ RLe(dv, 0) THEN 0 ELSE RDiv(A(g, u, v), RSqrt(RMul(du, dv))))
        IN Close(o.nlap[u + 1][v + 1], x, 8, 4))

New(e) == [GEmpty(e.dir, e.loops) EXCEPT !.data = [i \in 1..e.n |-> i - 1]]
\* shapes made by the factory functions
Pairs(s) == {<<p[1], p[2], 1>> : p \in s} \cup {<<p[2], p[1], 1>> : p \in s}
Factory(e) ==
  LET n == e.n IN
  [dir |-> FALSE, loops |-> FALSE,
   data |-> [i \in 1..(IF e.kind = "grid" THEN e.n * e.m ELSE e.n) |-> i - 1],
   edges |-> Pairs(
     CASE e.kind = "path" -> {<<i, i + 1>> : i \in 0..(n - 2)}
       [] e.kind = "cycle" -> {<<i, i + 1>> : i \in 0..(n - 2)} \cup (IF n > 2 THEN {<<n - 1, 0>>} ELSE {})
       [] e.kind = "complete" -> {p \in (0..(n - 1)) \X (0..(n - 1)) : p[1] < p[2]}
       [] e.kind = "star" -> {<<0, i>> : i \in 1..(n - 1)}
       [] e.kind = "grid" -> {<<r * e.m + c, r * e.m + c + 1>> : r \in 0..(n - 1), c \in 0..(e.m - 2)}
                             \cup {<<r * e.m + c, (r + 1) * e.m + c>> : r \in 0..(n - 2), c \in 0..(e.m - 1)})]

Step(g, e) ==
  CASE e.op = "new" -> New(e)
    [] e.op = "factory" -> Factory(e)
    [] e.op = "addVertex" -> DoAddVertex(g, e.d)
    [] e.op = "setData" -> DoSetData(g, e.u, e.d)
    [] e.op = "addEdge" -> DoAddEdge(g, e.u, e.v, e.w)
    [] e.op = "removeEdge" -> DoRemoveEdge(g, e.u, e.v)
    [] e.op = "clear" -> DoClear(g)
    [] OTHER -> g          \* copies, reserve: no effect on the abstract graph
Outcome(g, e) ==
  CASE e.op = "addVertex" -> e.res = N(g)
    [] e.op = "setData" -> e.res = (IF e.u \in V(g) THEN "ok" ELSE "out_of_range")
    [] e.op = "addEdge" -> e.res = AddEdgeOutcome(g, e.u, e.v)
    [] e.op = "removeEdge" -> e.res = RemoveOutcome(g, e.u, e.v)
    [] OTHER -> TRUE
Ok(g, e) == Chk("outcome", Outcome(g, e)) /\ Obs(Step(g, e), e.obs)
Upd(g, e) == Step(g, e)
INSTANCE TraceRun WITH St0 <- GEmpty(TRUE, TRUE), Resume <- FALSE
=============================================================================
