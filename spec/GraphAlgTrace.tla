--------------------------- MODULE GraphAlgTrace ---------------------------
(* Validates recorded results of the graph algorithms.  An event holds the   *)
(* graph as it was built: n, dir, E = <<u, v, w>> with integer w; the code   *)
(* was given weights w * e.sc (a power of two, so sums are exact).          *)
EXTENDS GraphTheory, Rat, TraceFile
VARIABLES h, l, st, dead
G(e) == [n |-> e.n, dir |-> e.dir, E |-> {<<t[1], t[2], t[3]>> : t \in {e.E[i] : i \in 1..Len(e.E)}} \cup
          (IF e.dir THEN {} ELSE {<<t[2], t[1], t[3]>> : t \in {e.E[i] : i \in 1..Len(e.E)}})]
None == -1
IsInf(x) == x = "inf"
DistIs(x, d, sc) == IF d = Inf THEN IsInf(x) ELSE REq(x, RMul(d, sc))
EdgeW(g, u, v) == (CHOOSE t \in g.E : t[1] = u /\ t[2] = v)[3]
\* the predecessors form shortest paths from s
ChainsOk(g, s, d, par, W(_, _)) == \A v \in GV(g) :
   LET p == par[v + 1] IN
   IF v = s \/ d[v] = Inf THEN p = None
   ELSE p \in GV(g) /\ Adjacent(g, p, v) /\ d[p] # Inf /\ d[v] = d[p] + W(p, v)
One(u, v) == 1
\* p is a path from s to t of total weight d
RECURSIVE PathW(_, _, _)
PathW(g, p, i) == IF i >= Len(p) THEN 0 ELSE EdgeW(g, p[i], p[i + 1]) + PathW(g, p, i + 1)
PathOk(g, p, s, t) == Len(p) >= 1 /\ p[1] = s /\ p[Len(p)] = t /\ \A i \in 1..(Len(p) - 1) : Adjacent(g, p[i], p[i + 1])

RECURSIVE FollowTo(_, _, _)
FollowTo(par, v, s) == IF v = s THEN <<s>> ELSE IF par[v + 1] = None THEN <<>> ELSE
   LET r == FollowTo(par, par[v + 1], s) IN IF r = <<>> THEN <<>> ELSE Append(r, v)

SumF(n, f(_)) == RSum([i \in 1..n |-> f(i - 1)])
Triples(g, v) == Cardinality({p \in Succ(g, v) \X Succ(g, v) : p[1] < p[2] /\ Adjacent(g, p[1], p[2])})

Ok(s0, e) ==
  LET g == G(e)
      s == e.s
      valid == s \in GV(g)
      hp == Hops(g, s)
      ds == Dist(g, s)
      R == {v \in GV(g) : hp[v] < Inf}
      Wt(u, v) == EdgeW(g, u, v)
  IN
  CASE e.op = "bfs" -> IF ~valid THEN Chk("bfs invalid start", e.order = <<>> /\ e.nodes = 0) ELSE
         /\ Chk("bfs order", IsBfs(g, s, e.order))
         /\ Chk("bfs count", e.nodes = Cardinality(R))
         /\ Chk("bfs distances", Len(e.dist) = g.n /\ \A v \in GV(g) : DistIs(e.dist[v + 1], hp[v], 1))
         /\ Chk("bfs parents", Len(e.par) = g.n /\ ChainsOk(g, s, hp, e.par, One))
    [] e.op = "bfsvisit" -> Chk("bfs visit", IF ~valid THEN e.order = <<>> ELSE
         LET m == IF e.stop = 0 THEN Cardinality(R) ELSE RToInt(RMin(e.stop, Cardinality(R))) IN
         Len(e.order) = m /\ (m = Cardinality(R) => IsBfs(g, s, e.order)) /\ (\A i \in 1..m : hp[e.order[i]] < Inf)
         /\ \A i \in 1..(m - 1) : hp[e.order[i]] <= hp[e.order[i + 1]])
    [] e.op = "dfs" -> IF ~valid THEN Chk("dfs invalid start", e.order = <<>> /\ e.nodes = 0) ELSE
         LET S == SuccTab(g)
             dep == [v \in GV(g) |-> Len(FollowTo(e.par, v, s)) - 1] IN
         /\ Chk("dfs order", IsDfs(g, s, e.order))
         /\ Chk("dfs count", e.nodes = Cardinality(R))
         /\ Chk("dfs parents", /\ \A i \in 2..Len(e.order) : e.par[e.order[i] + 1] = DfsParent(S, e.order, i)
                               /\ \A v \in GV(g) : (v = s \/ v \notin R) => e.par[v + 1] = None)
         /\ Chk("dfs depth", \A v \in GV(g) : IF v \in R THEN REq(e.dist[v + 1], dep[v]) ELSE IsInf(e.dist[v + 1]))
    [] e.op = "dfsvisit" -> Chk("dfs visit", IF ~valid THEN e.order = <<>> ELSE
         LET m == IF e.stop = 0 THEN Cardinality(R) ELSE RToInt(RMin(e.stop, Cardinality(R))) IN
         Len(e.order) = m /\ (m = Cardinality(R) => IsDfs(g, s, e.order)))
    [] e.op = "dijkstra" -> IF ~valid THEN Chk("dijkstra invalid start", e.dist = <<>> /\ e.par = <<>>) ELSE
         /\ Chk("dijkstra distances", Len(e.dist) = g.n /\ \A v \in GV(g) : DistIs(e.dist[v + 1], ds[v], e.sc))
         /\ Chk("dijkstra parents", Len(e.par) = g.n /\ ChainsOk(g, s, ds, e.par, Wt))
         /\ Chk("dijkstra count", e.nodes = Cardinality(R))
    [] e.op = "path" ->     \* DijkstraPath
         /\ Chk("path found", e.found = (valid /\ e.t \in GV(g) /\ ds[e.t] < Inf))
         /\ Chk("path", e.found => PathOk(g, e.path, s, e.t) /\ PathW(g, e.path, 1) = ds[e.t] /\ REq(e.total, RMul(ds[e.t], e.sc)))
         /\ Chk("no path", ~e.found => e.path = <<>>)
    [] e.op = "hoppath" ->
         /\ Chk("hop path found", e.found = (valid /\ e.t \in GV(g) /\ hp[e.t] < Inf))
         /\ Chk("hop path", e.found => PathOk(g, e.path, s, e.t) /\ Len(e.path) - 1 = hp[e.t] /\ REq(e.total, hp[e.t]))
         /\ Chk("no hop path", ~e.found => e.path = <<>>)
    [] e.op = "recon" ->    \* ReconstructPath of BFS parents
         Chk("reconstructed path", IF e.t \in GV(g) /\ hp[e.t] < Inf THEN PathOk(g, e.path, s, e.t) /\ Len(e.path) - 1 = hp[e.t] ELSE e.path = <<>>)
    [] e.op = "bf" -> IF ~valid THEN Chk("bellman-ford invalid start", e.dist = <<>> /\ e.neg = FALSE) ELSE
         /\ Chk("negative cycle", e.neg = NegCycle(g, s))
         /\ Chk("bellman-ford result", IF NegCycle(g, s) THEN e.dist = <<>> /\ e.par = <<>>
               ELSE Len(e.dist) = g.n /\ e.nodes = Cardinality(R) /\ \A v \in GV(g) : DistIs(e.dist[v + 1], ds[v], e.sc))
         /\ Chk("bellman-ford parents", ~NegCycle(g, s) => ChainsOk(g, s, ds, e.par, Wt))
    [] e.op = "comps" -> LET C == Comps(g) IN
         /\ Chk("number of components", e.num = Cardinality(C) /\ Len(e.comps) = e.num)
         /\ Chk("components", \A i \in 1..Len(e.comps) : {e.comps[i][k] : k \in 1..Len(e.comps[i])} \in C /\ IsPerm(e.comps[i], {e.comps[i][k] : k \in 1..Len(e.comps[i])}))
         /\ Chk("component partition", {{e.comps[i][k] : k \in 1..Len(e.comps[i])} : i \in 1..Len(e.comps)} = C)
         /\ Chk("component ids", Len(e.ids) = g.n /\ \A i \in 1..Len(e.comps) : \A k \in 1..Len(e.comps[i]) : e.ids[e.comps[i][k] + 1] = i - 1)
         /\ Chk("connected", e.conn = (Cardinality(C) <= 1) /\ e.connS = (Cardinality(C) <= 1))
    [] e.op = "reachall" -> Chk("directed IsConnected", e.conn = (g.n = 0 \/ Cardinality(Reach(g, 0)) = g.n))
    [] e.op = "topo" ->
         IF ~g.dir THEN Chk("topological sort of undirected", e.dag = (g.n = 0) /\ e.isdag = e.dag /\ e.order = <<>>)
         ELSE /\ Chk("acyclic", e.dag = IsDag(g) /\ e.isdag = IsDag(g))
              /\ Chk("topological order", IF IsDag(g) THEN IsTopo(g, e.order) ELSE e.order = <<>>)
    [] e.op = "mst" ->      \* Kruskal or Prim (from s) on an undirected graph
         LET F == MSF(g)
             conn == Cardinality(Comps(g)) <= 1
             R2 == IF g.n = 0 THEN {} ELSE Reach(g, IF valid THEN s ELSE 0)
             g2 == [g EXCEPT !.E = {t \in g.E : t[1] \in R2}]
             F2 == IF e.alg = "kruskal" THEN F ELSE MSF(g2) IN
         /\ Chk("mst complete", e.complete = conn)
         /\ Chk("mst edges exist", \A i \in 1..Len(e.edges) : Adjacent(g, e.edges[i][1], e.edges[i][2])
                                     /\ REq(e.edges[i][3], RMul(EdgeW(g, e.edges[i][1], e.edges[i][2]), e.sc)))
         /\ Chk("mst acyclic", Acyclic(g, e.edges))
         /\ Chk("mst size", Len(e.edges) = F2.k)
         /\ Chk("mst weight", REq(e.total, RMul(F2.w, e.sc)))
    [] e.op = "struct" ->   \* undirected or directed, no self-loops
         LET H == [u \in GV(g) |-> Hops(g, u)]
             P == {p \in GV(g) \X GV(g) : p[1] # p[2] /\ H[p[1]][p[2]] < Inf}
             far == {H[p[1]][p[2]] : p \in P}
             disc == \E u, v \in GV(g) : H[u][v] = Inf
             ne == IF g.dir THEN Cardinality(g.E) ELSE Cardinality(g.E) \div 2
             tot == SumF(g.n, LAMBDA u : SumF(g.n, LAMBDA v : IF H[u][v] < Inf THEN H[u][v] ELSE 0))
         IN
         /\ Chk("diameter", IF g.n <= 1 THEN REq(e.diam, 0) ELSE IF disc THEN IsInf(e.diam)
                  ELSE REq(e.diam, CHOOSE x \in far : \A y \in far : y <= x))
         /\ Chk("average path length", IF P = {} THEN REq(e.apl, 0) ELSE CloseRel(e.apl, RDiv(tot, Cardinality(P)), 16))
         /\ Chk("density", IF g.n <= 1 THEN REq(e.dens, 0) ELSE CloseRel(e.dens, RDiv((IF g.dir THEN 1 ELSE 2) * ne, g.n * (g.n - 1)), 4))
         /\ Chk("degree centrality", \A v \in GV(g) : IF g.n <= 1 THEN REq(e.degc[v + 1], 0) ELSE CloseRel(e.degc[v + 1], RDiv(Cardinality(Succ(g, v)), g.n - 1), 4))
         /\ Chk("closeness", \A v \in GV(g) :
                 LET X == {u \in GV(g) : u # v /\ H[v][u] < Inf}
                     t == SumF(g.n, LAMBDA u : IF H[v][u] < Inf THEN H[v][u] ELSE 0)
                 IN IF X = {} THEN REq(e.clos[v + 1], 0) ELSE CloseRel(e.clos[v + 1], RDiv(Cardinality(X), t), 8))
         /\ Chk("clustering", g.dir \/
                 LET C == {v \in GV(g) : Cardinality(Succ(g, v)) >= 2}
                     t == SumF(g.n, LAMBDA v : LET k == Cardinality(Succ(g, v)) IN IF k < 2 THEN 0 ELSE RDiv(2 * Triples(g, v), k * (k - 1)))
                 IN IF C = {} THEN REq(e.clus, 0) ELSE CloseRel(e.clus, RDiv(t, Cardinality(C)), 32))
    [] e.op = "between" ->
         LET H == [u \in GV(g) |-> Hops(g, u)]
             Sg == [u \in GV(g) |-> Sigma(g, u)]
             raw(v) == SumF(g.n, LAMBDA a : SumF(g.n, LAMBDA b :
                IF a = v \/ b = v \/ a = b \/ H[a][b] = Inf \/ H[a][v] = Inf \/ H[v][b] = Inf \/ H[a][v] + H[v][b] # H[a][b] THEN 0
                ELSE RDiv(Sg[a][v] * Sg[v][b], Sg[a][b])))
             b(v) == IF g.n <= 2 THEN 0 ELSE RDiv(raw(v), IF g.dir THEN 1 ELSE 2)
         IN /\ Chk("betweenness", \A v \in GV(g) : Close(e.raw[v + 1], b(v), 200, RMax(1, b(v))))
            /\ Chk("normalised betweenness", \A v \in GV(g) : g.n <= 2 \/ Close(e.norm[v + 1], RMul(b(v), RDiv(2, (g.n - 1) * (g.n - 2))), 200, RMax(1, b(v))))
    [] e.op = "spectrum" -> \* Laplacian eigenvalues of an undirected graph: ascending, power sums
         LET L == [i \in 1..g.n |-> [j \in 1..g.n |-> RMul(e.sc,
                     (IF i = j THEN LET RECURSIVE D(_)
                                        D(X) == IF X = {} THEN 0 ELSE LET t == CHOOSE y \in X : TRUE IN t[3] + D(X \ {t})
                                    IN D({t \in g.E : t[1] = i - 1}) ELSE 0) - (IF Adjacent(g, i - 1, j - 1) THEN EdgeW(g, i - 1, j - 1) ELSE 0))]]
             L2 == RMatMul(L, L)
             L3 == RMatMul(L2, L)
             tr(M) == RSum([i \in 1..g.n |-> M[i][i]])
             n == Cardinality(Comps(g))
             sc == RMax(1, RMaxAbs([i \in 1..g.n |-> L[i][i]])) IN
         /\ Chk("spectrum size", Len(e.ev) = g.n)
         /\ Chk("spectrum order", \A i \in 1..(g.n - 1) : RLe(e.ev[i], e.ev[i + 1]))
         /\ Chk("spectrum trace", Within(RSum(e.ev), tr(L), RMul("1e-8", sc)))
         /\ Chk("spectrum square sum", Within(RSum([i \in 1..g.n |-> RMul(e.ev[i], e.ev[i])]), tr(L2), RMul("1e-8", RMul(sc, sc))))
         /\ Chk("spectrum cube sum", Within(RSum([i \in 1..g.n |-> RPow(e.ev[i], 3)]), tr(L3), RMul("1e-7", RPow(sc, 3))))
         /\ Chk("zero eigenvalues are components", (\A t \in g.E : t[3] > 0) => \A i \in 1..g.n : (i <= n) = RLt(RAbs(e.ev[i]), "1e-7"))
         /\ Chk("algebraic connectivity", IF g.n <= 1 THEN REq(e.alg, 0) ELSE REq(e.alg, e.ev[2]))
         /\ Chk("connectivity bound", (REq(e.sc, 1) /\ \A t \in g.E : t[3] > 0) => RLe(e.bound, RAdd(e.alg, "1e-8")))
         /\ Chk("degree sequence", Len(e.seq) = g.n /\ (\A i \in 1..(g.n - 1) : RLe(e.seq[i], e.seq[i + 1]))
              /\ \A i \in 1..g.n : Cardinality({k \in 1..g.n : REq(e.seq[k], e.seq[i])}) = Cardinality({k \in 1..g.n : REq(L[k][k], e.seq[i])}))
    [] e.op = "pagerank" -> \* fixed point of the damped walk, a distribution
         LET d == e.damp
             rk(v) == e.rank[v + 1]
             dang == SumF(g.n, LAMBDA v : IF Succ(g, v) = {} THEN rk(v) ELSE 0)
             img(v) == RAdd(RDiv(RSub(1, d), g.n), RMul(d, RAdd(RDiv(dang, g.n), SumF(g.n, LAMBDA u : IF Adjacent(g, u, v) THEN RDiv(rk(u), Cardinality(Succ(g, u))) ELSE 0))))
         IN /\ Chk("pagerank sums to one", g.n = 0 \/ Within(RSum(e.rank), 1, "1e-12"))
            /\ Chk("pagerank fixed point", \A v \in GV(g) : Within(rk(v), img(v), "1e-9"))
    [] e.op = "eigencent" -> \* connected non-bipartite undirected: dominant eigenvector, unit length
         LET x == e.c
             y == [i \in 1..g.n |-> RSum([j \in 1..g.n |-> IF Adjacent(g, i - 1, j - 1) THEN RMul(x[j], RMul(e.sc, EdgeW(g, i - 1, j - 1))) ELSE 0])]
             lam == RDot(x, y)
             d0 == SumF(g.n, LAMBDA u : RMul(e.sc, SumF(g.n, LAMBDA v : IF Adjacent(g, u, v) THEN EdgeW(g, u, v) ELSE 0))) IN
         /\ Chk("unit length", Within(RDot(x, x), 1, "1e-12"))
         /\ Chk("non-negative", \A i \in 1..g.n : RLe(0, x[i]))
         /\ Chk("eigenvector", \A i \in 1..g.n : Within(y[i], RMul(lam, x[i]), "1e-6"))
    [] OTHER -> Chk("unknown operation", FALSE)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
