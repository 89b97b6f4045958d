------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* A mutable graph store.  The abstract state is                            *)
(*   [dir, loops : BOOLEAN, data : Seq(vertex data), edges : set of         *)
(*    <<u, v, w>>], vertices 0..Len(data)-1, at most one edge per ordered   *)
(* pair; an undirected graph holds every edge in both directions (a         *)
(* self-loop once).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

GEmpty(dir, loops) == [dir |-> dir, loops |-> loops, data |-> <<>>, edges |-> {}]
N(g) == Len(g.data)
V(g) == 0..(N(g) - 1)
HasEdge(g, u, v) == \E t \in g.edges : t[1] = u /\ t[2] = v
Weight(g, u, v) == (CHOOSE t \in g.edges : t[1] = u /\ t[2] = v)[3]
Out(g, u) == {t \in g.edges : t[1] = u}
InE(g, v) == {t \in g.edges : t[2] = v}
NumEdges(g) == IF g.dir THEN Cardinality(g.edges)
               ELSE LET L == Cardinality({t \in g.edges : t[1] = t[2]})
                    IN L + (Cardinality(g.edges) - L) \div 2

\* outcome of a call: "ok" or the exception
AddEdgeOutcome(g, u, v) ==
  IF u \notin V(g) \/ v \notin V(g) THEN "out_of_range"
  ELSE IF (u = v /\ ~g.loops) \/ HasEdge(g, u, v) THEN "invalid_argument" ELSE "ok"
DoAddEdge(g, u, v, w) ==
  IF AddEdgeOutcome(g, u, v) # "ok" THEN g
  ELSE [g EXCEPT !.edges = @ \cup {<<u, v, w>>} \cup (IF g.dir THEN {} ELSE {<<v, u, w>>})]
RemoveOutcome(g, u, v) == u \in V(g) /\ v \in V(g) /\ HasEdge(g, u, v)
DoRemoveEdge(g, u, v) ==
  IF ~RemoveOutcome(g, u, v) THEN g
  ELSE [g EXCEPT !.edges = {t \in @ : ~((t[1] = u /\ t[2] = v) \/ (~g.dir /\ t[1] = v /\ t[2] = u))}]
DoAddVertex(g, d) == [g EXCEPT !.data = Append(@, d)]
DoSetData(g, v, d) == IF v \in V(g) THEN [g EXCEPT !.data[v + 1] = d] ELSE g
DoClear(g) == GEmpty(g.dir, g.loops)
=============================================================================
