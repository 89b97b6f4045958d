------------------------------ MODULE GraphMC ------------------------------
(* The store as the library implements it - adjacency lists, mirrored for    *)
(* undirected graphs, and an edge counter - refines the abstract store.     *)
(* With Emit, the behaviours are also printed as scripts for the real code. *)
EXTENDS Graph, TLC, Json
CONSTANTS MaxV, Ws, MaxLen, Depth
VARIABLES g, adj, cnt, hist
vars == <<g, adj, cnt, hist>>
Has(u, v) == \E i \in 1..Len(adj[u + 1]) : adj[u + 1][i][1] = v
Drop(s, v) == LET i == CHOOSE k \in 1..Len(s) : s[k][1] = v /\ \A j \in 1..(k - 1) : s[j][1] # v
              IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Init == /\ \E d, l \in BOOLEAN, n \in 0..MaxV :
             /\ g = [GEmpty(d, l) EXCEPT !.data = [i \in 1..n |-> i - 1]]
             /\ adj = [i \in 1..n |-> <<>>]
             /\ hist = IF Depth = 0 THEN <<>> ELSE << <<"new", d, l, n>> >>
        /\ cnt = 0
Log(x) == hist' = IF Depth = 0 THEN <<>> ELSE Append(hist, x)
AddVertex == /\ N(g) < MaxV /\ g' = DoAddVertex(g, 7) /\ adj' = Append(adj, <<>>) /\ UNCHANGED cnt
             /\ Log(<<"addVertex", 7>>)
AddEdge(u, v, w) ==
  /\ g' = DoAddEdge(g, u, v, w) /\ Log(<<"addEdge", u, v, w>>)
  /\ IF u < Len(adj) /\ v < Len(adj) /\ (g.loops \/ u # v) /\ ~Has(u, v)
     THEN /\ cnt' = cnt + 1
          /\ LET a1 == [adj EXCEPT ![u + 1] = Append(@, <<v, w>>)]
             IN adj' = IF ~g.dir /\ u # v THEN [a1 EXCEPT ![v + 1] = Append(@, <<u, w>>)] ELSE a1
     ELSE UNCHANGED <<adj, cnt>>
RemoveEdge(u, v) ==
  /\ g' = DoRemoveEdge(g, u, v) /\ Log(<<"removeEdge", u, v>>)
  /\ IF u < Len(adj) /\ v < Len(adj) /\ Has(u, v)
     THEN /\ cnt' = cnt - 1
          /\ LET a1 == [adj EXCEPT ![u + 1] = Drop(@, v)]
             IN adj' = IF ~g.dir /\ u # v THEN [a1 EXCEPT ![v + 1] = Drop(@, u)] ELSE a1
     ELSE UNCHANGED <<adj, cnt>>
Clear == Depth > 0 /\ N(g) = MaxV /\ Len(hist) % 5 = 0 /\ g' = DoClear(g) /\ adj' = <<>> /\ cnt' = 0 /\ Log(<<"clear">>)
Next == /\ Depth > 0 => Len(hist) < Depth
        /\ \/ AddVertex \/ Clear
           \/ \E u, v \in 0..MaxV, w \in Ws : AddEdge(u, v, w)
           \/ \E u, v \in 0..MaxV : RemoveEdge(u, v)
Spec == Init /\ [][Next]_vars

Refines == /\ Len(adj) = N(g) /\ cnt = NumEdges(g)
           /\ g.edges = UNION {{<<u, adj[u + 1][i][1], adj[u + 1][i][2]>> : i \in 1..Len(adj[u + 1])} : u \in V(g)}
           /\ \A u \in V(g) : Len(adj[u + 1]) = Cardinality(Out(g, u))
Mirror == ~g.dir => \A t \in g.edges : <<t[2], t[1], t[3]>> \in g.edges
NoLoops == ~g.loops => \A t \in g.edges : t[1] # t[2]
Simple == \A s, t \in g.edges : s[1] = t[1] /\ s[2] = t[2] => s = t
Emit == (Depth > 0 /\ Len(hist) = Depth) => PrintT("SCRIPT|" \o ToJson(hist))
\* the exhaustive model looks at the abstract state only
View == <<g, cnt, {adj[i] : i \in {}}>>
Bound == \A i \in 1..Len(adj) : Len(adj[i]) <= MaxLen
=============================================================================
