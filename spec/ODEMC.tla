------------------------------- MODULE ODEMC -------------------------------
(* Every rooted tree with at most p nodes: the tableaus meet the order conditions of their order, the embedded *)
(* weights those of theirs.  A tree is the sequence of its subtrees; every plane tree is grown leaf by leaf.   *)
EXTENDS ODE
CONSTANT Deep
VARIABLES m, tree
RECURSIVE Nodes(_), NodesS(_, _), Grow(_), Gamma(_), GammaS(_, _), Phi(_, _, _), PhiS(_, _, _, _), Inner(_, _, _, _)
NodesS(ts, k) == IF k > Len(ts) THEN 0 ELSE Nodes(ts[k]) + NodesS(ts, k + 1)
Nodes(t) == 1 + NodesS(t, 1)
Grow(t) == {Append(t, <<>>)} \cup UNION {{[t EXCEPT ![i] = u] : u \in Grow(t[i])} : i \in DOMAIN t}
GammaS(ts, k) == IF k > Len(ts) THEN 1 ELSE Gamma(ts[k]) * GammaS(ts, k + 1)
Gamma(t) == Nodes(t) * GammaS(t, 1)
\* stage i's elementary weight of the tree
Inner(T, t, i, j) == IF j > Len(T.a[i]) THEN 0 ELSE IF REq(T.a[i][j], 0) THEN Inner(T, t, i, j + 1) ELSE RAdd(RMul(T.a[i][j], Phi(T, t, j)), Inner(T, t, i, j + 1))
PhiS(T, ts, i, k) == IF k > Len(ts) THEN 1 ELSE RMul(R1(Inner(T, ts[k], i, 1)), PhiS(T, ts, i, k + 1))
Phi(T, t, i) == R1(PhiS(T, t, i, 1))
RECURSIVE Weight(_, _, _, _)
Weight(T, w, t, i) == IF i > Len(w) THEN 0 ELSE IF REq(w[i], 0) THEN Weight(T, w, t, i + 1) ELSE RAdd(RMul(w[i], Phi(T, t, i)), Weight(T, w, t, i + 1))
Meets(T, w, t) == RLe(RAbs(RSub(Weight(T, w, t, 1), RDiv(1, Gamma(t)))), "1e-15")
Order(x) == IF x = "dp8" /\ ~Deep THEN 6 ELSE Tab(x).p
Init == m \in RKs /\ tree = <<>>
Next == Nodes(tree) < Order(m) /\ tree' \in Grow(tree) /\ UNCHANGED m
OrderConditions == Meets(Tab(m), Tab(m).b, tree) /\ (Nodes(tree) <= Tab(m).q => Meets(Tab(m), Tab(m).e, tree))
RECURSIVE SumR(_, _)
SumR(v, k) == IF k > Len(v) THEN 0 ELSE RAdd(v[k], SumR(v, k + 1))
RowSums == \A i \in DOMAIN Tab(m).c : RLe(RAbs(RSub(SumR(Tab(m).a[i], 1), Tab(m).c[i])), "1e-16")
Spec == Init /\ [][Next]_<<m, tree>>
============================================================================
