------------------------------ MODULE KDTreeMC ------------------------------
(***************************************************************************)
(* The search the library performs, for every point multiset, query, leaf   *)
(* size and every outcome of the (partially unspecified) median selection:  *)
(* depth-first with the nearer half first, the farther half skipped when    *)
(* the splitting plane is too far.  Each node is visited at most once, so   *)
(* its split is chosen when it is reached.  At the end the answer is the    *)
(* exhaustive scan's.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dim, Coord, NMax, Leafs, Ks
VARIABLES P, q, leaf, k, mode, stack, heap
vars == <<P, q, leaf, k, mode, stack, heap>>
Pt == [1..Dim -> Coord]
RECURSIVE SqTo(_, _, _)
SqTo(p, r, i) == IF i = 0 THEN 0 ELSE (p[i] - r[i]) * (p[i] - r[i]) + SqTo(p, r, i - 1)
Sq(p, r) == SqTo(p, r, Dim)
\* points are interchangeable: keep them in one order
Le(a, b) == \/ a = b \/ \E i \in 1..Dim : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Init == /\ P \in UNION {[1..n -> Pt] : n \in 1..NMax} /\ \A i \in 1..(Len(P) - 1) : Le(P[i], P[i + 1])
        /\ q \in Pt /\ leaf \in Leafs /\ k \in Ks
        /\ mode \in {"knn", "radius"}          \* for radius, k is the squared radius
        /\ stack = << <<1..Len(P), 0, -1>> >>  \* node: point set, depth, squared distance of its plane (-1: none)
        /\ heap = {}
Inf == 1000
Worst == IF Cardinality(heap) < k THEN Inf ELSE CHOOSE d \in {Sq(P[i], q) : i \in heap} : \A i \in heap : Sq(P[i], q) <= d
Pruned(plane) == IF mode = "knn" THEN Cardinality(heap) >= k /\ plane >= Worst ELSE plane > k
\* push the points of a leaf one after the other
RECURSIVE Scan(_, _)
Scan(H, S) ==
  IF S = {} THEN H
  ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
           w == CHOOSE x \in H : \A y \in H : Sq(P[y], q) <= Sq(P[x], q)
       IN Scan(IF mode = "radius" THEN (IF Sq(P[i], q) <= k THEN H \cup {i} ELSE H)
               ELSE IF Cardinality(H) < k THEN H \cup {i}
               ELSE IF Sq(P[i], q) < Sq(P[w], q) THEN (H \ {w}) \cup {i} ELSE H, S \ {i})
Visit ==
  /\ stack # <<>>
  /\ UNCHANGED <<P, q, leaf, k, mode>>
  /\ LET nd == Head(stack)
         S == nd[1]
         d == nd[2]
         rest == Tail(stack)
         ax == (d % Dim) + 1
     IN IF nd[3] >= 0 /\ Pruned(nd[3]) THEN stack' = rest /\ UNCHANGED heap
        ELSE IF Cardinality(S) <= leaf THEN heap' = Scan(heap, S) /\ stack' = rest
        ELSE \E L \in SUBSET S, m \in S :
               /\ Cardinality(L) = Cardinality(S) \div 2 /\ m \notin L
               /\ \A i \in L : P[i][ax] <= P[m][ax]
               /\ \A i \in S \ L : P[i][ax] >= P[m][ax]
               /\ LET diff == q[ax] - P[m][ax]
                      R == S \ L
                  IN stack' = (IF diff < 0 THEN << <<L, d + 1, -1>>, <<R, d + 1, diff * diff>> >>
                               ELSE << <<R, d + 1, -1>>, <<L, d + 1, diff * diff>> >>) \o rest
               /\ UNCHANGED heap
Spec == Init /\ [][Visit]_vars
Correct == stack = <<>> =>
  IF mode = "radius" THEN heap = {i \in 1..Len(P) : Sq(P[i], q) <= k}
  ELSE /\ Cardinality(heap) = (IF k < Len(P) THEN k ELSE Len(P))
       /\ \A i \in heap, j \in (1..Len(P)) \ heap : Sq(P[i], q) <= Sq(P[j], q)
Depth == \A i \in 1..Len(stack) : stack[i][1] # {}
=============================================================================
