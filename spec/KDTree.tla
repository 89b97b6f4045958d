------------------------------- MODULE KDTree -------------------------------
(***************************************************************************)
(* The spatial index: a sequence of points (coordinate tuples) and four     *)
(* queries.  A query's answer is defined by the exhaustive scan, whatever   *)
(* tree the index keeps.  Distances are compared squared, so no root is     *)
(* taken here.  Points are numbered from 0 as in the library.               *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Integers
DSq(p, q) == LET D == [i \in 1..Len(p) |-> RSub(p[i], q[i])] IN RDot(D, D)
Idx(P) == 0..(Len(P) - 1)
At(P, i) == P[i + 1]
MinDSq(P, q) == CHOOSE m \in {DSq(P[i], q) : i \in 1..Len(P)} : \A i \in 1..Len(P) : RLe(m, DSq(P[i], q))
InBox(p, lo, hi) == \A i \in 1..Len(p) : RLe(lo[i], p[i]) /\ RLe(p[i], hi[i])
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

\* x (a returned distance) is the square root of the squared distance d2, up to k units of rounding
IsDist(x, d2, k) == /\ RGe(x, 0)
                    /\ RLe(RAbs(RSub(RMul(x, x), d2)), RMul(RMul(k, Eps), d2))

NearestOk(P, q, i, x, k) ==
  /\ i \in Idx(P)
  /\ LET D == [j \in 1..Len(P) |-> DSq(P[j], q)] IN
     /\ IsDist(x, D[i + 1], k)
     /\ \A j \in 1..Len(P) : RLe(D[i + 1], RMul(D[j], RAdd(1, RMul(k, Eps))))

\* the k smallest, ascending: everything left out is no closer than the last one kept
KNearestOk(P, q, n, I, X, k) ==
  LET D == [j \in 1..Len(P) |-> DSq(P[j], q)] IN
  /\ Len(I) = (IF n <= 0 THEN 0 ELSE IF n < Len(P) THEN n ELSE Len(P)) /\ Len(X) = Len(I)
  /\ \A j \in 1..Len(I) : I[j] \in Idx(P) /\ IsDist(X[j], D[I[j] + 1], k)
  /\ Distinct(I)
  /\ \A j \in 1..(Len(I) - 1) : RLe(X[j], X[j + 1])
  /\ Len(I) > 0 => LET worst == D[I[Len(I)] + 1]
                       kept == {I[j] + 1 : j \in 1..Len(I)}
                   IN \A j \in (1..Len(P)) \ kept : RLe(worst, RMul(D[j], RAdd(1, RMul(k, Eps))))

RadiusOk(P, q, r, I, X, k) ==
  LET D == [j \in 1..Len(P) |-> DSq(P[j], q)]
      R2 == RMul(r, r)
      got == {I[j] + 1 : j \in 1..Len(I)}
  IN /\ Len(X) = Len(I) /\ Distinct(I)
     /\ \A j \in 1..Len(I) : I[j] \in Idx(P) /\ IsDist(X[j], D[I[j] + 1], 8)
     /\ \A j \in 1..Len(P) : /\ RLe(RMul(D[j], RAdd(1, RMul(k, Eps))), R2) => j \in got
                             /\ j \in got => RLe(D[j], RMul(R2, RAdd(1, RMul(k, Eps))))
BoxOk(P, lo, hi, I) == Distinct(I) /\ {I[j] + 1 : j \in 1..Len(I)} = {j \in 1..Len(P) : InBox(P[j], lo, hi)}
=============================================================================
