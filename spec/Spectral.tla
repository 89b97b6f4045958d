------------------------------ MODULE Spectral ------------------------------
(***************************************************************************)
(* Spectra of real matrices.  What is determined exactly: characteristic    *)
(* polynomial, power sums, rank, inertia of a symmetric matrix (its          *)
(* characteristic polynomial has real roots only, so the sign changes of its *)
(* coefficients count the positive ones).  What is judged: computed spectra, *)
(* by the residual of every pair, by all power sums and by the determinant,  *)
(* which together fix the eigenvalues with their multiplicities.             *)
(***************************************************************************)
EXTENDS LinSys
TraceOf(A) == RSum([i \in 1..Rows(A) |-> A[i][i]])
MAddt(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAdd(A[i][j], B[i][j])]]
MScal(c, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RMul(c, A[i][j])]]
\* coefficients c_n = 1, ..., c_0 of det(x I - A), as a sequence from the top (Faddeev-LeVerrier)
CharPoly(A) ==
  LET n == Rows(A)
      RECURSIVE Go(_, _, _)
      Go(k, B, cs) == IF k > n THEN cs
                      ELSE LET AB == RMatMul(A, B) c == RDiv(RNeg(TraceOf(AB)), k)
                           IN Go(k + 1, MAddt(AB, MScal(c, Id(n))), Append(cs, RKeep(c)))
  IN Go(1, Id(n), <<1>>)
\* value of det(x I - A) without expanding it
CharAt(A, x) == RDet([i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> RSub(IF i = j THEN x ELSE 0, A[i][j])]])
RECURSIVE Horner(_, _)
Horner(cs, x) == IF Len(cs) = 1 THEN cs[1] ELSE RAdd(cs[Len(cs)], RMul(x, Horner(SubSeq(cs, 1, Len(cs) - 1), x)))
SignChanges(cs) ==
  LET nz == SelectSeq(cs, LAMBDA c : ~REq(c, 0)) IN Cardinality({i \in 1..(Len(nz) - 1) : RLt(RMul(nz[i], nz[i + 1]), 0)})
ZeroRoots(cs) == Len(cs) - CHOOSE k \in 1..Len(cs) : ~REq(cs[k], 0) /\ \A m \in (k + 1)..Len(cs) : REq(cs[m], 0)
\* <<positive, zero, negative>> eigenvalues of a symmetric matrix
Inertia(A) == LET cs == CharPoly(A) p == SignChanges(cs) z == ZeroRoots(cs) IN <<p, z, Rows(A) - p - z>>
Definiteness(A) == LET t == Inertia(A) IN
  IF t[3] = 0 THEN (IF t[2] = 0 THEN "PD" ELSE "PSD") ELSE IF t[1] = 0 THEN (IF t[2] = 0 THEN "ND" ELSE "NSD") ELSE "IND"
RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 0 THEN Id(Rows(A)) ELSE RMatMul(A, MPow(A, k - 1))
ZeroM(A) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : REq(A[i][j], 0)
Nilpotent(A) == ZeroM(MPow(A, Rows(A)))
Unipotent(A) == Nilpotent(MSubt(A, Id(Rows(A))))
NormF(A) == RSqrt(NormF2(A))
(* ---- computed spectra ---- *)
SumSq(v) == RDot(v, v)
Col(V, j) == [i \in 1..Rows(V) |-> V[i][j]]
\* residual |A v - lambda v| of a real pair
PairRes(A, v, lam) == VSubt(RMatVec(A, v), VScal(lam, v))
RealPair(A, v, lam, t) == RLe(NormV(PairRes(A, v, lam)), RMul(t, NormM(A))) /\ Within(SumSq(v), 1, "1e-10")
\* complex pair vr + i vi for re + i im
ComplexPair(A, vr, vi, re, im, t) ==
  /\ RLe(NormV(VAddt(PairRes(A, vr, re), VScal(im, vi))), RMul(t, NormM(A)))
  /\ RLe(NormV(VSubt(PairRes(A, vi, re), VScal(im, vr))), RMul(t, NormM(A)))
  /\ Within(RAdd(SumSq(vr), SumSq(vi)), 1, "1e-10")
CMulP(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
RECURSIVE CPowP(_, _)
CPowP(z, k) == IF k = 0 THEN <<1, 0>> ELSE LET p == CMulP(z, CPowP(z, k - 1)) IN <<RKeep(p[1]), RKeep(p[2])>>
PowerSum(ls, k) == LET p == [i \in 1..Len(ls) |-> CPowP(ls[i], k)] IN <<RSum([i \in 1..Len(ls) |-> p[i][1]]), RSum([i \in 1..Len(ls) |-> p[i][2]])>>
RECURSIVE ProdOf(_)
ProdOf(ls) == IF ls = <<>> THEN <<1, 0>> ELSE LET p == CMulP(Head(ls), ProdOf(Tail(ls))) IN <<RKeep(p[1]), RKeep(p[2])>>
\* eigenvalues of a matrix within t |A| of A have these power sums and this product
Spectrum(A, ls, t) ==
  LET n == Rows(A) F == NormF(A)
  IN /\ Len(ls) = n
     /\ \A k \in 1..n : LET p == PowerSum(ls, k) b == RMul(RMul(t, 2 * k * n), RPow(F, k)) IN Within(p[1], TraceOf(MPow(A, k)), b) /\ Within(p[2], 0, b)
     /\ LET p == ProdOf(ls) b == RMul(RMul(t, 4 * n), RPow(F, n)) IN Within(p[1], RDet(A), b) /\ Within(p[2], 0, b)
Ascending(w) == \A i \in 1..(Len(w) - 1) : RLe(w[i], w[i + 1])
SymEigen(A, w, V, t) ==
  /\ Len(w) = Rows(A) /\ Rows(V) = Rows(A) /\ Cols(V) = Rows(A)
  /\ Ascending(w) /\ Orthonormal(V)
  /\ \A j \in 1..Len(w) : RealPair(A, Col(V, j), w[j], t)
(* ---- subspaces ---- *)
ProjOn(B, v) == RMatVec(B, RMatVec(Tr(B), v))
\* B's columns are an orthonormal basis of the column space of A
BasisOfColumns(B, A, r) == Cols(B) = r /\ (r = 0 \/ (Rows(B) = Rows(A) /\ Orthonormal(B)
     /\ \A j \in 1..Cols(A) : RLe(NormV(VSubt(Col(A, j), ProjOn(B, Col(A, j)))), RMul("1e-11", NormM(Tr(A))))))
BasisOfKernel(B, A, r) == Cols(B) = Cols(A) - r /\ (Cols(A) = r \/ (Rows(B) = Cols(A) /\ Orthonormal(B) /\ RLe(NormM(RMatMul(A, B)), RMul("1e-11", NormM(A)))))
\* Penrose conditions; k is how ill-conditioned A is on its row space
IsPseudoInverse(A, X, k) ==
  LET AX == RMatMul(A, X) XA == RMatMul(X, A) t == RMul("1e-13", RMul(10, k))
  IN /\ Rows(X) = Cols(A) /\ Cols(X) = Rows(A)
     /\ RLe(NormM(MSubt(RMatMul(AX, A), A)), RMul(t, NormM(A)))
     /\ RLe(NormM(MSubt(RMatMul(XA, X), X)), RMul(t, NormM(X)))
     /\ RLe(NormM(MSubt(AX, Tr(AX))), t) /\ RLe(NormM(MSubt(XA, Tr(XA))), t)
=============================================================================
