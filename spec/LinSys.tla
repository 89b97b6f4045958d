------------------------------- MODULE LinSys -------------------------------
(***************************************************************************)
(* Linear systems over the reals.  A matrix is a sequence of rows, exact    *)
(* rationals throughout.  The elimination below is the transition system    *)
(* behind every direct solver; the relations after it say which floating    *)
(* answers are answers to a system: a residual at rounding level relative   *)
(* to the data (backward error), and a refusal only for a matrix that is    *)
(* singular or within rounding of a singular one.                           *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
Rows(A) == Len(A)
Cols(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
Tr(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MSubt(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RSub(A[i][j], B[i][j])]]
VSubt(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VAddt(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VScal(a, v) == [i \in 1..Len(v) |-> RMul(a, v[i])]
NormV(v) == RMaxAbs(v)
NormM(A) == RMaxAbs([i \in 1..Rows(A) |-> RSumAbs(A[i])])
NormF2(A) == RSum([i \in 1..Rows(A) |-> RDot(A[i], A[i])])
Norm2(v) == RSqrt(RDot(v, v))
Minor(A, r, c) == [i \in 1..(Rows(A) - 1) |-> [j \in 1..(Cols(A) - 1) |-> A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
Lead(A, k) == [i \in 1..k |-> [j \in 1..k |-> A[i][j]]]
Adj(A) == [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> RMul(IF (i + j) % 2 = 0 THEN 1 ELSE 0 - 1, IF Rows(A) = 1 THEN 1 ELSE RDet(Minor(A, j, i)))]]
Inverse(A) == LET d == RDet(A) Q == Adj(A) IN [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> RDiv(Q[i][j], d)]]
\* condition number in the maximum norm; only for RDet(A) # 0
Kappa(A) == RMul(NormM(A), NormM(Inverse(A)))
Singular(A) == REq(RDet(A), 0)
NearSingular(A) == Singular(A) \/ RGe(Kappa(A), "1e12")
Symmetric(A) == \A i, j \in 1..Rows(A) : REq(A[i][j], A[j][i])
PosDef(A) == \A k \in 1..Rows(A) : RGt(RDet(Lead(A, k)), 0)
\* decidedly not positive definite: some leading pivot is negative well beyond rounding
NotPosDef(A) == \E k \in 1..Rows(A) : /\ (\A m \in 1..(k - 1) : RGt(RDet(Lead(A, m)), 0))
                                       /\ RLt(IF k = 1 THEN A[1][1] ELSE RDiv(RDet(Lead(A, k)), RDet(Lead(A, k - 1))), RMul("-1e-12", NormM(A)))
\* singular in a way rounding cannot hide: a vanishing row or column
ZeroLine(A) == (\E i \in 1..Rows(A) : \A j \in 1..Cols(A) : REq(A[i][j], 0)) \/ (\E j \in 1..Cols(A) : \A i \in 1..Rows(A) : REq(A[i][j], 0))
\* two equal rows stay equal under any row operations
TwinRows(A) == \E i, j \in 1..Rows(A) : i < j /\ \A k \in 1..Cols(A) : REq(A[i][k], A[j][k])
(* ---- acceptable answers ---- *)
Tol == "1e-12"
Residual(A, x, b) == VSubt(RMatVec(A, x), b)
\* x answers A x = b to within a factor c of rounding
Answers(A, x, b, c) == Len(x) = Cols(A) /\ AllNum(x) /\ RLe(NormV(Residual(A, x, b)), RMul(RMul(Tol, c), RAdd(RMul(NormM(A), NormV(x)), NormV(b))))
\* x minimises |A x - b|
LeastSquares(A, x, b) == Len(x) = Cols(A) /\ AllNum(x) /\ RLe(NormV(RMatVec(Tr(A), Residual(A, x, b))), RMul(Tol, RMul(NormM(Tr(A)), RAdd(RMul(NormM(A), NormV(x)), NormV(b)))))
IsInverse(A, X) == Rows(X) = Rows(A) /\ Cols(X) = Rows(A) /\ RLe(NormM(MSubt(RMatMul(A, X), Id(Rows(A)))), RMul(Tol, RMul(10, RMul(NormM(A), NormM(X)))))
RECURSIVE RowProd(_, _)
RowProd(A, i) == IF i = 0 THEN 1 ELSE RMul(RSumAbs(A[i]), RowProd(A, i - 1))
\* to first order a perturbation E of A moves the determinant by tr(adj(A) E)
IsDet(A, d) == LET D == RDet(A)
                   err == RAbs(RSub(d, D))
               IN \/ RLe(err, RMul(Tol, RowProd(A, Rows(A))))
                  \/ RLe(err, RMul(Tol, IF REq(D, 0) THEN RPow(NormM(A), Rows(A)) ELSE RMul(Kappa(A), RAbs(D))))
Orthonormal(Q) == LET G == RMatMul(Tr(Q), Q) IN \A i \in 1..Cols(Q) : \A j \in 1..Cols(Q) : Within(G[i][j], IF i = j THEN 1 ELSE 0, Tol)
SameM(A, B, s) == Rows(A) = Rows(B) /\ Cols(A) = Cols(B) /\ \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : Within(A[i][j], B[i][j], RMul(Tol, s))
UpperTri(R) == \A i \in 1..Rows(R) : \A j \in 1..Cols(R) : j < i => REq(R[i][j], 0)
LowerTri(R) == UpperTri(Tr(R))
QRof(A, Q, R) == Rows(Q) = Rows(A) /\ Cols(Q) = Cols(A) /\ UpperTri(R) /\ SameM(RMatMul(Q, R), A, NormM(A)) /\ Orthonormal(Q)
Diag(w) == [i \in 1..Len(w) |-> [j \in 1..Len(w) |-> IF i = j THEN w[i] ELSE 0]]
ColsOf(A, S) == LET RECURSIVE Pick(_, _)
                    Pick(row, j) == IF j = 0 THEN <<>> ELSE IF j \in S THEN Append(Pick(row, j - 1), row[j]) ELSE Pick(row, j - 1)
                IN [i \in 1..Rows(A) |-> Pick(A[i], Cols(A))]
SVDof(A, U, w, W) ==
  LET n == Cols(A)
      big == {j \in 1..n : RGt(w[j], RMul("1e-13", w[1]))}
  IN /\ Rows(U) = Rows(A) /\ Cols(U) = n /\ Len(w) = n /\ Rows(W) = n /\ Cols(W) = n
     /\ \A j \in 1..n : RGe(w[j], 0) /\ (j > 1 => RLe(w[j], w[j - 1]))
     /\ SameM(RMatMul(RMatMul(U, Diag(w)), Tr(W)), A, NormM(A))
     /\ Orthonormal(W) /\ (big # {} => Orthonormal(ColsOf(U, big)))
(* ---- Gaussian elimination with row exchanges, as a transition system ---- *)
\* st = [A, b, sign, k]: columns before k are done
ElimInit(A, b) == [A |-> A, b |-> b, sign |-> 1, k |-> 1]
SwapRowsOf(s, p) == [s EXCEPT !.A[p] = s.A[s.k], !.A[s.k] = s.A[p], !.b[p] = s.b[s.k], !.b[s.k] = s.b[p], !.sign = IF p = s.k THEN s.sign ELSE 0 - s.sign]
Eliminate(s) ==
  LET n == Rows(s.A)
      f(i) == RDiv(s.A[i][s.k], s.A[s.k][s.k])
  IN [s EXCEPT !.A = [i \in 1..n |-> IF i <= s.k THEN s.A[i] ELSE [j \in 1..n |-> RKeep(RSub(s.A[i][j], RMul(f(i), s.A[s.k][j])))]],
               !.b = [i \in 1..n |-> IF i <= s.k THEN s.b[i] ELSE RKeep(RSub(s.b[i], RMul(f(i), s.b[s.k])))],
               !.k = s.k + 1]
\* the pivots an elimination may take in column k
Pivots(s) == {p \in s.k..Rows(s.A) : ~REq(s.A[p][s.k], 0)}
RECURSIVE BackSub(_, _, _)
BackSub(A, b, i) == \* components i..n
  IF i > Len(b) THEN <<>> ELSE LET r == BackSub(A, b, i + 1) IN <<RDiv(RSub(b[i], RSum([j \in 1..Len(r) |-> RMul(A[i][i + j], r[j])])), A[i][i])>> \o r
=============================================================================
