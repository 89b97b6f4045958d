---------------------------- MODULE LinSysTrace ----------------------------
(* Validates the recorded answers of the direct solvers.                     *)
EXTENDS LinSys, TraceFile
VARIABLES h, l, st, dead
Sing == {"SingularMatrixError", "MatrixNumericalError"}
Shape == {"MatrixDimensionError", "VectorDimensionError"}
Square(A) == Rows(A) = Cols(A) /\ Rows(A) > 0
Fits(A, b) == Square(A) /\ Len(b) = Rows(A)
\* Gauss-Jordan elimination is stable up to the condition of the matrix
Fac(sv, A) == IF sv \in {"gj", "gjconst", "gjv", "gjm"} THEN RMax(1, Kappa(A)) ELSE 10
MustRefuse(sv, A) == ZeroLine(A) \/ (TwinRows(A) /\ Rows(A) <= 3 /\ sv # "qr")
Solve(e) ==
  IF ~Fits(e.A, e.b) THEN Chk("refusal of misshaped data", IF Square(e.A) /\ NearSingular(e.A) THEN e.err \in Shape \cup Sing ELSE e.err \in Shape)
  ELSE IF e.err # "" THEN Chk("refused as singular", e.err \in Sing /\ NearSingular(e.A))
  ELSE /\ Chk("singular matrix refused", ~MustRefuse(e.sv, e.A))
       /\ Chk("residual", Singular(e.A) \/ Answers(e.A, e.x, e.b, Fac(e.sv, e.A)))
       /\ Chk("same answer by every call", Has(e, "same") => e.same)
Inv(e) ==
  IF ~Square(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE IF e.err # "" THEN Chk("refused as singular", e.err \in Sing /\ NearSingular(e.A))
  ELSE /\ Chk("singular matrix refused", ~MustRefuse(e.sv, e.A))
       /\ Chk("inverse", Singular(e.A) \/ IsInverse(e.A, e.X))
Detailed(e) ==
  LET r == Residual(e.A, e.x, e.b)
  IN /\ Chk("no exception escapes", e.err = "")
     /\ IF e.ok THEN /\ Chk("misshaped data is not a success", Fits(e.A, e.b))
                     /\ Chk("residual", Singular(e.A) \/ Answers(e.A, e.x, e.b, Fac(e.sv, e.A)))
                     /\ Chk("reported residual", Within(e.rn, Norm2(r), RMul(Tol, RAdd(RMul(NormM(e.A), NormV(e.x)), NormV(e.b)))))
        ELSE Chk("failure", ~Fits(e.A, e.b) \/ NearSingular(e.A) \/ (e.sv = "chol" /\ (~Symmetric(e.A) \/ ~PosDef(e.A) \/ NearSingular(e.A))))
     /\ Chk("singular matrix refused", Fits(e.A, e.b) /\ MustRefuse(e.sv, e.A) => ~e.ok)
QR(e) ==
  IF Rows(e.A) < Cols(e.A) \/ Cols(e.A) = 0 THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE /\ Chk("no refusal", e.err = "")
       /\ Chk("factorization", QRof(e.A, e.Q, e.R))
       /\ Chk("singular flag", LET G == RMatMul(Tr(e.A), e.A) IN IF e.sing THEN REq(NormF2(e.A), 0) \/ Singular(G) \/ RGe(Kappa(G), "1e22")
                                ELSE ~(\E j \in 1..Cols(e.A) : \A i \in 1..Rows(e.A) : REq(e.A[i][j], 0)))
Lsq(e) ==
  IF Len(e.b) # Rows(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE Chk("refusal iff singular", (e.err \in Sing) = e.sing)
       /\ (e.err = "" => Chk("least squares", LeastSquares(e.A, e.x, e.b) /\ SeqREq(e.x, e.y)))
QMul(e) == LET t == RMatVec(Tr(e.Q), e.b)
           IN /\ Chk("Q Qt b = b",  RLe(NormV(VSubt(e.qqtb, e.b)), RMul(Tol, NormV(e.b))))
              /\ Chk("Qt b", Len(e.qtb) = Rows(e.A) /\ \A i \in 1..Cols(e.A) : Within(e.qtb[i], t[i], RMul(RMul(10, Tol), NormV(e.b))))
Proj(B, v) == RMatVec(B, RMatVec(Tr(B), v))
SVD(e) ==
  IF Rows(e.A) = 0 \/ Cols(e.A) = 0 THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE LET r == RRank(e.A)
           n == Cols(e.A)
           crisp == \A j \in 1..n : RGe(e.w[j], RMul("1e-10", e.w[1])) \/ RLe(e.w[j], RMul("1e-17", e.w[1])) \/ j > r
       IN /\ Chk("no refusal", e.err = "")
          /\ Chk("factorization", SVDof(e.A, e.U, e.w, e.V))
          /\ Chk("rank and nullity", e.rank + e.nullity = n /\ e.rc = e.rank /\ e.nc = e.nullity /\ (crisp => e.rank = r))
          /\ Chk("range", e.rank = 0 \/ (Orthonormal(e.range) /\ (\A j \in 1..n : LET c == Tr(e.A)[j] IN RLe(NormV(VSubt(c, Proj(e.range, c))), RMul("1e-11", NormM(Tr(e.A)))))))
          /\ Chk("null space", e.nullity = 0 \/ (Orthonormal(e.null) /\ RLe(NormM(RMatMul(e.A, e.null)), RMul("1e-11", NormM(e.A)))))
          /\ Chk("inverse condition", IF RLe(e.w[n], 0) THEN REq(e.ic, 0) ELSE CloseRel(e.ic, RDiv(e.w[n], e.w[1]), 4))
SVDSolve(e) ==
  IF Len(e.b) # Rows(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE /\ Chk("no refusal", e.err = "")
       /\ Chk("least squares", LeastSquares(e.A, e.x, e.b))
       /\ Chk("shortest solution", e.nc = 0 \/ RLe(NormV(RMatVec(Tr(e.null), e.x)), RMul("1e-11", NormV(e.x))))
Chol(e) ==
  LET A == e.A
      n == Rows(A)
  IN IF ~Square(A) THEN Chk("refusal of misshaped data", e.err \in Shape)
     ELSE IF ~Symmetric(A) THEN Chk("refusal of an unsymmetric matrix", e.err = "MatrixDimensionError")
     ELSE IF e.err # "" THEN Chk("refused as not positive definite", e.err \in Sing /\ (~PosDef(A) \/ NearSingular(A)))
     ELSE /\ Chk("indefinite matrix refused", ~NotPosDef(A) /\ ~ZeroLine(A))
          /\ Chk("factor", LowerTri(e.L) /\ SameM(RMatMul(e.L, Tr(e.L)), A, NormM(A)) /\ \A i \in 1..n : RGt(e.L[i][i], 0))
          /\ Chk("right-hand side", IF Len(e.b) # n THEN e.e1 \in Shape ELSE e.e1 = "" /\ (Singular(A) \/ Answers(A, e.x, e.b, 10)))
          /\ Chk("inverse", Singular(A) \/ IsInverse(A, e.X))
          /\ Chk("log determinant", NearSingular(A) \/ Within(e.ld, RLn(RDet(A)), RMul(Tol, RAdd(RAbs(e.ld), RMul(10, Kappa(A))))))
Ok(s, e) ==
  CASE e.op = "solve" -> Solve(e)
    [] e.op = "solvebad" -> Chk("refusal of misshaped data", e.err \in Shape)
    [] e.op = "inv" -> Inv(e)
    \* complex determinants arrive squared, with the real block form
    [] e.op = "det" -> Chk("determinant", IsDet(e.A, e.det))
    [] e.op = "detailed" -> Detailed(e)
    [] e.op = "qr" -> QR(e)
    [] e.op = "lsq" -> Lsq(e)
    [] e.op = "qmul" -> QMul(e)
    [] e.op = "rsolve" -> Chk("triangular solve", Singular(e.R) \/ Answers(e.R, e.x, e.b, 1))
    [] e.op = "svd" -> SVD(e)
    [] e.op = "svdsolve" -> SVDSolve(e)
    [] e.op = "chol" -> Chol(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
