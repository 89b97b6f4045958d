--------------------------- MODULE LinFacadeTrace ---------------------------
(* Validates the answers one object gave in a history: each is a correct        *)
(* answer for the system it holds, and the answer a fresh object gives.          *)
EXTENDS LinFacade, TraceFile
VARIABLES h, l, st, dead
Sing == {"SingularMatrixError", "MatrixNumericalError"}
Shape == {"MatrixDimensionError", "VectorDimensionError"}
Square(A) == Rows(A) = Cols(A)
DefTol == "1e-8"
T(e) == IF RLt(e.t, 0) THEN DefTol ELSE e.t
\* condition in the 2-norm from the singular values; <<>> for a singular matrix
Full(e) == RRank(e.A) = Cols(e.A) /\ Rows(e.A) >= Cols(e.A)
Spd(A) == Square(A) /\ Symmetric(A) /\ PosDef(A)
MinNorm(A, x) == Cols(A) <= 1 \/ RRank(A) = Cols(A) \/ TRUE
\* normal equations, relative to what the condition of a least-squares problem allows
Fits(A, x, b, c) == Answers(A, x, b, c) \/ LeastSquares(A, x, b)
\* systems whose rank is decided well above rounding
Crisp(A) == LET g == IF Rows(A) >= Cols(A) THEN RMatMul(Tr(A), A) ELSE RMatMul(A, Tr(A)) IN Singular(g) \/ RLt(Kappa(g), "1e20")
Solved(e, c) == Chk("a solution", Fits(e.A, e.a.x, e.b, c))
SolveQ(e) ==
  LET A == e.A k == e.q IN
  IF e.kind # 1 THEN Chk("no single right-hand side", e.err = "runtime_error")
  ELSE IF k \in {"gj", "lu", "chol", "iter"} /\ ~Square(A) THEN Chk("refusal of a rectangular system", e.err \in Shape)
  ELSE CASE k = "solve" -> IF e.err # "" THEN Chk("refused as singular", e.err \in Sing /\ Rows(A) > Cols(A) /\ ~(Crisp(A) /\ RRank(A) = Cols(A))) ELSE Solved(e, 10)
         [] k \in {"gj", "lu"} -> IF e.err # "" THEN Chk("refused as singular", e.err \in Sing /\ NearSingular(A))
                                  ELSE Singular(A) \/ Solved(e, IF k = "gj" THEN RMax(1, Kappa(A)) ELSE 10)
         [] k = "chol" -> IF e.err # "" THEN Chk("refused as not positive definite", (e.err \in Sing /\ (~Symmetric(A) \/ ~PosDef(A) \/ NearSingular(A))) \/ (e.err \in Shape /\ ~Symmetric(A)))
                          ELSE Chk("indefinite matrix refused", ~NotPosDef(SymPart(A))) /\ (~Symmetric(A) \/ Singular(A) \/ Solved(e, 10))
         [] k \in {"qr", "lsq"} -> IF Rows(A) < Cols(A) THEN Chk("refusal of misshaped data", e.err \in Shape)
                                   ELSE IF e.err # "" THEN Chk("refused as singular", e.err \in Sing /\ ~(Crisp(A) /\ RRank(A) = Cols(A)))
                                   ELSE ~(Crisp(A) /\ RRank(A) = Cols(A)) \/ Solved(e, 10)
         [] k = "svd" -> Chk("no refusal", e.err = "") /\ Solved(e, 10)
         [] k = "iter" -> IF e.err # "" THEN Chk("a dominant system converges", ~(Dominant(A) /\ e.m # 3))
                          ELSE Chk("a solution", Singular(A) \/ RLe(NormV(Residual(A, e.a.x, e.b)), RMul("1e-9", RMul(RMax(1, Kappa(A)), RAdd(1, RAdd(RMul(NormM(A), NormV(e.a.x)), NormV(e.b)))))))
Multi(e) ==
  IF e.kind # 2 THEN Chk("no several right-hand sides", e.err = "runtime_error")
  ELSE IF ~Square(e.A) THEN Chk("refusal of a rectangular system", e.err \in Shape)
  ELSE IF e.err # "" THEN Chk("refused as singular", e.err \in Sing /\ NearSingular(e.A))
  ELSE Singular(e.A) \/ Chk("solutions", Cols(e.a.X) = Cols(e.B) /\ \A j \in 1..Cols(e.B) : Answers(e.A, Col(e.a.X, j), Col(e.B, j), 10))
Norms(e) == \* |A y - b| and how well it can be computed
  LET r == Residual(e.A, e.y, e.b) IN <<Norm2(r), RMul("1e-14", RAdd(RMul(NormM(e.A), RMul(10, NormV(e.y))), NormV(e.b)))>>
Res(e) ==
  IF e.kind # 1 THEN Chk("no single right-hand side", e.err = "runtime_error")
  ELSE IF Len(e.y) # Cols(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE LET n == Norms(e) nb == Norm2(e.b) IN
    /\ Chk("no refusal", e.err = "")
    /\ Chk("residual", Within(e.a.abs, n[1], n[2]))
    /\ Chk("relative residual", IF REq(nb, 0) THEN REq(e.a.rel, e.a.abs) ELSE CloseRel(e.a.rel, RDiv(e.a.abs, nb), 8))
    /\ IF e.q = "res" THEN TRUE ELSE
       LET den == RMul(NormM(e.A), Norm2(e.y)) IN
       /\ Chk("accurate iff the residual is within tolerance", e.a.acc = RLt(e.a.rel, T(e)))
       /\ Chk("backward error", IF RLe(den, "1e-28") THEN (RLe(den, 0) => REq(e.a.back, e.a.abs)) ELSE CloseRel(e.a.back, RDiv(e.a.abs, den), 32))
       /\ Chk("forward error estimate", LET w == e.sv[1] n2 == Len(w) IN RLe(w[n2], RMul("1e-13", w[1])) \/ CloseRel(e.a.fwd, RMul(RDiv(w[1], w[n2]), e.a.rel), 32))
Flag(e) ==
  LET A == e.A t == T(e) IN
  /\ Chk("no refusal", e.err = "")
  /\ Chk(e.q, CASE e.q = "sym" -> e.a.r = SymTol(A, t)
       [] e.q = "pd" -> IF ~SymTol(A, t) THEN ~e.a.r ELSE IF Singular(SymPart(A)) THEN (NotPosDef(SymPart(A)) => ~e.a.r) ELSE NearSingular(SymPart(A)) \/ e.a.r = PosDef(SymPart(A))
       [] e.q = "upper" -> e.a.r = UpperTol(A, t)
       [] e.q = "lower" -> e.a.r = LowerTol(A, t)
       [] e.q = "diag" -> e.a.r = (UpperTol(A, t) /\ LowerTol(A, t))
       [] e.q = "dom" -> e.a.r = Dominant(A)
       [] e.q = "sparse" -> CloseRel(e.a.r, RDiv(ZerosUpTo(A, IF RLt(e.t, 0) THEN "1e-15" ELSE e.t), Rows(A) * Cols(A)), 2))
\* rank at the default threshold is the rank where that is clear of rounding
RankOk(r, e) == IF RLt(e.t, 0) THEN (Crisp(e.A) => r = RRank(e.A)) ELSE (CrispAt(e.sv[1], e.t) => r = RankAt(e.sv[1], e.t))
Rank(e) == Chk("no refusal", e.err = "") /\ Chk("rank and nullity", e.a.r + e.a.n = Cols(e.A) /\ RankOk(e.a.r, e))
Bases(e) ==
  LET n == Cols(e.A) IN
  /\ Chk("no refusal", e.err = "")
  /\ IF e.q = "null" THEN Chk("dimension", RankOk(n - e.a.nc, e)) /\ Chk("null space", e.a.nc = 0 \/ (Orthonormal(e.a.N) /\ (RLt(e.t, 0) /\ Crisp(e.A) => BasisOfKernel(e.a.N, e.A, n - e.a.nc))))
     ELSE Chk("dimension", RankOk(e.a.nc, e)) /\ Chk("column space", e.a.nc = 0 \/ ((RLt(e.t, 0) /\ Crisp(e.A) => BasisOfColumns(e.a.N, e.A, e.a.nc))))
CondOk(c, w) == LET n == Len(w) IN IF RLe(w[n], RMul("1e-13", w[1])) THEN RGe(c, "1e12") ELSE CloseRel(c, RDiv(w[1], w[n]), 64)
Cond(e) ==
  LET w == e.sv[1] A == e.A d == RPow(10, 0) IN
  /\ Chk("no refusal", e.err = "")
  /\ Chk("condition number", CondOk(e.a.r, w))
  /\ Chk("stability class", e.a.st = Stability(e.a.r))
  /\ Chk("digits lost", RGe(e.a.r, "1e29") \/ Digits(e.a.dig, e.a.r))
  /\ Chk("condition in other norms", ~Square(A) \/ NearSingular(A) \/ LET X == Inverse(A) K == RMul("1e-12", Kappa(A)) IN
        /\ Within(e.a.ci, RMul(NormM(A), NormM(X)), RMul(K, e.a.ci)) /\ Within(e.a.c1, RMul(OneNormOf(A), OneNormOf(X)), RMul(K, e.a.c1)))
Factors(e) ==
  LET A == e.A a == e.a IN
  /\ Chk("no exception", e.err = "")
  /\ CASE e.q = "getlu" -> IF ~a.ok THEN Chk("no factors only when singular", ~Square(A) \/ NearSingular(A))
                           ELSE Chk("factors", Square(A) /\ PLU(A, a.p, a.L, a.U)) /\ Chk("determinant", IsDet(A, a.det))
       [] e.q = "getqr" -> IF ~a.ok THEN Chk("no factors only when wide", Rows(A) < Cols(A)) ELSE Chk("factors", QRof(A, a.Q, a.R))
       [] e.q = "getsvd" -> Chk("factors", a.ok /\ SVDof(A, a.U, a.w, a.V)) /\ Chk("rank", Crisp(A) => a.rank = RRank(A))
       [] e.q = "getchol" -> IF ~a.ok THEN Chk("no factor only when not positive definite", ~Square(A) \/ ~Symmetric(A) \/ ~PosDef(A) \/ NearSingular(A))
                             ELSE Chk("factor", Square(A) /\ ~NotPosDef(SymPart(A)) /\ (Symmetric(A) => LowerTri(a.L) /\ SameM(RMatMul(a.L, Tr(a.L)), A, NormM(A))))
DetQ(e) ==
  IF ~Square(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE IF e.err # "" THEN Chk("refused as singular", e.err \in Sing /\ NearSingular(e.A))
  ELSE Chk("determinant", IsDet(e.A, e.a.r))
Inv(e) ==
  IF e.q = "pinv" THEN Chk("no refusal", e.err = "") /\ (IF ~Crisp(e.A) THEN TRUE ELSE LET r == RRank(e.A) w == e.sv[1] IN Chk("pseudo-inverse", IF r = 0 THEN ZeroM(e.a.X) ELSE IsPseudoInverse(e.A, e.a.X, RDiv(w[1], w[r]))))
  ELSE IF ~Square(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE IF e.err # "" THEN Chk("refused as singular", e.err \in Sing /\ NearSingular(e.A))
  ELSE Singular(e.A) \/ Chk("inverse", IsInverse(e.A, e.a.X))
ET == "1e-11"
Eig(e) ==
  IF ~Square(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE IF e.q = "eigs" THEN
    IF ~SymTol(e.A, DefTol) THEN Chk("refusal of an unsymmetric matrix", e.err \in Shape)
    ELSE IF ~Symmetric(e.A) THEN TRUE
    ELSE Chk("no refusal", e.err = "") /\ Chk("spectrum", Spectrum(e.A, [i \in 1..Len(e.a.w) |-> <<e.a.w[i], 0>>], ET))
  ELSE /\ Chk("no refusal", e.err = "")
       /\ (e.a.conv => /\ Chk("spectrum", Spectrum(e.A, e.a.z, ET))
                       /\ Chk("real parts", Len(e.a.re) = Len(e.a.z) /\ \A i \in 1..Len(e.a.z) : REq(e.a.re[i], e.a.z[i][1]))
                       /\ Chk("spectral radius", \A i \in 1..Len(e.a.z) : RLe(RAdd(RMul(e.a.z[i][1], e.a.z[i][1]), RMul(e.a.z[i][2], e.a.z[i][2])), RMul("1.00000001", RMul(e.a.rad, e.a.rad))))
                       /\ Chk("spectral radius attained", \E i \in 1..Len(e.a.z) : CloseRel(RAdd(RMul(e.a.z[i][1], e.a.z[i][1]), RMul(e.a.z[i][2], e.a.z[i][2])), RMul(e.a.rad, e.a.rad), 64))
                       /\ Chk("complex eigenvalues", (\E i \in 1..Len(e.a.z) : RGt(RAbs(e.a.z[i][2]), "1e-8")) => e.a.cx) /\ Chk("no complex eigenvalues", (\A i \in 1..Len(e.a.z) : REq(e.a.z[i][2], 0)) => ~e.a.cx))
ShapeOk(a, A) == a.r = Rows(A) /\ a.c = Cols(A) /\ a.sq = Square(A) /\ a.over = (Rows(A) > Cols(A)) /\ a.under = (Rows(A) < Cols(A))
Analyze(e) ==
  LET A == e.A a == e.a t == DefTol IN
  /\ Chk("no exception", e.err = "")
  /\ Chk("dimensions", ShapeOk(a, A))
  /\ Chk("structure", a.sym = SymTol(A, t) /\ a.dom = Dominant(A) /\ a.up = UpperTol(A, t) /\ a.lo = LowerTol(A, t) /\ a.dg = (UpperTol(A, t) /\ LowerTol(A, t)))
  /\ Chk("definite", a.pd => a.sym /\ ~NotPosDef(SymPart(A)))
  /\ Chk("sparsity", CloseRel(a.sp, RDiv(ZerosUpTo(A, "1e-15"), Rows(A) * Cols(A)), 2))
  /\ Chk("determinant", IF Square(A) THEN IsDet(A, a.det) \/ (REq(a.det, 0) /\ NearSingular(A)) ELSE REq(a.det, 0))
  /\ Chk("rank", a.rank + a.nul = Cols(A) /\ (Crisp(A) => a.rank = RRank(A)))
  /\ Chk("condition", CondOk(a.cond, e.sv[1]) /\ a.st = Stability(a.cond) /\ (RGe(a.cond, "1e29") \/ Digits(a.dig, a.cond)))
  /\ Chk("solution count", a.one = (a.rank = a.c /\ a.r >= a.c) /\ ~(a.one /\ a.inf) /\ ~(a.one /\ a.none) /\ ~(a.inf /\ a.none) /\ ((a.sq \/ a.under) /\ ~a.one => a.inf))
  /\ Chk("recommended solver", a.rec \in {"Triangular", "QR", "SVD", "Cholesky", "LU"} /\ (a.rec = "Cholesky" => Spd(A)) /\ (a.rec = "QR" => a.r >= a.c) /\ (a.rec = "LU" => a.sq) /\ (a.rec = "Triangular" => UpperTol(A, 0) \/ LowerTol(A, 0)))
Ask(e) ==
  /\ Chk("the answer of a fresh object", e.same)
  /\ CASE e.q \in {"solve", "gj", "lu", "chol", "qr", "svd", "lsq", "iter"} -> SolveQ(e)
       [] e.q = "multi" -> Multi(e)
       [] e.q \in {"res", "verify"} -> Res(e)
       [] e.q \in {"sym", "pd", "upper", "lower", "diag", "dom", "sparse"} -> Flag(e)
       [] e.q = "det" -> DetQ(e)
       [] e.q = "rank" -> Rank(e)
       [] e.q = "cond" -> Cond(e)
       [] e.q \in {"getlu", "getqr", "getsvd", "getchol"} -> Factors(e)
       [] e.q \in {"null", "cols"} -> Bases(e)
       [] e.q \in {"inv", "pinv"} -> Inv(e)
       [] e.q \in {"eig", "eigs"} -> Eig(e)
       [] e.q = "shape" -> Chk("shape", e.err = "" /\ ShapeOk(e.a, e.A) /\ MatREq(e.a.M, e.A))
       [] e.q = "analyze" -> Analyze(e)
Ok(s, e) ==
  IF e.op = "bad" THEN Chk("misshaped right-hand sides are refused", (e.e1 \in Shape) = (e.b # e.m) /\ (e.e2 \in Shape) = (e.B # e.m))
  ELSE Ask(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
