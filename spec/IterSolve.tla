------------------------------ MODULE IterSolve ------------------------------
(***************************************************************************)
(* Stationary iterations for A x = b.  The state is the current vector x    *)
(* and the number k of sweeps made; a sweep recomputes every unknown from   *)
(* its own equation (Jacobi: from the old vector; Gauss-Seidel: from the    *)
(* newest values; SOR: the old value moved by w towards the Gauss-Seidel    *)
(* value).  The iteration stops with success at the first vector, after a   *)
(* sweep, whose relative residual is below the tolerance, and with failure  *)
(* after the allowed number of sweeps.                                      *)
(***************************************************************************)
EXTENDS LinSys
OffSum(A, x, y, i) == RSum([j \in 1..Len(x) |-> IF j < i THEN RMul(A[i][j], y[j]) ELSE IF j > i THEN RMul(A[i][j], x[j]) ELSE 0])
RECURSIVE SeqSweep(_, _, _, _, _, _)
\* y holds the already updated leading unknowns; v is the weight of the old value, w of the new
SeqSweep(A, b, x, v, w, y) ==
  LET i == Len(y) + 1
  IN IF i > Len(x) THEN y
     ELSE LET g == RDiv(RSub(b[i], OffSum(A, x, y, i)), A[i][i])
          IN SeqSweep(A, b, x, v, w, Append(y, RRnd(RAdd(RMul(v, x[i]), RMul(w, g)), 200)))
JacSweep(A, b, x) == <<>> \o [i \in 1..Len(x) |-> RRnd(RDiv(RSub(b[i], OffSum(A, x, x, i)), A[i][i]), 200)]
Sweep(m, w, A, b, x) == CASE m = "jacobi" -> JacSweep(A, b, x)
                          [] m = "gs" -> SeqSweep(A, b, x, 0, 1, <<>>)
                          [] m = "sor" -> SeqSweep(A, b, x, RSub(1, w), w, <<>>)
RECURSIVE Sweeps(_, _, _, _, _, _)
\* the sequence of iterates, first the start
Sweeps(m, w, A, b, x, k) == IF k = 0 THEN <<x>> ELSE LET p == Sweeps(m, w, A, b, x, k - 1) IN Append(p, Sweep(m, w, A, b, p[k]))
\* how far from x, y = Sweep(x) a machine sweep can end when it starts e away from x: the same sweep on absolute values
Unit == "4e-15"
ErrSweep(m, w, A, b, x, y, e) ==
  LET B == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> IF i = j THEN RAbs(A[i][j]) ELSE RNeg(RAbs(A[i][j]))]]
      X == RMax(NormV(x), NormV(y))
      c == [i \in 1..Len(b) |-> RMul(Unit, RAdd(RMul(RSumAbs(A[i]), X), RAbs(b[i])))]
  IN CASE m = "jacobi" -> JacSweep(B, c, e)
       [] m = "gs" -> SeqSweep(B, c, e, 0, 1, <<>>)
       [] m = "sor" -> SeqSweep(B, c, e, RAbs(RSub(1, w)), w, <<>>)
RECURSIVE Errs(_, _, _, _, _, _)
Errs(m, w, A, b, xs, k) == IF k = 0 THEN <<[i \in 1..Len(b) |-> 0]>>
                           ELSE LET p == Errs(m, w, A, b, xs, k - 1) IN Append(p, ErrSweep(m, w, A, b, xs[k], xs[k + 1], p[k]))
BNorm(b) == IF \A i \in 1..Len(b) : REq(b[i], 0) THEN 1 ELSE Norm2(b)
RelRes(A, b, x) == RDiv(Norm2(Residual(A, x, b)), BNorm(b))
\* what rounding can add to the computed relative residual
ResSlack(A, b, x) == RDiv(RMul("1e-13", RAdd(RMul(NormM(A), NormV(x)), NormV(b))), BNorm(b))
Zero(n) == [i \in 1..n |-> 0]
MaxDiag(A) == RMaxAbs([i \in 1..Rows(A) |-> A[i][i]])
ZeroDiag(A) == \E i \in 1..Rows(A) : REq(A[i][i], 0)
TinyDiag(A) == \E i \in 1..Rows(A) : RLe(RAbs(A[i][i]), RMul("1e-14", MaxDiag(A)))
Dominant(A) == \A i \in 1..Rows(A) : RGt(RMul(2, RAbs(A[i][i])), RSumAbs(A[i]))
(* a result record r = [x, it, res, init, conv] answers the call c = [m, w, A, b, x0, tol, max] *)
Iterates(c, k) == Sweeps(c.m, c.w, c.A, c.b, c.x0, k)
ShowDepth == 40
Numbers(r) == AllNum(r.x) /\ RIsNum(r.res)
InLimit(c, r) == r.it >= 0 /\ r.it <= c.max
TrueResidual(c, r) == Numbers(r) => Within(r.res, RelRes(c.A, c.b, r.x), RAdd(ResSlack(c.A, c.b, r.x), RMul("1e-12", r.res)))
TrueSuccess(c, r) == r.conv => /\ Numbers(r) /\ RLt(r.res, c.tol)
                               /\ RLe(RelRes(c.A, c.b, r.x), RAdd(c.tol, ResSlack(c.A, c.b, r.x)))
TrueFailure(c, r) == ~r.conv => /\ r.it = c.max
                                /\ (Numbers(r) /\ r.it > 0 => RGe(r.res, c.tol))
TrueIterate(c, r) == Numbers(r) /\ r.it <= ShowDepth =>
  LET xs == Iterates(c, r.it)
      es == Errs(c.m, c.w, c.A, c.b, xs, r.it)
  IN /\ Len(r.x) = Len(c.x0) /\ \A i \in 1..Len(r.x) : Within(r.x[i], xs[r.it + 1][i], RMul(2, es[r.it + 1][i]))
     \* no earlier sweep had converged
     /\ \A k \in 2..r.it : RGe(RAdd(RelRes(c.A, c.b, xs[k]), RAdd(ResSlack(c.A, c.b, xs[k]), RDiv(RMul(RMul(3, NormM(c.A)), NormV(es[k])), BNorm(c.b)))), c.tol)
TrueStart(c, r) == RIsNum(r.init) => Within(r.init, RelRes(c.A, c.b, c.x0), RAdd(ResSlack(c.A, c.b, c.x0), RMul("1e-12", r.init)))
=============================================================================
