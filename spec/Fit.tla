-------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* Least-squares fitting of a linear combination of basis functions to      *)
(* data points.  The design matrix holds the values of the basis functions  *)
(* (Expr trees of one variable) at the abscissae; a fit is a minimiser of   *)
(* the squared error exactly when its residual is orthogonal to every       *)
(* column of it.                                                             *)
(***************************************************************************)
EXTENDS Expr, Sequences
Design(es, xs) == <<>> \o [i \in DOMAIN xs |-> <<>> \o [j \in DOMAIN es |-> Val(es[j], <<xs[i]>>)]]
Powers(d) == <<>> \o [j \in 1..(d + 1) |-> Pwr(<<"x", 1>>, j - 1)]
Line == <<<<"x", 1>>, Cst(1)>>
Col(A, j) == <<>> \o [i \in DOMAIN A |-> A[i][j]]
Pred(A, c) == <<>> \o [i \in DOMAIN A |-> RDot(A[i], c)]
Resid(A, c, ys) == <<>> \o [i \in DOMAIN A |-> RSub(ys[i], RDot(A[i], c))]
SumSq(v) == RDot(v, v)
SSE(A, c, ys) == SumSq(Resid(A, c, ys))
Mean(v) == RDiv(RSum(v), Len(v))
SST(ys) == LET m == Mean(ys) IN RSum(<<>> \o [i \in DOMAIN ys |-> RPow(RSub(ys[i], m), 2)])
\* the normal equations
Gradient(A, c, ys) == LET r == Resid(A, c, ys) IN <<>> \o [j \in DOMAIN A[1] |-> RDot(Col(A, j), r)]
Minimises(A, c, ys) == \A j \in DOMAIN c : REq(Gradient(A, c, ys)[j], 0)
\* the line by its closed form
LineFit(xs, ys) == LET n == Len(xs) mx == Mean(xs) my == Mean(ys)
                       sxx == RSum(<<>> \o [i \in 1..n |-> RPow(RSub(xs[i], mx), 2)]) sxy == RSum(<<>> \o [i \in 1..n |-> RMul(RSub(xs[i], mx), RSub(ys[i], my))])
                       a == RDiv(sxy, sxx) IN <<a, RSub(my, RMul(a, mx))>>
SameAll(v) == \A i \in DOMAIN v : REq(v[i], v[1])
\* 2-norm condition of a matrix of two columns, squared
Kappa2(A) == LET g11 == SumSq(Col(A, 1)) g22 == SumSq(Col(A, 2)) g12 == RDot(Col(A, 1), Col(A, 2)) t == RAdd(g11, g22) d == RSub(RMul(g11, g22), RMul(g12, g12)) s == RSqrt(RSub(RMul(t, t), RMul(4, d)))
             IN RDiv(RPow(RAdd(t, s), 2), RMul(4, d))
=============================================================================
