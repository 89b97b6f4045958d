------------------------------- MODULE Dyn -------------------------------
(***************************************************************************)
(* The built-in dynamical systems and maps, and what their analyses mean.   *)
(* A system's right-hand side is an expression of its state variables       *)
(* (1..n) followed by its parameters (n+1..n+p).                            *)
(***************************************************************************)
EXTENDS Expr, Integers, Sequences, FiniteSets
K(c) == Cst(c)
V(i) == <<"x", i>>
N_(a) == <<"neg", a>>
Sq(a) == Pwr(a, 2)
Cub(a) == Pwr(a, 3)
Sin(a) == <<"sin", a>>
Cos(a) == <<"cos", a>>
Abs(a) == <<"abs", a>>
Half == "0.5"
\* name -> [n, states, params, ranges, f, inv, J0 (where the Jacobian has kinks)]
Sys == [
 lorenz |-> [n |-> 3, states |-> <<"x", "y", "z">>, params |-> <<"sigma", "rho", "beta">>, f |-> <<Mul(V(4), Sub(V(2), V(1))), Sub(Mul(V(1), Sub(V(5), V(3))), V(2)), Sub(Mul(V(1), V(2)), Mul(V(6), V(3)))>>, inv |-> <<>>],
 rossler |-> [n |-> 3, states |-> <<"x", "y", "z">>, params |-> <<"a", "b", "c">>, f |-> <<Sub(N_(V(2)), V(3)), Add(V(1), Mul(V(4), V(2))), Add(V(5), Mul(V(3), Sub(V(1), V(6))))>>, inv |-> <<>>],
 vanderpol |-> [n |-> 2, states |-> <<"x", "v">>, params |-> <<"mu">>, f |-> <<V(2), Sub(Mul(Mul(V(3), Sub(K(1), Sq(V(1)))), V(2)), V(1))>>, inv |-> <<>>],
 duffing |-> [n |-> 3, states |-> <<"x", "v", "theta">>, params |-> <<"delta", "alpha", "beta", "gamma", "omega">>,
   f |-> <<V(2), Add(Sub(Sub(N_(Mul(V(4), V(2))), Mul(V(5), V(1))), Mul(V(6), Cub(V(1)))), Mul(V(7), Cos(V(3)))), V(8)>>, inv |-> <<>>],
 chua |-> [n |-> 3, states |-> <<"x", "y", "z">>, params |-> <<"alpha", "beta", "a", "b">>,
   f |-> <<Mul(V(4), Sub(Sub(V(2), V(1)), Add(Mul(V(7), V(1)), Mul(Mul(K(Half), Sub(V(6), V(7))), Sub(Abs(Add(V(1), K(1))), Abs(Sub(V(1), K(1)))))))), Add(Sub(V(1), V(2)), V(3)), N_(Mul(V(5), V(2)))>>, inv |-> <<>>],
 henonheiles |-> [n |-> 4, states |-> <<"x", "y", "px", "py">>, params |-> <<"E">>,
   f |-> <<V(3), V(4), Sub(N_(V(1)), Mul(K(2), Mul(V(1), V(2)))), Add(Sub(N_(V(2)), Sq(V(1))), Sq(V(2)))>>,
   inv |-> <<Sub(Add(Mul(K(Half), Add(Add(Sq(V(3)), Sq(V(4))), Add(Sq(V(1)), Sq(V(2))))), Mul(Sq(V(1)), V(2))), Quo(Cub(V(2)), K(3)))>>],
 doublependulum |-> LET th1 == V(1) th2 == V(2) w1 == V(3) w2 == V(4) m1 == V(5) m2 == V(6) l1 == V(7) l2 == V(8) g == V(9) d == Sub(th1, th2) c == Cos(d) s == Sin(d) M == Add(m1, m2) den == Sub(M, Mul(m2, Sq(c))) IN
  [n |-> 4, states |-> <<"theta1", "theta2", "omega1", "omega2">>, params |-> <<"m1", "m2", "L1", "L2", "g">>,
   f |-> <<w1, w2,
     Quo(Sub(Sub(Sub(Mul(Mul(m2, g), Mul(Sin(th2), c)), Mul(Mul(M, g), Sin(th1))), Mul(Mul(m2, l1), Mul(Sq(w1), Mul(s, c)))), Mul(Mul(m2, l2), Mul(Sq(w2), s))), Mul(l1, den)),
     Quo(Add(Mul(Mul(m2, l2), Mul(Sq(w2), Mul(s, c))), Mul(M, Sub(Add(Mul(g, Mul(Sin(th1), c)), Mul(l1, Mul(Sq(w1), s))), Mul(g, Sin(th2))))), Mul(l2, den))>>,
   inv |-> <<Sub(Sub(Add(Add(Mul(Mul(K(Half), M), Sq(Mul(l1, w1))), Mul(Mul(K(Half), m2), Sq(Mul(l2, w2)))), Mul(Mul(m2, Mul(l1, l2)), Mul(Mul(w1, w2), c))), Mul(Mul(M, g), Mul(l1, Cos(th1)))), Mul(Mul(m2, g), Mul(l2, Cos(th2))))>>]]
\* the maps; the standard map before reduction to [0, 2 pi)
Maps == [
 logistic |-> [n |-> 1, params |-> <<"r">>, f |-> <<Mul(V(2), Mul(V(1), Sub(K(1), V(1))))>>],
 henon |-> [n |-> 2, params |-> <<"a", "b">>, f |-> <<Add(Sub(K(1), Mul(V(3), Sq(V(1)))), V(2)), Mul(V(4), V(1))>>],
 standard |-> [n |-> 2, params |-> <<"K">>, f |-> <<Add(V(1), Mul(V(3), Sin(V(2)))), Add(V(2), Add(V(1), Mul(V(3), Sin(V(2)))))>>],
 tent |-> [n |-> 1, params |-> <<"mu">>, f |-> <<Mul(V(2), Sub(K(Half), Abs(Sub(V(1), K(Half)))))>>]]
Jac(f, n) == <<>> \o [i \in 1..n |-> Grad(f[i], n)]
\* the rate of change of q along the field f
Rate(q, f, n, x) == RSum(<<>> \o [i \in 1..n |-> Rd(RMul(Val(D(q, i), x), Val(f[i], x)))])
\* one classical Runge-Kutta step of the field f (its parameters ps) from x
Comb(x, h, k) == <<>> \o [i \in 1..Len(x) |-> RRnd(RAdd(x[i], RMul(h, k[i])), 140)]
Flow(f, ps, x) == <<>> \o [i \in 1..Len(f) |-> RRnd(Val(f[i], x \o ps), 140)]
Rk4(f, ps, x, h) == LET k1 == Flow(f, ps, x) k2 == Flow(f, ps, Comb(x, RMul(h, Half), k1)) k3 == Flow(f, ps, Comb(x, RMul(h, Half), k2)) k4 == Flow(f, ps, Comb(x, h, k3)) IN
  <<>> \o [i \in 1..Len(x) |-> RRnd(RAdd(x[i], RMul(RDiv(h, 6), RAdd(RAdd(k1[i], k4[i]), RMul(2, RAdd(k2[i], k3[i]))))), 140)]
RECURSIVE Steps(_, _, _, _, _)
Steps(f, ps, x, h, k) == IF k = 0 THEN x ELSE Steps(f, ps, Rk4(f, ps, x, h), h, k - 1)
\* growth of exp over one classical step of size z
P4(z) == RAdd(1, RAdd(z, RAdd(RDiv(RPow(z, 2), 2), RAdd(RDiv(RPow(z, 3), 6), RDiv(RPow(z, 4), 24)))))
(***************************************************************************)
(* The kind of a fixed point whose Jacobian is similar to a block diagonal  *)
(* matrix of real eigenvalues (blocks <<re>>) and complex pairs             *)
(* (blocks <<re, im>>, im # 0).                                             *)
(***************************************************************************)
Cplx(B) == \E i \in DOMAIN B : Len(B[i]) = 2
Pos(B) == \E i \in DOMAIN B : B[i][1] > 0
Neg(B) == \E i \in DOMAIN B : B[i][1] < 0
Nul(B) == \E i \in DOMAIN B : B[i][1] = 0
Stable(B) == \A i \in DOMAIN B : B[i][1] < 0
Kind(B) ==
  IF Cplx(B) THEN
    IF ~Pos(B) /\ ~Neg(B) THEN "Center" ELSE IF Pos(B) /\ Neg(B) THEN "Saddle-Focus" ELSE IF Nul(B) THEN "Unknown" ELSE IF Pos(B) THEN "Unstable Focus" ELSE "Stable Focus"
  ELSE IF Pos(B) /\ Neg(B) THEN "Saddle" ELSE IF Nul(B) THEN "Unknown" ELSE IF Pos(B) THEN "Unstable Node" ELSE "Stable Node"
\* names that are right without saying the contrary of the eigenvalues (a star node is a node)
Named(k, B) == k = Kind(B) \/ (k = "Stable Star Node" /\ Kind(B) = "Stable Node") \/ (k = "Unstable Star Node" /\ Kind(B) = "Unstable Node")
BlockMat(B) ==
  LET off(i) == LET RECURSIVE o(_) o(j) == IF j = 0 THEN 0 ELSE o(j - 1) + Len(B[j]) IN o(i - 1)
      n == off(Len(B) + 1)
      ent(r, c) == LET S == {i \in DOMAIN B : off(i) < r /\ r <= off(i) + Len(B[i]) /\ off(i) < c /\ c <= off(i) + Len(B[i])} IN
                   IF S = {} THEN 0 ELSE LET i == CHOOSE q \in S : TRUE IN IF r = c THEN B[i][1] ELSE IF r < c THEN B[i][2] ELSE 0 - B[i][2]
  IN [r \in 1..n |-> [c \in 1..n |-> ent(r, c)]]
IMul(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(A) |-> LET RECURSIVE s(_) s(k) == IF k = 0 THEN 0 ELSE s(k - 1) + A[r][k] * B[k][c] IN s(Len(A))]]
\* Kaplan-Yorke dimension of exponents in decreasing order
RECURSIVE Ky(_, _, _)
Ky(L, j, s) == IF j = Len(L) THEN Len(L) ELSE LET t == RAdd(s, L[j + 1]) IN IF RGe(t, 0) THEN Ky(L, j + 1, t) ELSE IF j = 0 THEN 0 ELSE RAdd(j, RDiv(s, RAbs(L[j + 1])))
KaplanYorke(L) == Ky(L, 0, 0)
\* local maxima of a sequence of values, in order (with a margin: <<index, clear>>)
Peaks(v) == {i \in 2..(Len(v) - 1) : RGt(v[i], v[i - 1]) /\ RGt(v[i], v[i + 1])}
=============================================================================
