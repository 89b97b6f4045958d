-------------------------------- MODULE Optim --------------------------------
(***************************************************************************)
(* Minimisation of a function given by its values.                          *)
(* One dimension: a machine [a, x, b] keeps the best point x between a and   *)
(* b; a trial point u inside becomes the best or an end of the bracket.      *)
(* Many dimensions: a machine over the values of the points it holds; a      *)
(* point may be replaced by a better one, and only the best must be kept.    *)
(***************************************************************************)
EXTENDS Expr, Integers
\* one trial of the one-dimensional machine
Try(F(_), s, u) ==
  LET better == RLe(F(u), F(s.x)) IN
  IF better THEN [a |-> IF RLt(s.x, u) THEN s.x ELSE s.a, x |-> u, b |-> IF RLt(s.x, u) THEN s.b ELSE s.x]
  ELSE [a |-> IF RLt(u, s.x) THEN u ELSE s.a, x |-> s.x, b |-> IF RLt(u, s.x) THEN s.b ELSE u]
\* a, x, b bracket a minimum
Brackets(F(_), a, x, b) == RLe(RMin(a, b), x) /\ RLe(x, RMax(a, b)) /\ RLe(F(x), F(a)) /\ RLe(F(x), F(b))
\* the downhill walk: the last three points, each further on than the one before by at least the last step
Walk(F(_), p, c) == IF RLe(F(p[2]), F(p[3])) THEN p ELSE <<p[2], p[3], c>>
Unimodal(f, S, m) == \A i, j \in S : (i < j /\ j <= m => f[i] > f[j]) /\ (m <= i /\ i < j => f[i] < f[j])
\* the values a set of points holds
MinOf(y) == CHOOSE v \in {y[i] : i \in DOMAIN y} : \A i \in DOMAIN y : v <= y[i]
\* exact value of e near x up to rounding of a double evaluation
Noise(e, x) == LET t == Err(e, x) IN RMul(RMul(8, Eps), RAdd(t[2], RAdd(RAbs(t[1]), "1e-300")))
=============================================================================
