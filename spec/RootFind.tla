------------------------------ MODULE RootFind ------------------------------
(***************************************************************************)
(* Root finding by bracketing, for a function given through its values.     *)
(* A bracketing method is a machine [lo, hi, n, st]: while it runs it may   *)
(* move to any part of the bracket over which the sign still changes; it    *)
(* stops with "ok" at a zero or when the bracket is no wider than the       *)
(* tolerance, and with "limit" after Max steps.                             *)
(***************************************************************************)
EXTENDS Expr, Integers
Lo(a, b) == RMin(a, b)
Hi(a, b) == RMax(a, b)
Between(x, a, b) == RLe(Lo(a, b), x) /\ RLe(x, Hi(a, b))
Changes(u, v) == RSgn(u) # RSgn(v)                 \* signs of values; a zero counts
Start(F(_), a, b, Max) == [lo |-> a, hi |-> b, n |-> 0, root |-> a, st |-> IF REq(RMul(RSgn(F(a)), RSgn(F(b))), 0 - 1) THEN "run" ELSE "invalid"]
\* one step of the machine at the trial point x
Step(F(_), s, x, tol, Max) ==
  LET v == F(x)
      left == RSgn(v) = RSgn(F(s.lo))
      lo2 == IF left THEN x ELSE s.lo
      hi2 == IF left THEN s.hi ELSE x
      done == RSgn(v) = 0 \/ RLe(RSub(hi2, lo2), tol)
  IN [lo |-> RKeep(lo2), hi |-> RKeep(hi2), n |-> s.n + 1, root |-> RKeep(x), st |-> IF done THEN "ok" ELSE IF s.n + 1 = Max THEN "limit" ELSE "run"]
\* smallest k with w <= tol * 2^k
RECURSIVE Halvings(_, _)
Halvings(w, tol) == IF RLe(w, tol) THEN 0 ELSE 1 + Halvings(RDiv(w, 2), tol)
\* the cells of a scan of [a, b] in n parts over which the function changes sign or touches zero
Node(a, b, n, i) == RAdd(a, RMul(RDiv(i, n), RSub(b, a)))
Cells(F(_), a, b, n) == {i \in 1..n : Changes(F(Node(a, b, n, i - 1)), F(Node(a, b, n, i))) \/ RSgn(F(Node(a, b, n, i))) = 0}
\* the outward search: the end with the smaller value moves away by 1.6 times the width
Wider(F(_), p) == IF RLt(RAbs(F(p[1])), RAbs(F(p[2]))) THEN <<RAdd(p[1], RMul("1.6", RSub(p[1], p[2]))), p[2]>> ELSE <<p[1], RAdd(p[2], RMul("1.6", RSub(p[2], p[1])))>>
(***************************************************************************)
(* For recorded functions: the sign a double evaluation must show at x, or  *)
(* 0 when rounding may decide.                                              *)
(***************************************************************************)
Sign(e, x) == LET t == Err(e, x) IN IF ~RIsNum(t[1]) \/ ~RIsNum(t[2]) \/ RLe(RAbs(t[1]), RMul(RMul(8, Eps), RAdd(t[2], "1e-300"))) THEN 0 ELSE RSgn(t[1])
Fine(e, x) == LET t == Err(e, x) IN RIsNum(t[1]) /\ RIsNum(t[2])
CrossesNear(e, x, w, a, b) == LET p == RMax(Lo(a, b), RSub(x, w)) q == RMin(Hi(a, b), RAdd(x, w)) IN Sign(e, p) * Sign(e, q) # 1 \/ Sign(e, x) # Sign(e, p)
=============================================================================
