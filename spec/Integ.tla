------------------------------- MODULE Integ -------------------------------
(***************************************************************************)
(* Definite integrals.  Polynomials are integrated exactly; the refinement  *)
(* methods are the machine that halves the trapezoid panels, with Simpson's *)
(* and Romberg's extrapolations read off its states.                         *)
(***************************************************************************)
EXTENDS Expr, FiniteSets
\* sum c_i u^i with u = (x - m) / s
U(x, m, s) == RDiv(RSub(x, m), s)
PolyVal(c, x, m, s) == RSum([i \in 1..Len(c) |-> RMul(c[i], RPow(U(x, m, s), i - 1))])
PolyInt(c, m, s, a, b) == RSum([i \in 1..Len(c) |-> RMul(RDiv(RMul(c[i], s), i), RSub(RPow(U(b, m, s), i), RPow(U(a, m, s), i)))])
UMax(m, s, a, b) == RMax(RAbs(U(a, m, s)), RAbs(U(b, m, s)))
PolyMag(c, u) == RSum([i \in 1..Len(c) |-> RMul(RAbs(c[i]), RPow(u, i - 1))])
PolyMagD(c, u) == RSum([i \in 1..Len(c) |-> IF i = 1 THEN 0 ELSE RMul(RMul(i - 1, RAbs(c[i])), RPow(u, i - 2))])
(***************************************************************************)
(* The trapezoid machine: t[j] is the sum with 2^(j-1) panels.               *)
(***************************************************************************)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Trap1(F(_), a, b) == RMul(RDiv(RSub(b, a), 2), RAdd(F(a), F(b)))
TrapNext(F(_), a, b, t) ==
  LET n == Pow2(Len(t) - 1) h == RDiv(RSub(b, a), n)
  IN Append(t, RKeep(RDiv(RAdd(t[Len(t)], RMul(h, RSum([i \in 1..n |-> F(RAdd(a, RMul(RSub(i, "0.5"), h)))]))), 2)))
TrapSum(F(_), a, b, n) == LET h == RDiv(RSub(b, a), n) IN RMul(h, RSum([i \in 1..(n + 1) |-> RMul(IF i \in {1, n + 1} THEN "0.5" ELSE 1, F(RAdd(a, RMul(i - 1, h))))]))
Simpson(t, j) == RDiv(RSub(RMul(4, t[j]), IF j = 1 THEN 0 ELSE t[j - 1]), 3)
\* Richardson's table over the last k sums
RECURSIVE Romberg(_, _, _)
Romberg(t, j, k) == IF k = 0 THEN t[j] ELSE RDiv(RSub(RMul(RPow(4, k), Romberg(t, j, k - 1)), Romberg(t, j - 1, k - 1)), RSub(RPow(4, k), 1))
(***************************************************************************)
(* Closed Newton-Cotes rules with 3, 5 and 9 points: exact for polynomials  *)
(* of degree 3, 5 and 9, so nested they give iterated integrals of           *)
(* polynomials exactly.                                                       *)
(***************************************************************************)
W3 == <<"1/6", "4/6", "1/6">>
W5 == <<"7/90", "32/90", "12/90", "32/90", "7/90">>
W9 == <<"989/28350", "5888/28350", "-928/28350", "10496/28350", "-4540/28350", "10496/28350", "-928/28350", "5888/28350", "989/28350">>
Cotes(w, F(_), a, b) == LET n == Len(w) - 1 IN RMul(RSub(b, a), RSum([i \in 1..(n + 1) |-> RMul(w[i], F(RAdd(a, RMul(RDiv(i - 1, n), RSub(b, a)))))]))
Iter2(f, a, b, y1, y2) == LET in(x) == LET g(y) == Val(f, <<x, y>>) IN Cotes(W5, g, Val(y1, <<x>>), Val(y2, <<x>>)) IN Cotes(W9, in, a, b)
Iter3(f, a, b, y1, y2, z1, z2) ==
  LET mid(x) == LET in(y) == LET g(z) == Val(f, <<x, y, z>>) IN Cotes(W3, g, Val(z1, <<x, y>>), Val(z2, <<x, y>>)) IN Cotes(W5, in, Val(y1, <<x>>), Val(y2, <<x>>))
  IN Cotes(W9, mid, a, b)
\* the line integral of the field f along r
Along(f, r, a, b) ==
  LET d == <<>> \o [k \in 1..Len(r) |-> D(r[k], 1)]
      g(t) == RDot(Vals(f, Vals(r, <<t>>)), Vals(d, <<t>>)) IN Cotes(W9, g, a, b)
=============================================================================
