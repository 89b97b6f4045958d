-------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* Finite-difference derivatives (C22).                                     *)
(*                                                                          *)
(* A formula of the family for the m-th derivative combines values at       *)
(* x + k h with weights; what it owes is exactness on polynomials of its    *)
(* degree, an error of its order beyond, and an error estimate that covers  *)
(* the truncation error there.  Forward automatic differentiation owes the  *)
(* derivative itself.                                                       *)
(***************************************************************************)
EXTENDS Expr, FiniteSets
\* formula -> <<derivative, degree of exactness, reach in steps of h, reach with the error estimate>>
Form(f) == CASE f = "1" -> <<1, 1, 1, 1>> [] f = "2" -> <<1, 2, 1, 2>> [] f = "4" -> <<1, 4, 2, 3>> [] f = "6" -> <<1, 6, 3, 4>> [] f = "8" -> <<1, 8, 4, 5>>
             [] f = "s1" -> <<2, 2, 2, 3>> [] f = "s2" -> <<2, 3, 1, 2>> [] f = "s4" -> <<2, 5, 2, 3>> [] f = "t2" -> <<3, 4, 2, 3>> [] f = "t4" -> <<3, 6, 3, 4>> [] f = "uw" -> <<2, 2, 1, 1>>
\* the same tree with every constant and every sign turned positive: bounds the values of polynomials
RECURSIVE Mag(_, _)
Mag(e, x) ==
  LET o == e[1] IN CASE o = "c" -> RAbs(e[2]) [] o = "x" -> x[e[2]] [] o = "neg" -> Mag(e[2], x) [] o = "pow" -> RPow(Mag(e[2], x), e[3])
  [] o \in {"+", "-"} -> Rd(RAdd(Mag(e[2], x), Mag(e[3], x))) [] o = "*" -> Rd(RMul(Mag(e[2], x), Mag(e[3], x)))
\* degree of a polynomial in the variable i
RECURSIVE Deg(_, _)
Deg(e, i) ==
  LET o == e[1] IN CASE o = "c" -> 0 [] o = "x" -> (IF e[2] = i THEN 1 ELSE 0) [] o = "neg" -> Deg(e[2], i) [] o = "pow" -> e[3] * Deg(e[2], i)
  [] o \in {"+", "-"} -> (LET a == Deg(e[2], i) b == Deg(e[3], i) IN IF a > b THEN a ELSE b) [] o = "*" -> Deg(e[2], i) + Deg(e[3], i)
Wide(x, is, r) == <<>> \o [j \in 1..Len(x) |-> IF j \in is THEN RAdd(RAbs(x[j]), r) ELSE RAbs(x[j])]
\* the error of a combination of values of e near x with steps h, divided by h^m
Noise(e, x, is, h, m, r) == LET y == Wide(x, is, RMul(r, h)) A == Mag(e, y)
  IN RDiv(RMul(RMul(Eps, A), 40 * (Deg(e, CHOOSE i \in is : TRUE) + 4)), RPow(h, m))
\* what one application owes: <<variables>>, exact derivative
Dm(e, is, m) == IF Len(is) = 2 THEN D(D(e, is[1]), is[2]) ELSE Dn(e, is[1], m)
ISet(is) == {is[i] : i \in DOMAIN is}
Exactly(f, e, is) == IF f = "m2" THEN \A i \in ISet(is) : Deg(e, i) <= 2 ELSE IF f = "m4" THEN \A i \in ISet(is) : Deg(e, i) <= 4 ELSE Deg(e, is[1]) <= Form(f)[2]
Order(f) == IF f \in {"m2", "m4"} THEN 2 ELSE Form(f)[1]
Reach(f) == IF f = "m2" THEN 1 ELSE IF f = "m4" THEN 2 ELSE Form(f)[4]
\* automatic differentiation: pairs <<value, derivative>> carried through the operations
RECURSIVE Dual(_, _, _)
Dual(e, x, i) ==
  LET o == e[1] IN CASE o = "c" -> <<e[2], 0>> [] o = "x" -> <<x[e[2]], IF e[2] = i THEN 1 ELSE 0>>
  [] OTHER ->
    LET A == Dual(e[2], x, i) a == A[1] u == A[2] IN
    CASE o = "neg" -> <<RNeg(a), RNeg(u)>> [] o = "pow" -> <<RPow(a, e[3]), IF e[3] = 0 THEN 0 ELSE RMul(RMul(e[3], RPow(a, e[3] - 1)), u)>>
      [] OTHER -> LET B == Dual(e[3], x, i) b == B[1] w == B[2] IN
         CASE o = "+" -> <<RAdd(a, b), RAdd(u, w)>> [] o = "-" -> <<RSub(a, b), RSub(u, w)>> [] o = "*" -> <<RMul(a, b), RAdd(RMul(u, b), RMul(a, w))>>
           [] o = "/" -> <<RDiv(a, b), RDiv(RSub(RMul(u, b), RMul(a, w)), RMul(b, b))>>
(***************************************************************************)
(* Stencils, for the model: weights w at the offsets -r..r over a common    *)
(* denominator; Moment(k) = sum of w_i i^k is what the formula makes of x^k *)
(* at 0 with step 1.                                                        *)
(***************************************************************************)
Stencil(f) == CASE f = "2" -> <<<<0 - 1, 0, 1>>, 2>> [] f = "4" -> <<<<1, 0 - 8, 0, 8, 0 - 1>>, 12>> [] f = "6" -> <<<<0 - 1, 9, 0 - 45, 0, 45, 0 - 9, 1>>, 60>>
                [] f = "8" -> <<<<3, 0 - 32, 168, 0 - 672, 0, 672, 0 - 168, 32, 0 - 3>>, 840>> [] f = "s2" -> <<<<1, 0 - 2, 1>>, 1>> [] f = "s4" -> <<<<0 - 1, 16, 0 - 30, 16, 0 - 1>>, 12>>
                [] f = "t2" -> <<<<0 - 1, 2, 0, 0 - 2, 1>>, 2>> [] f = "t4" -> <<<<1, 0 - 8, 13, 0, 0 - 13, 8, 0 - 1>>, 8>>
\* what the error estimates take the truncation error from: the next central difference, and its factor
Estimate(f) == CASE f = "2" -> <<<<0 - 1, 2, 0, 0 - 2, 1>>, 12>> [] f = "4" -> <<<<0 - 1, 4, 0 - 5, 0, 5, 0 - 4, 1>>, 60>> [] f = "6" -> <<<<0 - 1, 6, 0 - 14, 14, 0, 0 - 14, 14, 0 - 6, 1>>, 280>>
                 [] f = "8" -> <<<<0 - 1, 8, 0 - 27, 48, 0 - 42, 0, 42, 0 - 48, 27, 0 - 8, 1>>, 1260>> [] f = "s2" -> <<<<1, 0 - 4, 6, 0 - 4, 1>>, 12>> [] f = "s4" -> <<<<1, 0 - 6, 15, 0 - 20, 15, 0 - 6, 1>>, 90>>
                 [] f = "t2" -> <<<<0 - 1, 4, 0 - 5, 0, 5, 0 - 4, 1>>, 8>> [] f = "t4" -> <<<<0 - 1, 6, 0 - 14, 14, 0, 0 - 14, 14, 0 - 6, 1>>, 34>>
Moment(s, k) == LET r == (Len(s[1]) - 1) \div 2 IN RDiv(RSum(<<>> \o [i \in 1..Len(s[1]) |-> RMul(s[1][i], IF k = 0 THEN 1 ELSE RPow(i - 1 - r, k))]), s[2])
=============================================================================
