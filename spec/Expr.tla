------------------------------- MODULE Expr -------------------------------
(***************************************************************************)
(* Real functions of n variables as expression trees, which is how the      *)
(* harnesses record the functions they hand to the library.  Leaves are     *)
(* <<"c", constant>> and <<"x", i>> (the i-th variable, from 1); inner      *)
(* nodes <<op, arg, ...>>.                                                   *)
(***************************************************************************)
EXTENDS Rat
Rd(a) == RRnd(a, 220)
\* the exact value of e at x
RECURSIVE Val(_, _)
Val(e, x) ==
  LET o == e[1] IN CASE o = "c" -> e[2] [] o = "x" -> x[e[2]]
  [] OTHER ->
    LET a == Val(e[2], x) IN
    CASE o = "neg" -> RNeg(a) [] o = "sin" -> RSin(a) [] o = "cos" -> RCos(a) [] o = "exp" -> RExp(a) [] o = "log" -> RLn(a) [] o = "sqrt" -> RSqrt(a)
      [] o = "atan" -> RAtan(a) [] o = "abs" -> RAbs(a) [] o = "sgn" -> RSgn(a) [] o = "pow" -> Rd(RPow(a, e[3]))
      [] OTHER -> LET b == Val(e[3], x) IN
         CASE o = "+" -> Rd(RAdd(a, b)) [] o = "-" -> Rd(RSub(a, b)) [] o = "*" -> Rd(RMul(a, b)) [] o = "/" -> Rd(RDiv(a, b)) [] o = "min" -> RMin(a, b) [] o = "max" -> RMax(a, b)
(***************************************************************************)
(* <<value, bound>>: the value, and a bound (in units of Eps, to first      *)
(* order) for the error of evaluating e in double arithmetic.               *)
(***************************************************************************)
RECURSIVE Err(_, _)
Err(e, x) ==
  LET o == e[1] IN CASE o = "c" -> <<e[2], 0>> [] o = "x" -> <<x[e[2]], 0>>
  [] OTHER ->
    LET A == Err(e[2], x) a == A[1] u == A[2] IN
    CASE o = "neg" -> <<RNeg(a), u>> [] o = "sin" -> (LET v == RSin(a) IN <<v, RAdd(u, RAbs(v))>>) [] o = "cos" -> (LET v == RCos(a) IN <<v, RAdd(u, RAbs(v))>>)
      [] o = "exp" -> (LET v == RExp(a) IN <<v, RMul(v, RAdd(u, 1))>>) [] o = "log" -> (LET v == RLn(a) IN <<v, RAdd(RDiv(u, RAbs(a)), RAbs(v))>>)
      [] o = "sqrt" -> (LET v == RSqrt(a) IN <<v, IF REq(a, 0) THEN 0 ELSE RAdd(RDiv(u, v), v)>>) [] o = "atan" -> (LET v == RAtan(a) IN <<v, RAdd(u, RAbs(v))>>)
      [] o = "abs" -> <<RAbs(a), u>> [] o = "sgn" -> <<RSgn(a), 0>>
      [] o = "pow" -> (IF e[3] = 0 THEN <<1, 0>> ELSE LET v == Rd(RPow(a, e[3])) IN <<v, Rd(RMul(e[3], RAdd(RAbs(v), RMul(RAbs(RPow(a, e[3] - 1)), u))))>>)
      [] OTHER -> LET B == Err(e[3], x) b == B[1] w == B[2] IN
         CASE o \in {"+", "-"} -> (LET v == Rd(IF o = "+" THEN RAdd(a, b) ELSE RSub(a, b)) IN <<v, Rd(RAdd(RAdd(u, w), RAbs(v)))>>)
           [] o = "*" -> (LET v == Rd(RMul(a, b)) IN <<v, Rd(RAdd(RAdd(RMul(u, RAbs(b)), RMul(w, RAbs(a))), RAbs(v)))>>)
           [] o = "/" -> (LET v == Rd(RDiv(a, b)) IN <<v, Rd(RAdd(RDiv(RAdd(u, RMul(RAbs(v), w)), RAbs(b)), RAbs(v)))>>)
           [] o = "min" -> <<RMin(a, b), RMax(u, w)>> [] o = "max" -> <<RMax(a, b), RMax(u, w)>>
\* y could be the double value of e at x
IsVal(e, x, y) == LET t == Err(e, x) IN RLe(RAbs(RSub(y, t[1])), RMul(RMul(2, Eps), RAdd(t[2], "1e-300")))
(***************************************************************************)
(* The derivative of e by variable i, as an expression (of abs, min, max    *)
(* and sgn away from their kinks).                                          *)
(***************************************************************************)
Cst(c) == <<"c", c>>
Zero(e) == e[1] = "c" /\ REq(e[2], 0)
One(e) == e[1] = "c" /\ REq(e[2], 1)
Add(a, b) == IF Zero(a) THEN b ELSE IF Zero(b) THEN a ELSE <<"+", a, b>>
Sub(a, b) == IF Zero(b) THEN a ELSE IF Zero(a) THEN <<"neg", b>> ELSE <<"-", a, b>>
Mul(a, b) == IF Zero(a) \/ Zero(b) THEN Cst(0) ELSE IF One(a) THEN b ELSE IF One(b) THEN a ELSE <<"*", a, b>>
Quo(a, b) == IF Zero(a) THEN Cst(0) ELSE IF One(b) THEN a ELSE <<"/", a, b>>
Pwr(a, k) == IF k = 0 THEN Cst(1) ELSE IF k = 1 THEN a ELSE <<"pow", a, k>>
RECURSIVE D(_, _)
D(e, i) ==
  LET o == e[1] IN CASE o = "c" -> Cst(0) [] o = "x" -> Cst(IF e[2] = i THEN 1 ELSE 0)
  [] OTHER ->
    LET a == e[2] da == D(a, i) IN
    CASE o = "neg" -> (IF Zero(da) THEN da ELSE <<"neg", da>>) [] o = "sin" -> Mul(<<"cos", a>>, da) [] o = "cos" -> Mul(<<"neg", <<"sin", a>>>>, da)
      [] o = "exp" -> Mul(e, da) [] o = "log" -> Quo(da, a) [] o = "sqrt" -> Quo(da, Mul(Cst(2), e)) [] o = "atan" -> Quo(da, Add(Cst(1), Pwr(a, 2)))
      [] o = "abs" -> Mul(<<"sgn", a>>, da) [] o = "sgn" -> Cst(0) [] o = "pow" -> (IF e[3] = 0 THEN Cst(0) ELSE Mul(Mul(Cst(e[3]), Pwr(a, e[3] - 1)), da))
      [] OTHER -> LET b == e[3] db == D(b, i) IN
         CASE o = "+" -> Add(da, db) [] o = "-" -> Sub(da, db) [] o = "*" -> Add(Mul(da, b), Mul(a, db))
           [] o = "/" -> Quo(Sub(Mul(da, b), Mul(a, db)), Pwr(b, 2))
Grad(e, n) == <<>> \o [i \in 1..n |-> D(e, i)]
Vals(es, x) == <<>> \o [i \in 1..Len(es) |-> Val(es[i], x)]
RECURSIVE Dn(_, _, _)
Dn(e, i, k) == IF k = 0 THEN e ELSE Dn(D(e, i), i, k - 1)
=============================================================================
