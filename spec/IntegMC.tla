------------------------------ MODULE IntegMC ------------------------------
(* The trapezoid machine and its extrapolations on every small polynomial.     *)
EXTENDS Integ, TLC
CONSTANTS N, Steps
VARIABLES c, a, b, t
Mono(k) == <<>> \o [i \in 1..(k + 1) |-> IF i = k + 1 THEN 1 ELSE 0]
Coef == (0 - N)..N
Polys == {<<p, q, r, s>> : p \in Coef, q \in Coef, r \in Coef, s \in {0, 1}} \cup {Mono(k) : k \in 4..11}
F1(cc, x) == PolyVal(cc, x, 0, 1)
F(x) == F1(c, x)
I == PolyInt(c, 0, 1, a, b)
Init == c \in Polys /\ a \in (0 - 1)..1 /\ b \in (0 - 1)..2 /\ a # b /\ t = <<RKeep(Trap1(F, a, b))>>
Next == Len(t) < Steps /\ t' = TrapNext(F, a, b, t) /\ UNCHANGED <<c, a, b>>
Spec == Init /\ [][Next]_<<c, a, b, t>>
J == Len(t)
Deg == CHOOSE k \in 0..11 : (k = 0 \/ (k + 1 <= Len(c) /\ c[k + 1] # 0)) /\ \A j \in (k + 2)..Len(c) : c[j] = 0
Refines == REq(t[J], TrapSum(F, a, b, Pow2(J - 1)))
Lines == Deg <= 1 => REq(t[J], I)
Cubics == (Deg <= 3 /\ J >= 2) => REq(Simpson(t, J), I)
\* the change of the last halving is three times the error left, for cubics
Estimate == (Deg <= 3 /\ J >= 2) => REq(RMul(3, RSub(t[J], I)), RSub(t[J - 1], t[J]))
Extrapolates == \A k \in 1..(J - 1) : Deg <= 2 * k + 1 => REq(Romberg(t, J, k), I)
NotBeyond == (Deg \in {4, 6} /\ J >= 2 /\ a = 0) => ~REq(Simpson(t, J), I)
Newton == J = 1 => (Deg <= 9 => REq(Cotes(W9, F, a, b), I)) /\ (Deg <= 5 => REq(Cotes(W5, F, a, b), I)) /\ (Deg <= 3 => REq(Cotes(W3, F, a, b), I))
Reversed == J = 1 => REq(PolyInt(c, 0, 1, b, a), RNeg(I)) /\ REq(TrapSum(F, b, a, 4), RNeg(TrapSum(F, a, b, 4)))
Additive == J = 1 => REq(RAdd(PolyInt(c, 0, 1, a, 5), PolyInt(c, 0, 1, 5, b)), I)
Shifted == J = 1 => REq(PolyInt(c, 3, 2, a, b), Cotes(W9, LAMBDA x : PolyVal(c, x, 3, 2), a, b)) \/ Deg > 9
\* order of integration: over a triangle x first or y first
X == <<"x", 1>>
Y == <<"x", 2>>
G == Add(Mul(Cst(c[1]), X), Add(Mul(Cst(c[2]), Mul(X, Y)), Cst(c[3])))
Gt == Add(Mul(Cst(c[1]), Y), Add(Mul(Cst(c[2]), Mul(X, Y)), Cst(c[3])))
Fubini == (J = 1 /\ Len(c) = 4) => REq(Iter2(G, 0, 1, Cst(0), X), Iter2(Gt, 0, 1, X, Cst(1)))
\* a gradient field along a curve gives the difference of the potential
Pot == Add(Mul(Cst(c[1]), X), Mul(Cst(c[2]), Mul(X, Y)))
Curve == <<Add(Cst(c[3]), X), Mul(X, X)>>
Gradient == (J = 1 /\ Len(c) = 4) => REq(Along(Grad(Pot, 2), Curve, a, b), RSub(Val(Pot, Vals(Curve, <<b>>)), Val(Pot, Vals(Curve, <<a>>))))
=============================================================================
