------------------------------- MODULE DiffMC -------------------------------
(* Every formula on every monomial: exact up to its degree, and beyond it the estimate covers the error; and *)
(* dual arithmetic agrees with the derivative rules on all expressions of a small depth.                     *)
EXTENDS Diff, Integers
CONSTANTS Depth, Top
VARIABLES f, k, e, d
Fs == {"2", "4", "6", "8", "s2", "s4", "t2", "t4"}
X1 == <<"x", 1>>
X2 == <<"x", 2>>
Leaves == {X1, X2, Cst(2), Cst(0 - 3)}
Init == f \in Fs /\ k = 0 /\ e \in Leaves /\ d = 0
Next == \/ k < Form(f)[2] + 2 /\ d = 0 /\ k' = k + 1 /\ UNCHANGED <<f, e, d>>
        \/ k = 0 /\ f = "2" /\ d < Depth /\ d' = d + 1 /\ UNCHANGED <<f, k>>
           /\ \/ \E o \in {"+", "-", "*", "/"}, a \in Leaves : e' = <<o, e, a>> \/ e' = <<o, a, e>>
              \/ e' = <<"neg", e>> \/ \E q \in 0..Top : e' = <<"pow", e, q>>
              \/ \E o \in {"*", "/", "-"} : e' = <<o, e, <<"+", e, X1>> >>
Spec == Init /\ [][Next]_<<f, k, e, d>>
m == Form(f)[1]
p == Form(f)[2]
FactK(n) == IF n <= 1 THEN 1 ELSE Fact(n)
Want == IF k = m THEN FactK(m) ELSE 0
ExactUpTo == k <= p => REq(Moment(Stencil(f), k), Want)
SomeError == (k > p /\ (k - m) % 2 = 0) => ~REq(Moment(Stencil(f), k), Want)
EstimateCovers == LET r == RAbs(RSub(Moment(Stencil(f), k), Want)) q == RAbs(Moment(Estimate(f), k)) IN RLe(r, q) /\ (k <= p => REq(q, 0)) /\ RLe(q, RMul(r, "1.02"))
Pt == <<"1.5", 3>>
RECURSIVE Fine(_)
Fine(t) == LET o == t[1] IN CASE o \in {"c", "x"} -> TRUE [] o \in {"neg", "pow"} -> Fine(t[2]) [] o = "/" -> Fine(t[2]) /\ Fine(t[3]) /\ ~REq(Val(t[3], Pt), 0) [] OTHER -> Fine(t[2]) /\ Fine(t[3])
DualIsD == Fine(e) => \A i \in 1..2 : LET A == Dual(e, Pt, i) IN CloseRel(A[1], Val(e, Pt), 10) /\ RLe(RAbs(RSub(A[2], Val(D(e, i), Pt))), RMul("1e-30", RAdd(1, RAbs(A[2]))))
\* the derivative is the limit of difference quotients: on polynomials, the quotient at h minus D is O(h)
DIsLimit == (Fine(e) /\ d <= 1 /\ k = 0) => LET hh == "1e-12" v == RDiv(RSub(Val(e, <<RAdd("1.5", hh), 3>>), Val(e, Pt)), hh) IN RLe(RAbs(RSub(v, Val(D(e, 1), Pt))), "1e-9")
=============================================================================
