-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials as sequences of coefficients, constant term first; trailing  *)
(* zeros do not matter.  Complex numbers are pairs <<re, im>>.              *)
(***************************************************************************)
EXTENDS Rat, Integers, FiniteSets
Co(p, k) == IF k < Len(p) THEN p[k + 1] ELSE 0           \* coefficient of x^k
Max2(a, b) == IF a > b THEN a ELSE b
Mk(n, f(_)) == <<>> \o [k \in 1..n |-> f(k - 1)]
RECURSIVE Trim(_)
Trim(p) == IF p = <<>> \/ ~REq(p[Len(p)], 0) THEN p ELSE Trim(SubSeq(p, 1, Len(p) - 1))
Deg(p) == Len(Trim(p)) - 1                               \* -1 for the zero polynomial
Same(p, q) == \A k \in 0..Max2(Len(p), Len(q)) : REq(Co(p, k), Co(q, k))
Add(p, q) == Mk(Max2(Len(p), Len(q)), LAMBDA k : RAdd(Co(p, k), Co(q, k)))
Sub(p, q) == Mk(Max2(Len(p), Len(q)), LAMBDA k : RSub(Co(p, k), Co(q, k)))
Scale(p, s) == Mk(Len(p), LAMBDA k : RMul(Co(p, k), s))
AddC(p, s) == Add(p, <<s>>)
Mul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>> ELSE Mk(Len(p) + Len(q) - 1, LAMBDA k : RSum([i \in 1..(k + 1) |-> RMul(Co(p, i - 1), Co(q, k - i + 1))]))
Abs(p) == Mk(Len(p), LAMBDA k : RAbs(Co(p, k)))
RECURSIVE Eval(_, _)
Eval(p, x) == IF p = <<>> THEN 0 ELSE RAdd(p[1], RMul(x, Eval(Tail(p), x)))
Deriv(p) == IF Len(p) <= 1 THEN <<>> ELSE Mk(Len(p) - 1, LAMBDA k : RMul(k + 1, Co(p, k + 1)))
RECURSIVE DerivN(_, _)
DerivN(p, n) == IF n = 0 THEN p ELSE DerivN(Deriv(p), n - 1)
Integ(p) == Mk(Len(p) + 1, LAMBDA k : IF k = 0 THEN 0 ELSE RDiv(Co(p, k - 1), k))
\* long division: <<quotient, remainder>>
Shift(p, k) == [i \in 1..k |-> 0] \o p
RECURSIVE Divide(_, _, _)
Divide(u, v, q) == IF Deg(u) < Deg(v) THEN <<q, Trim(u)>>
                   ELSE LET k == Deg(u) - Deg(v) c == RDiv(Co(u, Deg(u)), Co(v, Deg(v))) m == Shift(<<c>>, k)
                        IN Divide(SubSeq(Sub(u, Mul(m, v)), 1, Deg(u)), v, Add(q, m))
DivMod(u, v) == Divide(Trim(u), Trim(v), <<>>)
\* the polynomial of least degree through the points (Lagrange)
RECURSIVE Prod(_, _, _)
Prod(xs, i, k) == IF k > Len(xs) THEN <<1>> ELSE IF k = i THEN Prod(xs, i, k + 1) ELSE Mul(<<RDiv(RNeg(xs[k]), RSub(xs[i], xs[k])), RDiv(1, RSub(xs[i], xs[k]))>>, Prod(xs, i, k + 1))
RECURSIVE Lagrange(_, _, _)
Lagrange(xs, ys, i) == IF i > Len(xs) THEN <<>> ELSE Add(Scale(Prod(xs, i, 1), ys[i]), Lagrange(xs, ys, i + 1))
Through(xs, ys) == Lagrange(xs, ys, 1)
Distinct(xs) == \A i \in 1..Len(xs) : \A j \in 1..Len(xs) : i = j \/ ~REq(xs[i], xs[j])
\* complex numbers
C0 == <<0, 0>>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CNorm2(a) == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
CUp(a) == RAdd(RAbs(a[1]), RAbs(a[2]))                   \* at least |a|, at most 2|a|
RECURSIVE CEval(_, _)
CEval(p, z) == IF p = <<>> THEN C0 ELSE CAdd(p[1], CMul(z, CEval(Tail(p), z)))
CPoly(p) == Mk(Len(p), LAMBDA k : <<Co(p, k), 0>>)
CCo(p, k) == IF k >= 0 /\ k < Len(p) THEN p[k + 1] ELSE C0
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN C0 ELSE CAdd(Head(s), CSum(Tail(s)))
CPMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>> ELSE Mk(Len(p) + Len(q) - 1, LAMBDA k : CSum([i \in 1..(k + 1) |-> CMul(CCo(p, i - 1), CCo(q, k - i + 1))]))
CPAdd(p, q) == Mk(Max2(Len(p), Len(q)), LAMBDA k : CAdd(CCo(p, k), CCo(q, k)))
\* c (x - z1) ... (x - zn)
RECURSIVE FromRoots(_, _)
FromRoots(c, zs) == IF zs = <<>> THEN <<c>> ELSE CPMul(<<<<RNeg(zs[1][1]), RNeg(zs[1][2])>>, <<1, 0>>>>, FromRoots(c, Tail(zs)))
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
\* upper bound (within a factor 2) of the largest |root| given
RECURSIVE Largest(_)
Largest(zs) == IF zs = <<>> THEN 0 ELSE LET a == CUp(zs[1]) b == Largest(Tail(zs)) IN IF RGe(a, b) THEN a ELSE b
\* zs are all the roots of p with multiplicity, up to a perturbation of the coefficients
\* that is tol in the unit of the largest root
AllRoots(p, zs, tol) ==
  LET n == Deg(p) a == Co(p, n) M == Largest(zs) q == FromRoots(<<a, 0>>, zs)
  IN Len(zs) = n /\ \A k \in 0..n : RLe(CUp(CSub(CCo(q, k), <<Co(p, k), 0>>)), RMul(tol, RMul(RAbs(a), RMul(Binom(n, k), RPow(M, n - k)))))
CAllRoots(p, zs, tol) ==
  LET n == Len(p) - 1 a == p[n + 1] M == Largest(zs) q == FromRoots(a, zs)
  IN Len(zs) = n /\ \A k \in 0..n : RLe(CUp(CSub(CCo(q, k), p[k + 1])), RMul(tol, RMul(CUp(a), RMul(Binom(n, k), RPow(M, n - k)))))
=============================================================================
