----------------------------- MODULE RootFindMC -----------------------------
(* The bracketing machine with any choice of trial points, for every cubic with roots on a grid. *)
EXTENDS RootFind, FiniteSets, TLC
CONSTANTS N, Max
VARIABLES r, s, a, b
G == 0..N
\* (x - r1)(x - r2)(x - r3); r1 = -1 leaves out the factor, so even degrees occur
F1(rr, x) == RMul(RMul(IF rr[1] < 0 THEN 1 ELSE RSub(x, rr[1]), IF rr[2] < 0 THEN 1 ELSE RSub(x, rr[2])), RSub(x, rr[3]))
F(x) == F1(r, x)
Tol == 1
Init == r \in {q \in ((0 - 1)..N) \X ((0 - 1)..N) \X G : q[1] <= q[2] /\ q[2] <= q[3]} /\ a \in G /\ b \in G /\ a < b /\ s = Start(F, a, b, Max)
Next == /\ s.st = "run" /\ UNCHANGED <<r, a, b>>
        /\ \E x \in G : RLt(s.lo, x) /\ RLt(x, s.hi) /\ s' = Step(F, s, x, Tol, Max)
Spec == Init /\ [][Next]_<<r, s, a, b>> /\ WF_<<r, s, a, b>>(Next)
Bracket == s.st # "invalid" => REq(RMul(RSgn(F(a)), RSgn(F(b))), 0 - 1) /\ Between(s.lo, a, b) /\ Between(s.hi, a, b) /\ Between(s.root, a, b)
Kept == s.st \in {"run", "limit"} => Changes(F(s.lo), F(s.hi))
Truth == s.st = "ok" => \E x \in G : RSgn(F(x)) = 0 /\ RLe(RAbs(RSub(x, s.root)), Tol)
Limit == s.n <= Max /\ (s.st = "limit" => s.n = Max)
Ends == <>(s.st # "run")
\* halving reaches the tolerance in the number of steps Halvings gives
RECURSIVE Halve(_)
Halve(t) == IF t.st # "run" THEN t ELSE Halve(Step(F, t, RDiv(RAdd(t.lo, t.hi), 2), Tol, 64))
Bisect == s.n = 0 => LET t == Halve(Start(F, a, b, 64)) IN t.st \in {"ok", "invalid"} /\ t.n <= Halvings(b - a, Tol) + 1
\* every root inside lies in a reported cell, and every reported cell has one
Scan == s.n = 0 => LET n == 3 C == Cells(F, a, b, n) IN
   /\ \A i \in C : \E x \in {r[1], r[2], r[3]} : x >= 0 /\ Between(x, Node(a, b, n, i - 1), Node(a, b, n, i))
   /\ \A i \in (1..n) \ C : Cardinality({k \in 1..3 : r[k] >= 0 /\ RLt(Node(a, b, n, i - 1), r[k]) /\ RLt(r[k], Node(a, b, n, i))}) % 2 = 0
RECURSIVE Widen(_, _)
Widen(p, k) == IF k = 0 \/ REq(RMul(RSgn(F(p[1])), RSgn(F(p[2]))), 0 - 1) THEN <<p, k>> ELSE Widen(Wider(F, p), k - 1)
Outward == s.n = 0 => LET w == Widen(<<a, b>>, 12) IN Between(a, w[1][1], w[1][2]) /\ Between(b, w[1][1], w[1][2]) /\ (r[2] < 0 => w[2] > 0 \/ REq(F(w[1][1]), 0) \/ REq(F(w[1][2]), 0) \/ REq(RMul(RSgn(F(w[1][1])), RSgn(F(w[1][2]))), 0 - 1))
\* the derivative of an expression agrees with its difference quotient
X1 == <<"x", 1>>
SA == Mul(<<"sin", X1>>, <<"exp", Quo(X1, Cst(3))>>)
SB == Mul(<<"sqrt", Add(Cst(1), <<"abs", X1>>)>>, <<"log", Add(Cst(2), <<"atan", X1>>)>>)
Sample == Add(SA, Sub(Pwr(X1, 3), SB))
DLaw == s.n = 0 /\ a # 0 => LET hh == "1e-25" IN Within(RDiv(RSub(Val(Sample, <<RAdd(a, hh)>>), Val(Sample, <<a>>)), hh), Val(D(Sample, 1), <<a>>), "1e-20")
=============================================================================
