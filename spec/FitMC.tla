------------------------------- MODULE FitMC -------------------------------
(* Data over a small grid, grown one point at a time: the closed form of the line solves the normal equations, *)
(* no other line on a grid of slopes and intercepts does better, and the figures of merit obey their laws.     *)
EXTENDS Fit, Integers, FiniteSets
CONSTANTS MaxN, Top
VARIABLES x, y
Init == x = <<>> /\ y = <<>>
Next == Len(x) < MaxN /\ \E a \in 0..Top, b \in 0..Top : x' = Append(x, a) /\ y' = Append(y, b)
Spec == Init /\ [][Next]_<<x, y>>
Ready == Len(x) >= 2 /\ ~SameAll(x)
A == Design(Line, x)
Solves == Ready => Minimises(A, LineFit(x, y), y)
Best == Ready => LET c == LineFit(x, y) s == SSE(A, c, y) IN \A p \in (0 - 2)..2, q \in (0 - 2)..2 : LET d == <<RAdd(c[1], RDiv(p, 2)), RAdd(c[2], RDiv(q, 2))>> IN
        IF p = 0 /\ q = 0 THEN TRUE ELSE RGt(SSE(A, d, y), s) /\ ~Minimises(A, d, y)
R2Law == Ready => LET s == SSE(A, LineFit(x, y), y) IN RGe(s, 0) /\ RLe(s, SST(y)) /\ (SameAll(y) => REq(s, 0))
Shift == Ready => LET c == LineFit(x, y) d == LineFit([i \in DOMAIN x |-> x[i] + 7], [i \in DOMAIN x |-> 3 * y[i] + 2 * x[i]]) IN
         REq(d[1], RAdd(RMul(3, c[1]), 2)) /\ REq(d[2], RSub(RMul(3, c[2]), RMul(7, d[1]))) = REq(RMul(3, c[2]), RAdd(d[2], RMul(7, d[1])))
\* a point on the fitted line does not move it
OnLine == Ready => LET c == LineFit(x, y) d == LineFit(Append(x, 5), Append(y, RAdd(RMul(5, c[1]), c[2]))) IN SeqREq(c, d)
RankLaw == Len(x) >= 2 => (RRank(A) = 2 <=> ~SameAll(x)) /\ LET P == Design(Powers(2), x) IN RRank(P) = (LET k == Cardinality({x[i] : i \in DOMAIN x}) IN IF k > 3 THEN 3 ELSE k)
KapLaw == Ready => RGe(Kappa2(A), 1)
=============================================================================
