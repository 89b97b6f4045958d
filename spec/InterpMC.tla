------------------------------ MODULE InterpMC ------------------------------
(* The bracket search over all small node sets and queries; defining laws of   *)
(* the interpolants on small integer data.                                     *)
EXTENDS Interp, TLC
CONSTANTS N, Y
Ys == {-1, 2}
Yt == {-2, -1, 0, 1, 3}
VARIABLES x, t, lo, hi, y
vars == <<x, t, lo, hi, y>>
Sorted(n) == {f \in [1..n -> 0..4] : \A i \in 1..(n - 1) : f[i] < f[i + 1]}
Nodes == UNION {Sorted(n) : n \in 2..N}
Rev(f) == [i \in 1..Len(f) |-> f[Len(f) + 1 - i]]
\* queries below, at, between and above, in halves
Init == /\ \E f \in Nodes : x \in {f, Rev(f)}
        /\ t \in (-1)..9 /\ y \in [1..Len(x) -> Y] /\ lo = 1 /\ hi = Len(x)
T == RDiv(t, 2)
Next == hi - lo > 1 /\ LET b == HalveBracket(x, T, lo, hi) IN lo' = b[1] /\ hi' = b[2] /\ UNCHANGED <<x, t, y>>
Spec == Init /\ [][Next]_vars
Bracket == 1 <= lo /\ lo < hi /\ hi <= Len(x) /\ (Inside(x, T) => RLe(RMul(RSub(T, x[lo]), RSub(T, x[hi])), 0))
Found == hi - lo = 1 => lo \in Cells(x, T)
Cover == \A m \in 2..Len(x) : \A s \in Stencils(x, T, m) : 1 <= s /\ s + m - 1 <= Len(x)
\* laws
n == Len(x)
Nodewise == \A i \in 1..n : REq(PolyAt(x, y, x[i]), y[i])
\* the blend is exact for polynomials of its degree; its barycentric form is the same function
Blend == \A d \in 0..(n - 1) : (\A i \in 1..n : ~REq(T, x[i])) => LET q == [i \in 1..n |-> RAdd(RPow(x[i], d), 2)] IN
           /\ REq(FHAt(x, q, d, T), RAdd(RPow(T, d), 2))
           /\ LET b == [i \in 1..n |-> RDiv(FHWeight(x, d, i), RSub(T, x[i]))] IN REq(RMul(FHAt(x, y, d, T), RSum(b)), RDot(b, y))
Spline == LET M == SplineM(x, y, <<>>, <<>>) near(a, b) == Within(a, b, "1e-40")
          IN /\ \A i \in 2..(n - 1) : near(SplD1(x, y, M, i - 1, x[i]), SplD1(x, y, M, i, x[i])) /\ near(SplAt(x, y, M, i - 1, x[i]), y[i])
             /\ near(M[1], 0) /\ near(M[n], 0)
             /\ LET c == [i \in 1..n |-> RPow(x[i], 3)] K == SplineM(x, c, <<RMul(3, RMul(x[1], x[1]))>>, <<RMul(3, RMul(x[n], x[n]))>>)
                IN \A i \in 1..n : near(K[i], RMul(6, x[i])) /\ \A j \in Cells(x, T) : near(SplAt(x, c, K, j, T), RPow(T, 3)) /\ near(SplD1(x, c, K, j, T), RMul(3, RMul(T, T)))
             /\ LET c == [i \in 1..n |-> RPow(x[i], 3)] K == SplineM(x, c, <<RMul(3, RMul(x[1], x[1]))>>, <<RMul(3, RMul(x[n], x[n]))>>) IN near(SplIntegral(x, c, K, Low(x), High(x)), RDiv(RSub(RPow(High(x), 4), RPow(Low(x), 4)), 4))
Slope == LET c == [i \in 1..n |-> RPow(x[i], n - 1)] IN REq(SlopeAt1(x, c), IF n = 1 THEN 0 ELSE RMul(n - 1, RPow(x[1], n - 2)))
\* 1 / (x + 2) has degrees (0, 1)
Rational == /\ (\A i \in 1..n : ~REq(RatDen(x, y, x[i]), 0) => REq(RatAt(x, y, x[i]), y[i]))
            /\ LET c == [i \in 1..n |-> RDiv(1, x[i] + 2)] IN n = 2 => REq(RatAt(x, c, T), RDiv(1, RAdd(T, 2)))
            /\ LET c == [i \in 1..n |-> RDiv(x[i] - 3, x[i] + 2)] IN n = 3 => REq(RatAt(x, c, T), RDiv(RSub(T, 3), RAdd(T, 2)))
Laws == lo = 1 /\ hi = Len(x) => Nodewise /\ Blend /\ Spline /\ Slope /\ Rational
=============================================================================
