------------------------------ MODULE Special ------------------------------
(* The higher functions probability distributions are made of, by their        *)
(* defining limits; java/tlc2/module/Special.java evaluates them.              *)
EXTENDS Rat, Naturals
LOCAL Rise(a, n) == CHOOSE r \in Real : \E f \in [0..n -> Real] : f[0] = 1 /\ (\A i \in 1..n : f[i] = f[i-1] * (a + i - 1)) /\ r = f[n]
LOCAL Lim(f(_)) == CHOOSE r \in Real : \A e \in Real : e > 0 => \E n \in Nat : \A m \in Nat : m > n => RAbs(f(m) - r) < e
\* ln of Euler's gamma function: n! n^a / (a (a+1) ... (a+n))
RLnGamma(a) == LET g(n) == RLn(Fact(n)) + a * RLn(n) - RLn(Rise(a, n + 1)) IN Lim(g)
\* regularized lower incomplete gamma function
RGammaP(a, x) == LET s(n) == RSum([i \in 1..n |-> x ^ (i-1) / Rise(a + 1, i - 1)]) IN IF x <= 0 THEN 0 ELSE RExp(a * RLn(x) - x - RLnGamma(a + 1)) * Lim(s)
\* regularized incomplete beta function
RBetaI(a, b, x) == LET s(n) == RSum([i \in 1..n |-> (x ^ (i-1) * Rise(a + b, i - 1)) / Rise(a + 1, i - 1)])
                   IN IF x <= 0 THEN 0 ELSE IF x >= 1 THEN 1 ELSE RExp(a * RLn(x) + b * RLn(1 - x) + RLnGamma(a + b) - RLnGamma(a + 1) - RLnGamma(b)) * Lim(s)
=============================================================================
