------------------------------ MODULE Fourier ------------------------------
(***************************************************************************)
(* Discrete transforms by their defining sums.  The fast transform is a     *)
(* transition system: exchanges in bit-reversed order, then butterflies     *)
(* stage by stage; FourierMC checks it over a finite field, where the sums   *)
(* are exact.  Here the sums are over the reals (exact rationals with        *)
(* trigonometric values to far beyond double precision).                     *)
(* Complex signals are pairs <<re, im>> of real sequences.                    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
\* cos(2 pi j / M), sin(2 pi j / M) for j = 0..M-1, at index j + 1
CosT(M) == <<>> \o [j \in 1..M |-> RCos(RDiv(RMul(2 * (j - 1), RPi), M))]
SinT(M) == <<>> \o [j \in 1..M |-> RSin(RDiv(RMul(2 * (j - 1), RPi), M))]
Pick(T, M, N, F(_)) == <<>> \o [n \in 1..N |-> T[(F(n - 1) % M) + 1]]
\* coefficients k = 0..n-1 of the transform with kernel exp(-s 2 pi i k n / N); s = 1 or -1
DftOf(re, im, s) ==
  LET N == Len(re) C == CosT(N) S == SinT(N)
      row(T, k) == Pick(T, N, N, LAMBDA n : k * n)
      sg(x) == IF s = 1 THEN x ELSE RNeg(x)
  IN << <<>> \o [k \in 1..N |-> RAdd(RDot(re, row(C, k - 1)), sg(RDot(im, row(S, k - 1))))],
        <<>> \o [k \in 1..N |-> RSub(RDot(im, row(C, k - 1)), sg(RDot(re, row(S, k - 1))))] >>
Zeros(n) == [i \in 1..n |-> 0]
ScaleV(c, v) == <<>> \o [i \in 1..Len(v) |-> RMul(c, v[i])]
\* DCT-II with factor 2/N, its inverse with half weight on the first coefficient, and DST-I
Dct(x) == LET N == Len(x) C == CosT(4 * N) IN <<>> \o [k \in 1..N |-> RMul(RDiv(2, N), RDot(x, Pick(C, 4 * N, N, LAMBDA n : (k - 1) * (2 * n + 1))))]
IDct(c) == LET N == Len(c) C == CosT(4 * N) h == [c EXCEPT ![1] = RDiv(c[1], 2)] IN <<>> \o [n \in 1..N |-> RDot(h, Pick(C, 4 * N, N, LAMBDA k : k * (2 * n - 1)))]
Dst(x) == LET N == Len(x) M == 2 * (N + 1) S == SinT(M) f == RSqrt(RDiv(2, N + 1)) IN <<>> \o [k \in 1..N |-> RMul(f, RDot(x, Pick(S, M, N, LAMBDA n : k * (n + 1))))]
(* ---- rounding ---- *)
Size(re, im) == RAdd(RSumAbs(re), RSumAbs(im))
\* phases are rounded products up to 2 pi N, twiddles are recurrences of up to N steps
NearTo(got, want, scale, n) ==
  LET w == want t == RMul(RMul(Eps, 20 * n + 20), scale) k == Len(w)
  IN Len(got) = k /\ \A i \in 1..k : RIsNum(got[i]) /\ Within(got[i], w[i], t)
NearC(g, w, scale, n) == NearTo(g[1], w[1], scale, n) /\ NearTo(g[2], w[2], scale, n)
PowerOfTwo(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192}
NextPow(n) == IF n <= 1 THEN 1 ELSE CHOOSE p \in {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192} : p >= n /\ p < 2 * n
RECURSIVE LogTwo(_)
LogTwo(n) == IF n <= 1 THEN 0 ELSE 1 + LogTwo(n \div 2)
(* ---- windows: at i of n points, u = 2 i / (n - 1) - 1 in [-1, 1] ---- *)
RECURSIVE BesselSum(_, _, _, _)
BesselSum(q, k, t, s) == LET t2 == RRnd(RDiv(RMul(t, q), k * k), 140) s2 == RRnd(RAdd(s, t2), 140) IN IF RLt(t2, RMul("1e-25", s2)) THEN s2 ELSE BesselSum(q, k + 1, t2, s2)
BesselI0(x) == LET q == RRnd(RDiv(RMul(x, x), 4), 140) IN BesselSum(q, 1, 1, 1)
Window(kind, n, p) ==
  IF n = 1 THEN <<1>>
  ELSE LET M == n - 1 C == CosT(M)
           u(i) == RSub(RDiv(2 * i, M), 1)
           c(m, i) == C[((m * i) % M) + 1]
           b0 == IF kind = "kaiser" THEN BesselI0(p) ELSE 1
       IN <<>> \o [j \in 1..n |-> LET i == j - 1 IN
            CASE kind = "rect" -> 1
              [] kind = "hann" -> RSub("0.5", RMul("0.5", c(1, i)))
              [] kind = "hamming" -> RSub("0.54", RMul("0.46", c(1, i)))
              [] kind = "blackman" -> RAdd(RSub("0.42", RMul("0.5", c(1, i))), RMul("0.08", c(2, i)))
              [] kind = "bartlett" -> RSub(1, RAbs(u(i)))
              [] kind = "welch" -> RSub(1, RMul(u(i), u(i)))
              [] kind = "kaiser" -> RDiv(BesselI0(RMul(p, RSqrt(RSub(1, RMul(u(i), u(i)))))), b0)
              [] kind = "gauss" -> RExp(RMul("-0.5", RMul(RDiv(u(i), p), RDiv(u(i), p))))]
=============================================================================
