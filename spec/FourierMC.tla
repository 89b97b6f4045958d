----------------------------- MODULE FourierMC -----------------------------
(* The fast transform over the integers modulo 17, where 2 has order 8 and 3    *)
(* order 16: bit-reversal exchanges and butterflies one at a time.  After every *)
(* stage each block holds the defining sums of its subsequence; the last stage   *)
(* holds the transform, and the transform with the inverse root undoes it up to  *)
(* the factor n.                                                                  *)
EXTENDS Fourier, Integers, TLC
CONSTANTS Logs, Sigs
P == 17
RECURSIVE PowP(_, _)
PowP(b, e) == IF e = 0 THEN 1 ELSE (b * PowP(b, e - 1)) % P
Root(n) == PowP(3, 16 \div n)
RECURSIVE SumP(_, _)
SumP(f, k) == IF k = 0 THEN 0 ELSE (f[k] + SumP(f, k - 1)) % P
DftP(x, w) == LET n == Len(x) IN [k \in 1..n |-> SumP([j \in 1..n |-> (x[j] * PowP(w, ((k - 1) * (j - 1)) % 16)) % P], n)]
RECURSIVE Rev(_, _)
Rev(i, b) == IF b = 0 THEN 0 ELSE (i % 2) * (2 ^ (b - 1)) + Rev(i \div 2, b - 1)
VARIABLES lg, x0, dir, d, ph, i, half, m, w
vars == <<lg, x0, dir, d, ph, i, half, m, w>>
n == 2 ^ lg
W == IF dir = 1 THEN Root(n) ELSE PowP(Root(n), n - 1)
\* unit signals decide a linear map; a few others are added
Signals(b) == {[j \in 1..(2 ^ b) |-> IF j = k THEN 1 ELSE 0] : k \in 1..(2 ^ b)} \cup (IF b <= Sigs THEN [1..(2 ^ b) -> {0, 1, 5}] ELSE {[j \in 1..(2 ^ b) |-> (j * j + 3) % P]})
Init == /\ lg \in Logs /\ x0 \in Signals(lg) /\ dir \in {1, -1} /\ d = x0 /\ ph = "permute" /\ i = 0 /\ half = 1 /\ m = 0 /\ w = 1
Swap == /\ ph = "permute"
        /\ LET j == Rev(i, lg) IN d' = IF i < j THEN [d EXCEPT ![i + 1] = d[j + 1], ![j + 1] = d[i + 1]] ELSE d
        /\ IF i = n - 1 THEN ph' = IF lg = 0 THEN "done" ELSE "fly" ELSE ph' = ph
        /\ i' = IF i = n - 1 THEN 0 ELSE i + 1
        /\ UNCHANGED <<lg, x0, dir, half, m, w>>
Fly == /\ ph = "fly"
       /\ LET a == i + 1 b == i + half + 1 t == (w * d[b]) % P IN d' = [d EXCEPT ![a] = (d[a] + t) % P, ![b] = (d[a] + P - t) % P]
       /\ LET step == 2 * half IN
          IF i + step < n THEN i' = i + step /\ UNCHANGED <<ph, half, m, w>>
          ELSE IF m + 1 < half THEN m' = m + 1 /\ i' = m + 1 /\ w' = (w * PowP(W, n \div step)) % P /\ UNCHANGED <<ph, half>>
          ELSE /\ m' = 0 /\ i' = 0 /\ w' = 1 /\ half' = step
               /\ ph' = IF step = n THEN "done" ELSE "fly"
       /\ UNCHANGED <<lg, x0, dir>>
Next == Swap \/ Fly
Spec == Init /\ [][Next]_vars
\* between stages: block b of length half is the transform of x0 at offset Rev(b) with stride n / half
Stage == (ph # "permute" /\ i = 0 /\ m = 0) =>
  LET q == n \div half l2 == LogTwo(q) IN
  \A b \in 0..(q - 1) : SubSeq(d, b * half + 1, (b + 1) * half) = DftP([t \in 1..half |-> x0[(t - 1) * q + Rev(b, l2) + 1]], PowP(W, q))
Done == ph = "done" => d = DftP(x0, W) /\ [j \in 1..n |-> (j - j) + DftP(d, PowP(W, 16 * n - 1))[j]] = [j \in 1..n |-> (x0[j] * n) % P]
Inv == Stage /\ Done
\* the real sums agree with their own inverses and with known transforms
X5 == <<1, -2, "3/4", 4, 0>>
ASSUME LET f == DftOf(X5, Zeros(5), 1) g == DftOf(f[1], f[2], -1) IN NearTo(ScaleV("1/5", g[1]), X5, "1e-20", 1) /\ NearTo(g[2], Zeros(5), "1e-20", 1)
ASSUME LET f == DftOf(<<1, 2, 3, 4>>, Zeros(4), 1) IN NearTo(f[1], <<10, -2, -2, -2>>, "1e-20", 1) /\ NearTo(f[2], <<0, 2, 0, -2>>, "1e-20", 1)
ASSUME NearTo(IDct(Dct(X5)), X5, "1e-20", 1) /\ NearTo(Dst(Dst(X5)), X5, "1e-20", 1) /\ NearTo(Dct(<<1, 1, 1>>), <<2, 0, 0>>, "1e-20", 1)
ASSUME \A k \in {"rect", "hann", "hamming", "blackman", "bartlett", "welch", "kaiser", "gauss"} : \A q \in {1, 2, 5, 6} :
   LET v == Window(k, q, "3/2") IN Len(v) = q /\ \A j \in 1..q : Within(v[j], v[q + 1 - j], "1e-20") /\ (q = 5 => Within(v[3], 1, "1e-20"))
ASSUME Within(BesselI0(1), "1.2660658777520083356", "1e-18")
=============================================================================
