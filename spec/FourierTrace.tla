---------------------------- MODULE FourierTrace ----------------------------
(* Validates recorded transforms and windows against the defining sums.         *)
EXTENDS Fourier, Integers, TraceFile
VARIABLES h, l, st, dead
Bad(e) == Chk("refusal of an inadmissible length", e.err = "invalid_argument")
Good(e) == Chk("no refusal", e.err = "")
Half(n) == n \div 2 + 1
\* spectrum of length n / 2 + 1 continued to n by conjugation
Mirror(f, n) == <<[k \in 1..n |-> IF k <= Half(n) THEN f[1][k] ELSE f[1][n + 2 - k]], [k \in 1..n |-> IF k = 1 \/ k = Half(n) THEN 0 ELSE IF k <= Half(n) THEN f[2][k] ELSE RNeg(f[2][n + 2 - k])]>>
Packed(f, n) == [k \in 1..n |-> IF k = 1 THEN f[1][1] ELSE IF k = 2 THEN f[1][Half(n)] ELSE IF k % 2 = 1 THEN f[1][(k + 1) \div 2] ELSE f[2][k \div 2]]
Unpacked(d) == LET n == Len(d) IN <<[k \in 1..Half(n) |-> IF k = 1 THEN d[1] ELSE IF k = Half(n) THEN d[2] ELSE d[2 * k - 1]], [k \in 1..Half(n) |-> IF k = 1 \/ k = Half(n) THEN 0 ELSE d[2 * k]]>>
Inv1(f) == LET g == DftOf(f[1], f[2], -1) n == Len(f[1]) q == RDiv(1, n) IN <<ScaleV(q, g[1]), ScaleV(q, g[2])>>
Cplx(e) ==
  LET n == Len(e.x[1]) sc == Size(e.x[1], e.x[2]) k == e.op
      pow == k \in {"fft", "ifft", "tr", "tri", "samep"}
  IN IF k = "pad" THEN Good(e) /\ Chk("zero padding", LET q == NextPow(n) IN Len(e.r[1]) = q /\ Len(e.r[2]) = q /\ \A j \in 1..q : IF j <= n THEN REq(e.r[1][j], e.x[1][j]) /\ REq(e.r[2][j], e.x[2][j]) ELSE REq(e.r[1][j], 0) /\ REq(e.r[2][j], 0))
     ELSE IF n = 0 \/ (pow /\ ~PowerOfTwo(n)) THEN Bad(e)
     ELSE /\ Good(e)
          /\ CASE k \in {"dft", "fft", "tr"} -> Chk("defining sum", NearC(e.r, DftOf(e.x[1], e.x[2], 1), sc, n))
               [] k \in {"idft", "ifft"} -> Chk("defining sum", NearC(e.r, Inv1(e.x), RDiv(sc, n), n))
               [] k = "tri" -> Chk("defining sum", NearC(e.r, DftOf(e.x[1], e.x[2], -1), sc, n))
               [] k = "idftr" -> Chk("defining sum", NearTo(e.r, Inv1(e.x)[1], RDiv(sc, n), n))
               [] OTHER -> Chk("the inverse returns the signal", NearC(e.r, e.x, sc, n))
Realv(e) ==
  LET x == e.x[1] n == Len(x) sc == RSumAbs(x) k == e.op
      pow == k \in {"dctp", "idctp", "rfft", "same1r", "rtr", "rtri"}
  IN IF n = 0 \/ (pow /\ ~PowerOfTwo(n)) \/ (k \in {"rfft", "same1r", "rtr", "rtri"} /\ n < 2) THEN
       (IF k = "same1r" /\ n = 0 THEN e.err # "" ELSE Bad(e))
     ELSE /\ Good(e)
          /\ CASE k = "dftr" -> Chk("defining sum", NearC(e.r, DftOf(x, Zeros(n), 1), sc, n))
               [] k \in {"dct", "dctp"} -> Chk("defining sum", NearTo(e.r, Dct(x), RDiv(sc, n), 4 * n))
               [] k \in {"idct", "idctp"} -> Chk("defining sum", NearTo(e.r, IDct(x), sc, 4 * n))
               [] k = "dst" -> Chk("defining sum", NearTo(e.r, Dst(x), sc, 2 * n))
               [] k = "rfft" -> LET f == DftOf(x, Zeros(n), 1) IN Chk("half spectrum", NearC(e.r, <<SubSeq(f[1], 1, Half(n)), SubSeq(f[2], 1, Half(n))>>, sc, n))
               [] k = "rtr" -> Chk("packed half spectrum", NearTo(e.r, Packed(DftOf(x, Zeros(n), 1), n), sc, n))
               [] k = "rtri" -> Chk("defining sum", NearTo(e.r, Inv1(Mirror(Unpacked(x), n))[1], RDiv(sc, n \div 2), n))
               [] OTHER -> Chk("the inverse returns the signal", NearTo(e.r, x, sc, 4 * n))
\* the inverse of a half spectrum whose ends are real
Irfft(e) ==
  LET m == Len(e.x[1]) n == 2 * (m - 1)
  IN IF m < 2 \/ ~PowerOfTwo(m - 1) THEN Bad(e)
     ELSE Good(e) /\ Chk("defining sum", NearTo(e.r, Inv1(Mirror(e.x, n))[1], RDiv(Size(e.x[1], e.x[2]), m - 1), n))
Win(e) ==
  IF e.n <= 0 \/ (e.k = "kaiser" /\ RLt(e.p, 0)) \/ (e.k = "gauss" /\ RLe(e.p, 0)) THEN Bad(e)
  ELSE /\ Good(e)
       /\ LET w == Window(e.k, e.n, e.p) tol == IF e.k = "kaiser" THEN "1e-10" ELSE "1e-14" IN
          /\ Chk("values", Len(e.r) = e.n /\ \A j \in 1..e.n : RIsNum(e.r[j]) /\ Within(e.r[j], w[j], tol))
          /\ Chk("symmetry", \A j \in 1..e.n : Within(e.r[j], e.r[e.n + 1 - j], "1e-14"))
Ok(s, e) ==
  CASE e.op \in {"dft", "idft", "idftr", "fft", "ifft", "tr", "tri", "pad", "same", "samep"} -> Cplx(e)
    [] e.op \in {"dftr", "dct", "idct", "dctp", "idctp", "dst", "same1", "rfft", "same1r", "rtr", "rtri"} -> Realv(e)
    [] e.op = "irfft" -> Irfft(e)
    [] e.op = "bin" -> Chk("bins outside are refused", e.a = "invalid_argument" /\ e.b = "invalid_argument")
    [] e.op = "vrt" -> Chk("self-verification", e.a /\ e.b)
    [] e.op = "det" -> LET bad == e.n = 0 \/ (e.f \in {"fft", "ifft"} /\ ~PowerOfTwo(e.n)) IN
         Chk("status", e.ok = ~bad /\ e.inv = bad /\ e.threw = bad /\ e.msg = bad /\ e.same /\ (~bad => e.size = e.n))
    [] e.op = "win" -> Win(e)
    [] e.op = "pow" -> Chk("powers of two", e.p = PowerOfTwo(e.n) /\ e.q = NextPow(e.n) /\ (e.n <= 0 \/ e.l = LogTwo(e.n)) /\ e.s)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
