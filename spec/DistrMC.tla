------------------------------- MODULE DistrMC -------------------------------
(* A point walking up the line under each distribution of a parameter grid: the *)
(* cumulative function grows by the integral of the density over each step      *)
(* (composite Gauss-Legendre), related distributions coincide, and the first    *)
(* moments of the density are the stated ones.                                  *)
EXTENDS Distr, TLC, Integers
CONSTANT Steps
VARIABLES n, i
D == << <<"normal", <<1, "1/2">>>>, <<"stdnormal", <<>>>>, <<"t", <<1>>>>, <<"t", <<2>>>>, <<"t", <<7>>>>, <<"chi2", <<2>>>>, <<"chi2", <<5>>>>, <<"f", <<4, 3>>>>, <<"f", <<3, 8>>>>,
      <<"cauchy", <<"1/3", 2>>>>, <<"exp", <<"3/2">>>>, <<"logistic", <<-1, "1/2">>>>, <<"uniform", <<-1, 2>>>>, <<"gamma", <<"5/2", "1/2">>>>, <<"gamma", <<1, 2>>>>,
      <<"beta", <<2, "5/2">>>>, <<"beta", <<1, 1>>>>, <<"weibull", <<"3/2", 1>>>>, <<"weibull", <<1, 2>>>>, <<"pareto", <<3, 1>>>>, <<"lognormal", <<0, "1/2">>>> >>
k == D[n][1]
p == D[n][2]
Wd == IF k \in {"beta"} THEN RDiv(1, Steps) ELSE "1/2"
X(j) == CASE k \in {"normal", "stdnormal", "t", "cauchy", "logistic"} -> RMul(j - (Steps \div 2), Wd) [] k = "uniform" -> RDiv(RAdd(-2, RMul(j, "1/2")), 1) [] k = "pareto" -> RAdd(1, RMul(j, Wd)) [] OTHER -> RMul(j, Wd)
Init == n \in 1..Len(D) /\ i = 0
Next == i < Steps /\ i' = i + 1 /\ n' = n
Spec == Init /\ [][Next]_<<n, i>>
F(x) == Cdf(k, p, x)
f(x) == IF Where(k, p, x) = "in" THEN Dens(k, p, x) ELSE 0
\* three-point Gauss-Legendre on n equal parts
Gauss(g(_), a, b, q) ==
  LET w == RDiv(RSub(b, a), q) r == RSqrt("3/5")
      part(j) == LET c == RAdd(a, RMul(w, RDiv(2 * j - 1, 2))) h == RMul(r, RDiv(w, 2)) IN RMul(RDiv(w, 18), RAdd(RMul(5, RAdd(g(RSub(c, h)), g(RAdd(c, h)))), RMul(8, g(c))))
  IN RSum([j \in 1..q |-> part(j)])
Smooth == k = "uniform" \/ RGe(X(i - 1), IF k \in {"chi2", "f", "gamma", "weibull", "lognormal"} THEN "1/4" ELSE "-100")
Range01 == RLe(0, F(X(i))) /\ RLe(F(X(i)), 1)
Grows == i > 0 => RLe(F(X(i - 1)), F(X(i)))
Fits == (i > 0 /\ Smooth) => Within(Gauss(f, X(i - 1), X(i), 8), RSub(F(X(i)), F(X(i - 1))), "1e-6")
Same(a, pa, b, pb, x, y) == Within(Cdf(a, pa, x), Cdf(b, pb, y), "1e-40")
Kin == LET x == X(i) IN
  /\ k = "chi2" => Same(k, p, "gamma", <<RDiv(p[1], 2), 2>>, x, x)
  /\ (k = "t" /\ RGe(x, 0)) => Within(RSub(RMul(2, F(x)), 1), Cdf("f", <<1, p[1]>>, Sq(x)), "1e-40")
  /\ (k = "t" /\ REq(p[1], 1)) => Same(k, p, "cauchy", <<0, 1>>, x, x)
  /\ k = "exp" => Same(k, p, "gamma", <<1, RDiv(1, p[1])>>, x, x) /\ Same(k, p, "weibull", <<1, RDiv(1, p[1])>>, x, x)
  /\ (k = "beta" /\ REq(p[2], 1)) => Same(k, p, "uniform", <<0, 1>>, x, x)
  /\ k = "normal" => Same(k, p, "stdnormal", <<>>, x, Z(p, x)) /\ Same(k, p, "lognormal", p, x, RExp(x))
  /\ k = "pareto" => Same(k, p, "exp", <<p[1]>>, x, RLn(x))
  /\ k = "beta" => Within(F(x), RSub(1, Cdf("beta", <<p[2], p[1]>>, RSub(1, x))), "1e-40")
  /\ (k = "f" /\ RGt(x, 0)) => Within(F(x), RSub(1, Cdf("f", <<p[2], p[1]>>, RDiv(1, x))), "1e-40")
Moments == (i = 0 /\ k \in {"normal", "uniform", "beta", "logistic", "chi2"}) =>
  LET a == CASE k = "beta" -> 0 [] k = "chi2" -> 0 [] k = "uniform" -> p[1] [] OTHER -> RSub(p[1], RMul(30, p[2])) b == CASE k = "beta" -> 1 [] k = "chi2" -> 80 [] k = "uniform" -> p[2] [] OTHER -> RAdd(p[1], RMul(30, p[2]))
      m == MeanOf(k, p) g1(x) == RMul(x, f(x)) g2(x) == RMul(Sq(RSub(x, m)), f(x))
  IN Within(Gauss(g1, a, b, 60), m, "1e-3") /\ Within(Gauss(g2, a, b, 60), VarOf(k, p), "1e-2")
=============================================================================
