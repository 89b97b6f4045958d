-------------------------------- MODULE Distr --------------------------------
(***************************************************************************)
(* C27: the probability distributions.  A distribution is [k, p]: its kind  *)
(* and its parameters; density, cumulative function, mean and variance are  *)
(* the textbook functions over the reals.                                   *)
(***************************************************************************)
EXTENDS Special, Sequences
Half == "1/2"
Sq(x) == RMul(x, x)
Pos(x) == RGt(x, 0)
Valid(k, p) ==
  CASE k = "normal" -> RIsNum(p[1]) /\ Pos(p[2])
    [] k = "stdnormal" -> TRUE
    [] k = "t" -> RGe(p[1], 1)
    [] k = "chi2" -> RGe(p[1], 1)
    [] k = "f" -> RGe(p[1], 1) /\ RGe(p[2], 1)
    [] k \in {"cauchy", "logistic", "lognormal"} -> RIsNum(p[1]) /\ Pos(p[2])
    [] k = "exp" -> Pos(p[1])
    [] k = "uniform" -> RLt(p[1], p[2])
    [] k \in {"gamma", "beta", "weibull", "pareto"} -> Pos(p[1]) /\ Pos(p[2])
Phi(z) == IF RGe(z, 0) THEN RMul(Half, RAdd(1, RGammaP(Half, RDiv(Sq(z), 2)))) ELSE RMul(Half, RSub(1, RGammaP(Half, RDiv(Sq(z), 2))))
PhiD(z) == RDiv(RExp(RNeg(RDiv(Sq(z), 2))), RSqrt(RMul(2, RPi)))
Z(p, x) == RDiv(RSub(x, p[1]), p[2])
\* x^y for x > 0
Power(x, y) == RExp(RMul(y, RLn(x)))
Cdf(k, p, x) ==
  CASE k = "normal" -> Phi(Z(p, x))
    [] k = "stdnormal" -> Phi(x)
    [] k = "t" -> LET tail == RMul(Half, RBetaI(RDiv(p[1], 2), Half, RDiv(p[1], RAdd(p[1], Sq(x))))) IN IF RGe(x, 0) THEN RSub(1, tail) ELSE tail
    [] k = "chi2" -> IF RLe(x, 0) THEN 0 ELSE RGammaP(RDiv(p[1], 2), RDiv(x, 2))
    [] k = "f" -> IF RLe(x, 0) THEN 0 ELSE RBetaI(RDiv(p[1], 2), RDiv(p[2], 2), RDiv(RMul(p[1], x), RAdd(RMul(p[1], x), p[2])))
    [] k = "cauchy" -> RAdd(Half, RDiv(RAtan(Z(p, x)), RPi))
    [] k = "exp" -> IF RLe(x, 0) THEN 0 ELSE RSub(1, RExp(RNeg(RMul(p[1], x))))
    [] k = "logistic" -> LET z == Z(p, x) e == RExp(RNeg(RAbs(z))) IN IF RGe(z, 0) THEN RDiv(1, RAdd(1, e)) ELSE RDiv(e, RAdd(1, e))
    [] k = "uniform" -> IF RLe(x, p[1]) THEN 0 ELSE IF RGe(x, p[2]) THEN 1 ELSE RDiv(RSub(x, p[1]), RSub(p[2], p[1]))
    [] k = "gamma" -> IF RLe(x, 0) THEN 0 ELSE RGammaP(p[1], RDiv(x, p[2]))
    [] k = "beta" -> RBetaI(p[1], p[2], x)
    [] k = "weibull" -> IF RLe(x, 0) THEN 0 ELSE RSub(1, RExp(RNeg(Power(RDiv(x, p[2]), p[1]))))
    [] k = "pareto" -> IF RLe(x, p[2]) THEN 0 ELSE RSub(1, Power(RDiv(p[2], x), p[1]))
    [] k = "lognormal" -> IF RLe(x, 0) THEN 0 ELSE Phi(RDiv(RSub(RLn(x), p[1]), p[2]))
\* the density inside the support
Dens(k, p, x) ==
  CASE k = "normal" -> RDiv(PhiD(Z(p, x)), p[2])
    [] k = "stdnormal" -> PhiD(x)
    [] k = "t" -> LET v == p[1] h == RDiv(RAdd(v, 1), 2)
                  IN RExp(RSub(RSub(RLnGamma(h), RLnGamma(RDiv(v, 2))), RAdd(RMul(Half, RLn(RMul(v, RPi))), RMul(h, RLn(RAdd(1, RDiv(Sq(x), v)))))))
    [] k = "chi2" -> LET h == RDiv(p[1], 2) IN RExp(RSub(RSub(RMul(RSub(h, 1), RLn(x)), RDiv(x, 2)), RAdd(RMul(h, RLn(2)), RLnGamma(h))))
    [] k = "f" -> LET a == RDiv(p[1], 2) b == RDiv(p[2], 2)
                  IN RExp(RAdd(RSub(RAdd(RMul(a, RLn(p[1])), RAdd(RMul(b, RLn(p[2])), RMul(RSub(a, 1), RLn(x)))), RMul(RAdd(a, b), RLn(RAdd(p[2], RMul(p[1], x))))),
                               RSub(RLnGamma(RAdd(a, b)), RAdd(RLnGamma(a), RLnGamma(b)))))
    [] k = "cauchy" -> RDiv(1, RMul(RMul(RPi, p[2]), RAdd(1, Sq(Z(p, x)))))
    [] k = "exp" -> RMul(p[1], RExp(RNeg(RMul(p[1], x))))
    [] k = "logistic" -> LET e == RExp(RNeg(RAbs(Z(p, x)))) IN RDiv(e, RMul(p[2], Sq(RAdd(1, e))))
    [] k = "uniform" -> RDiv(1, RSub(p[2], p[1]))
    [] k = "gamma" -> RExp(RSub(RSub(RMul(RSub(p[1], 1), RLn(x)), RDiv(x, p[2])), RAdd(RMul(p[1], RLn(p[2])), RLnGamma(p[1]))))
    [] k = "beta" -> RExp(RAdd(RAdd(RMul(RSub(p[1], 1), RLn(x)), RMul(RSub(p[2], 1), RLn(RSub(1, x)))), RSub(RLnGamma(RAdd(p[1], p[2])), RAdd(RLnGamma(p[1]), RLnGamma(p[2])))))
    [] k = "weibull" -> LET z == RDiv(x, p[2]) IN RMul(RMul(RDiv(p[1], p[2]), Power(z, RSub(p[1], 1))), RExp(RNeg(Power(z, p[1]))))
    [] k = "pareto" -> RMul(RDiv(p[1], x), Power(RDiv(p[2], x), p[1]))
    [] k = "lognormal" -> RDiv(PhiD(RDiv(RSub(RLn(x), p[1]), p[2])), RMul(x, p[2]))
\* support: "in", "out" or an end point
Where(k, p, x) ==
  CASE k \in {"normal", "stdnormal", "t", "cauchy", "logistic"} -> "in"
    [] k \in {"chi2", "f", "exp", "gamma", "weibull", "lognormal"} -> IF RGt(x, 0) THEN "in" ELSE IF RLt(x, 0) THEN "out" ELSE "lo"
    [] k = "uniform" -> IF RLt(x, p[1]) \/ RGt(x, p[2]) THEN "out" ELSE IF RGt(x, p[1]) /\ RLt(x, p[2]) THEN "in" ELSE "lo"
    [] k = "beta" -> IF RLt(x, 0) \/ RGt(x, 1) THEN "out" ELSE IF REq(x, 0) THEN "lo" ELSE IF REq(x, 1) THEN "hi" ELSE "in"
    [] k = "pareto" -> IF RLt(x, p[2]) THEN "out" ELSE IF REq(x, p[2]) THEN "lo" ELSE "in"
\* the density's limit at an end point of the support, by the exponent that governs it there
Ends(k, p, w) ==
  LET lim(a, v) == IF RLt(a, 1) THEN "inf" ELSE IF RGt(a, 1) THEN "zero" ELSE v
  IN CASE k = "chi2" -> lim(RDiv(p[1], 2), "1/2")
       [] k = "f" -> lim(RDiv(p[1], 2), "1")
       [] k = "exp" -> p[1]
       [] k = "gamma" -> lim(p[1], RDiv(1, p[2]))
       [] k = "weibull" -> lim(p[1], RDiv(1, p[2]))
       [] k = "beta" -> IF w = "lo" THEN lim(p[1], p[2]) ELSE lim(p[2], p[1])
       [] k = "lognormal" -> "zero"
       [] k = "pareto" -> RDiv(p[1], p[2])
Lo(k, p) == CASE k \in {"chi2", "f", "exp", "gamma", "weibull", "lognormal", "beta"} -> "0" [] k = "uniform" -> p[1] [] k = "pareto" -> p[2] [] OTHER -> "-inf"
Hi(k, p) == CASE k = "beta" -> "1" [] k = "uniform" -> p[2] [] OTHER -> "inf"
NoValue == "none"
MeanOf(k, p) ==
  CASE k \in {"normal", "logistic"} -> p[1] [] k = "t" -> IF RGt(p[1], 1) THEN 0 ELSE NoValue [] k = "chi2" -> p[1]
    [] k = "f" -> IF RGt(p[2], 2) THEN RDiv(p[2], RSub(p[2], 2)) ELSE NoValue
    [] k = "exp" -> RDiv(1, p[1]) [] k = "uniform" -> RDiv(RAdd(p[1], p[2]), 2) [] k = "gamma" -> RMul(p[1], p[2])
    [] k = "beta" -> RDiv(p[1], RAdd(p[1], p[2])) [] k = "weibull" -> RMul(p[2], RExp(RLnGamma(RAdd(1, RDiv(1, p[1])))))
    [] k = "pareto" -> IF RGt(p[1], 1) THEN RDiv(RMul(p[1], p[2]), RSub(p[1], 1)) ELSE NoValue
    [] k = "lognormal" -> RExp(RAdd(p[1], RDiv(Sq(p[2]), 2)))
VarOf(k, p) ==
  CASE k = "normal" -> Sq(p[2]) [] k = "logistic" -> RDiv(Sq(RMul(RPi, p[2])), 3)
    [] k = "t" -> IF RGt(p[1], 2) THEN RDiv(p[1], RSub(p[1], 2)) ELSE NoValue [] k = "chi2" -> RMul(2, p[1])
    [] k = "f" -> LET a == p[1] b == p[2] IN IF RGt(b, 4) THEN RDiv(RMul(RMul(2, Sq(b)), RSub(RAdd(a, b), 2)), RMul(RMul(a, Sq(RSub(b, 2))), RSub(b, 4))) ELSE NoValue
    [] k = "exp" -> RDiv(1, Sq(p[1])) [] k = "uniform" -> RDiv(Sq(RSub(p[2], p[1])), 12) [] k = "gamma" -> RMul(p[1], Sq(p[2]))
    [] k = "beta" -> LET s == RAdd(p[1], p[2]) IN RDiv(RMul(p[1], p[2]), RMul(Sq(s), RAdd(s, 1)))
    [] k = "weibull" -> RMul(Sq(p[2]), RSub(RExp(RLnGamma(RAdd(1, RDiv(2, p[1])))), Sq(RExp(RLnGamma(RAdd(1, RDiv(1, p[1])))))))
    [] k = "pareto" -> IF RGt(p[1], 2) THEN RDiv(RMul(p[1], Sq(p[2])), RMul(Sq(RSub(p[1], 1)), RSub(p[1], 2))) ELSE NoValue
    [] k = "lognormal" -> RMul(RExp(RAdd(RMul(2, p[1]), Sq(p[2]))), RSub(RExp(Sq(p[2])), 1))
=============================================================================
