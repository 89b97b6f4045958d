----------------------------- MODULE IntegTrace -----------------------------
(* Validates recorded quadratures.                                             *)
EXTENDS Integ, Special, TraceFile
VARIABLES h, l, st, dead
Len1(e) == RAbs(RSub(e.b, e.a))
Big(e) == RMax(RAbs(e.a), RAbs(e.b))
\* rounding of a rule with n points on a polynomial
PTol(e, n) == LET u == UMax(e.mid, e.s, e.a, e.b) IN RMul(RMul(RMul(16 + (n \div 2), Eps), Len1(e)), RAdd(PolyMag(e.p, u), RMul(RAdd(u, RDiv(Big(e), e.s)), PolyMagD(e.p, u))))
GaussDeg(e) == CASE e.m = "gk15" -> 13 [] e.m = "gk21" -> 19 [] e.m = "gk31" -> 29 [] OTHER -> 0
Points(e) == CASE e.m = "gauss10" -> 10 [] e.m = "gk15" -> 15 [] e.m = "gk21" -> 21 [] e.m = "gk31" -> 31 [] e.m = "gl" -> e.n
Exact(e) ==
  LET I == PolyInt(e.p, e.mid, e.s, e.a, e.b) tol == RMul(IF e.m = "gl" THEN 16 ELSE 1, PTol(e, Points(e)))
  IN /\ Chk("exact to its degree", Within(e.v, I, tol)) /\ Chk("reversed limits", Within(e.rev, RNeg(I), tol)) /\ Chk("empty interval", REq(e.zero, 0)) /\ Chk("points used", e.ev = Points(e))
     /\ Chk("error estimate", RGe(e.ee, 0) /\ (Len(e.p) - 1 <= GaussDeg(e) => RLe(e.ee, RMul(2, tol))))
Refine(e) ==
  LET I == PolyInt(e.p, e.mid, e.s, e.a, e.b) A == RMul(Len1(e), PolyMag(e.p, UMax(e.mid, e.s, e.a, e.b)))
      tol == PTol(e, IF RLe(RAbs(I), RMul("1e-3", A)) THEN 1048576 ELSE 64)      \* halved to the limit when the integral vanishes
  IN /\ Chk("exact to its degree", Within(e.v, I, tol)) /\ Chk("reversed limits", Within(e.rev, RNeg(I), tol)) /\ Chk("empty interval", REq(e.zero, 0) /\ e.zc)
     /\ Chk("converges", e.conv \/ RLe(RAbs(I), RMul("1e-3", A)))
SameD(e, d) == REq(d.v, e.v) /\ REq(d.ee, e.ee) /\ d.conv = e.conv /\ d.st = (IF e.conv THEN 0 ELSE 1) /\ d.msg = ~e.conv
Int1(e) == RSub(Val(e.F, <<e.b>>), Val(e.F, <<e.a>>))
Round(e, n) == RMul(RMul(RMul(32 + 8 * n, Eps), RAdd(Len1(e), RMul("1e-2", Big(e)))), e.S)
Conv(e) ==
  LET I == Int1(e) n == Pow2(IF e.it > 14 THEN 14 ELSE e.it) k == IF e.m = "romberg" THEN 300 ELSE 1
      bound == RAdd(RMul(RMul(RMul(k, "1.1"), e.eps), RAdd(RMax(RAbs(I), RAbs(e.v)), Eps)), Round(e, n))
  IN /\ Chk("no exception", e.err = "")
     /\ Chk("converged to the tolerance", e.conv => Within(e.v, I, bound))
     /\ Chk("iteration limit", e.it <= e.lim /\ e.ev <= Pow2(e.lim - 1) + 1) /\ Chk("stops early only when converged", e.conv \/ e.it = e.lim)
     /\ Chk("convergence needs refinements", e.lim < (IF e.m = "romberg" THEN 5 ELSE 7) => ~e.conv)
     /\ Chk("zero tolerance", REq(e.eps, 0) /\ e.m # "romberg" => ~e.conv)
     /\ Chk("converges", (e.lim = 14 /\ RGe(e.eps, IF e.m = "trap" THEN "1e-4" ELSE "1e-6") /\ RGe(RAbs(I), RMul(RMul("0.05", e.S), Len1(e)))) => e.conv)
     /\ Chk("error estimate", e.conv => RLe(e.ee, RMul("1.01", RAdd(RMul(e.eps, RMax(RAbs(e.v), RAdd(RAbs(e.v), e.ee))), RMul(e.eps, Eps)))))
     /\ Chk("detailed form", SameD(e, e.d) /\ e.d.it = e.it)
Single(e) ==
  LET I == Int1(e) r == Round(e, 31)
  IN /\ Chk("single rules", e.conv /\ e.ev = 10 /\ e.it = 1)
     /\ Chk("estimate covers the error", Within(e.v2, I, RAdd(e.ee2, r)) /\ \A k \in 2..4 : Within(e.d[k].v, I, RAdd(e.d[k].ee, r)))
     /\ Chk("detailed form", REq(e.d[1].v, e.v) /\ REq(e.d[2].v, e.v2) /\ REq(e.d[2].ee, e.ee2) /\ \A k \in 1..4 : e.d[k].conv /\ e.d[k].st = 0 /\ e.d[k].n = <<10, 21, 15, 31>>[k] /\ ~e.d[k].msg)
Adapt(e) ==
  LET I == Int1(e) r == Round(e, 1000) A == RMul(e.S, Len1(e))
  IN /\ Chk("estimate covers the error", LET cov(v, ee) == RGt(ee, RMul("1e-5", A)) \/ Within(v, I, RAdd(RMul(IF RGt(ee, RMul("1e-10", A)) THEN 1000 ELSE IF e.kink THEN 30 ELSE 10, ee), r)) IN cov(e.v, e.ee) /\ cov(e.v2, e.ee2))
     /\ Chk("converged to the tolerance", e.conv => RLe(e.ee, RMul("1.001", RAdd(e.ta, RMul(RMul("1.5", e.tr), A)))))
     /\ Chk("converges", (e.depth >= 12 /\ RGe(e.ta, RMul("1e-9", A))) => e.conv)
     /\ Chk("evaluations counted", e.ne = e.ev) /\ Chk("depth limit", e.depth > 12 \/ e.ev <= e.pts * (Pow2(e.depth + 1) - 1))
     /\ Chk("detailed form", SameD(e, e.d) /\ e.d.n = e.ne)
\* moments of the weight function in a basis that keeps all terms positive
Lg(x) == RLnGamma(x)
\* Chebyshev weights are Jacobi weights
JA(e) == CASE e.k = "cheb1" -> "-0.5" [] e.k = "cheb2" -> "0.5" [] OTHER -> e.al
JB(e) == CASE e.k = "cheb1" -> "-0.5" [] e.k = "cheb2" -> "0.5" [] OTHER -> e.be
Moment(e, k) ==
  CASE e.k = "legendre" -> RDiv(1, k + 1)
    [] e.k = "laguerre" -> RExp(Lg(RAdd(e.al, k + 1)))
    [] e.k = "hermite" -> IF k % 2 = 1 THEN 0 ELSE RExp(Lg(RDiv(k + 1, 2)))
    [] OTHER -> LET a == JA(e) b == JB(e) IN RMul(RPow(2, k), RExp(RAdd(RMul(RAdd(RAdd(a, b), 1), RLn(2)), RSub(RAdd(Lg(RAdd(a, 1)), Lg(RAdd(b, k + 1))), Lg(RAdd(RAdd(a, b), k + 2))))))
Base(e, x) == CASE e.k = "legendre" -> RDiv(RSub(x, e.a), RSub(e.b, e.a)) [] e.k \in {"laguerre", "hermite"} -> x [] OTHER -> RAdd(1, x)
Rule(e) ==
  IF e.err # "" THEN Chk("rule exists", e.err \in {"IntegrationTooManySteps", "NumericalMethodError"} /\ e.k \in {"laguerre", "hermite", "jacobi"} /\ e.n > 12)
  ELSE LET n == e.n wt(i) == IF e.k = "legendre" THEN RDiv(e.w[i], RSub(e.b, e.a)) ELSE e.w[i]
           v == <<>> \o [i \in 1..n |-> RKeep(Base(e, e.x[i]))] W == <<>> \o [i \in 1..n |-> RKeep(wt(i))]
           sh == IF e.k = "legendre" THEN RDiv(Big(e), RAbs(RSub(e.b, e.a))) ELSE IF e.k = "jacobi" THEN RMax(1, RDiv("0.05", RMin(RMin(v[1], RSub(2, v[1])), RMin(v[n], RSub(2, v[n]))))) ELSE 1
           S(k) == RSum([i \in 1..n |-> RMul(W[i], RRnd(RPow(v[i], k), 200))]) SA(k) == RSum([i \in 1..n |-> RMul(W[i], RAbs(RRnd(RPow(v[i], k), 200)))])
       IN /\ Chk("as many points as asked", Len(e.x) = n /\ Len(e.w) = n)
          /\ Chk("distinct nodes in order", \A i \in 1..(n - 1) : RSgn(RSub(e.x[i + 1], e.x[i])) # 0 /\ RSgn(RSub(e.x[i + 1], e.x[i])) = RSgn(RSub(e.x[n], e.x[1])))
          /\ Chk("positive weights", \A i \in 1..n : RGt(W[i], 0))
          /\ Chk("nodes inside", \A i \in 1..n : e.k = "hermite" \/ (RGt(v[i], 0) /\ (e.k = "laguerre" \/ RLt(v[i], IF e.k = "legendre" THEN 1 ELSE 2))))
          /\ Chk("exact to its degree", \A k \in 0..(2 * n - 1) : Within(S(k), Moment(e, k), RMul(RMul(RMul("2e-13", n), RMul(k + 4, sh)), SA(k))))
          /\ Chk("sum over the rule", e.err2 = "" /\ Close(e.v, RDot(e.w, e.y), 4 * n + 4, RSumAbs([i \in 1..n |-> RMul(e.w[i], e.y[i])])))
Mt(e) == CASE e.m \in {"gauss10", "gk21"} -> "4e-13" [] e.m = "trap" -> "1e-3" [] e.m = "simpson" -> "1e-4" [] e.m = "romberg" -> "1e-9"
Nested(e, I) ==
  LET A == RMul(RAdd(e.S, "1e-6"), Len1(e))
  IN /\ Chk("no exception", e.err = "") /\ Chk("iterated integral", (e.conv \/ e.m \in {"gauss10", "gk21"}) => Within(e.v, I, RMul(RMul(4, Mt(e)), A))) /\ Chk("single rules", e.m \in {"gauss10", "gk21"} => e.conv)
     /\ (Has(e, "d") => Chk("detailed form", SameD(e, e.d)))
Box(e) ==
  LET n == Len(e.F) cell == IF n = 2 THEN 225 ELSE 3375 kids == IF n = 2 THEN 4 ELSE 8
      \* a box whose limits are not in order is empty
      none == \E k \in 1..n : RLe(e.hi[k], e.lo[k])
      vol == IF none THEN 0 ELSE RAbs(RMul(RMul(RSub(e.hi[1], e.lo[1]), RSub(e.hi[2], e.lo[2])), IF n = 3 THEN RSub(e.hi[3], e.lo[3]) ELSE 1))
      d(k) == RSub(Val(e.F[k], <<e.hi[k]>>), Val(e.F[k], <<e.lo[k]>>))
      I == IF none THEN 0 ELSE RMul(RMul(d(1), d(2)), IF n = 3 THEN d(3) ELSE 1) A == RMul(e.S, vol) r == RMul("1e-12", A)
  IN /\ Chk("estimate covers the error", RGt(e.ee, RMul("1e-5", A)) \/ Within(e.v, I, RAdd(RMul(IF RGt(e.ee, RMul("1e-10", A)) THEN 1000 ELSE 20, e.ee), r)))
     /\ (IF REq(vol, 0) THEN Chk("empty box", e.conv /\ REq(e.v, 0) /\ e.ev = 0 /\ e.cells = 0)
         ELSE /\ Chk("evaluations", e.ev = cell * (1 + kids * e.cells) /\ e.ev <= e.me + cell * ((kids - 1) * e.depth + 1)))
     /\ Chk("evaluations counted", e.ne = e.ev)
     /\ Chk("converged to the tolerance", e.conv => RLe(e.ee, RMul("1.001", RAdd(e.ta, RMul(RMul("1.5", e.tr), A)))))
     /\ Chk("stops short only at a limit", e.conv \/ e.dep = e.depth \/ e.ev >= e.me)
     /\ Chk("converges", (e.dep < e.depth /\ e.ev < e.me) => e.conv)
     /\ Chk("depth limit", e.dep <= e.depth) /\ Chk("detailed form", SameD(e, e.d) /\ e.d.n = e.ne)
End(e, k, x) == CASE k = "at" -> Val(e.F, <<x>>) [] k = "0" -> 0 [] k = "pi/2" -> RDiv(RPi, 2) [] k = "-pi/2" -> RNeg(RDiv(RPi, 2))
Improper(e) ==
  LET I == RSub(End(e, e.hi, e.b), End(e, e.lo, e.a)) two == e.k \in {"inf", "split", "both", "inner"}
      big == RAdd(RAdd(RAbs(End(e, e.hi, e.b)), RAbs(End(e, e.lo, e.a))), RAbs(I))
  IN /\ Chk("converged to the tolerance", e.conv => Within(e.v, I, RMul(RMin(RAdd(RMul(1000, e.eps), "1e-11"), "0.03"), big)))
     /\ Chk("iteration limit", e.it <= (IF two THEN 2 * e.lim ELSE e.lim)) /\ Chk("stops early only when converged", e.conv \/ two \/ e.it = e.lim)
     /\ Chk("detailed form", SameD(e, e.d))
Work(e) == Chk("line integral", e.conv => Within(e.v, Along(e.f, e.r, e.a, e.b), RMul(RMul(RAdd(RMul(2, e.eps), "1e-8"), e.S), Len1(e))))
Straight(e) ==
  LET nd == RSqrt(RDot(e.dir, e.dir)) g(t) == Val(e.g, Vals(e.r, <<t>>)) m(t) == Val(e.den, <<t>>) L == Len1(e)
  IN /\ Chk("line integral", e.conv => Within(e.v, RMul(nd, Cotes(W9, g, e.a, e.b)), RMul(RMul(RMul(nd, L), RAdd(RMul(2, e.eps), "1e-8")), e.S)))
     /\ Chk("length", e.lc /\ Within(e.len, RMul(nd, RSub(e.b, e.a)), RMul(RMul("2e-4", nd), L)))
     /\ Chk("mass", e.mc /\ Within(e.mass, RMul(nd, Cotes(W9, m, e.a, e.b)), RMul(RMul("2e-3", nd), L)))
Ok(s, e) == CASE e.op = "exact" -> Exact(e) [] e.op = "refine" -> Refine(e) [] e.op = "conv" -> Conv(e) [] e.op = "single" -> Single(e) [] e.op = "adapt" -> Adapt(e) [] e.op = "rule" -> Rule(e)
  [] e.op = "two" -> Nested(e, Iter2(e.f, e.a, e.b, e.y1, e.y2)) [] e.op = "three" -> Nested(e, Iter3(e.f, e.a, e.b, e.y1, e.y2, e.z1, e.z2))
  [] e.op \in {"box2", "box3"} -> Box(e) [] e.op = "improper" -> Improper(e) [] e.op = "work" -> Work(e) [] e.op = "along" -> Straight(e)
Upd(s, e) == 0
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
