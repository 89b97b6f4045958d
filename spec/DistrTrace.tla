----------------------------- MODULE DistrTrace -----------------------------
(* Validates the recorded values of the distributions.                        *)
EXTENDS Distr, TraceFile
VARIABLES h, l, st, dead
Tol == "1e-9"
Refuse(c) == c.has => Chk("refused", c.err = "StatisticsError")
Val(c, name, ok) == c.has => Chk(name, c.err = "" /\ ok)
Probability(v) == RIsNum(v) /\ RGe(v, "-1e-12") /\ RLe(v, RAdd(1, "1e-12"))
PdfOk(e) ==
  LET w == Where(e.k, e.p, e.x) v == e.pdf.v
  IN CASE w = "out" -> REq(v, 0)
       [] w = "in" -> RIsNum(v) /\ RGe(v, 0) /\ LET r == Dens(e.k, e.p, e.x) IN Within(v, r, RAdd(RMul(r, Tol), "1e-290"))
       [] e.k = "uniform" -> REq(v, 0) \/ CloseRel(v, RDiv(1, RSub(e.p[2], e.p[1])), 8)
       [] OTHER -> LET t == Ends(e.k, e.p, w) IN IF RIsNum(t) THEN CloseRel(v, t, 8) ELSE IF t = "inf" THEN v = "inf" ELSE REq(v, 0)
Pt(e) ==
  LET c == Cdf(e.k, e.p, e.x) out == e.k = "exp" /\ RLt(e.x, 0)
  IN \* an argument outside the support may be refused instead
     /\ (out /\ e.pdf.err = "StatisticsError" /\ e.cdf.err = "StatisticsError")
        \/ (Val(e.pdf, "density", PdfOk(e)) /\ Val(e.cdf, "cumulative", Probability(e.cdf.v) /\ Within(e.cdf.v, c, Tol)))
     /\ Val(e.sf, "upper tail", Probability(e.sf.v) /\ Within(e.sf.v, RSub(1, c), Tol))
     /\ Val(e.two, "two tails", RGe(e.two.v, "-1e-12") /\ Within(e.two.v, RMul(2, RSub(1, Cdf(e.k, e.p, RAbs(e.x)))), RMul(2, Tol)))
Next1(x) == RAdd(x, RMul(RMul(4, Eps), RAdd(RAbs(x), "1e-307")))
Prev1(x) == RSub(x, RMul(RMul(4, Eps), RAdd(RAbs(x), "1e-307")))
\* q is the cumulative value at x to rounding of x, to an accuracy of the smaller tail
Inverts(k, p, x, q) ==
  LET m == RMin(q, RSub(1, q)) t == RMin("1e-8", RMax(RMul(m, "1e-4"), "1e-14"))
  IN RIsNum(x) /\ (Within(Cdf(k, p, x), q, t) \/ (RLe(RSub(Cdf(k, p, Prev1(x)), t), q) /\ RLe(q, RAdd(Cdf(k, p, Next1(x)), t))))
Proper(q) == RGt(q, 0) /\ RLt(q, 1)
EndP(q) == REq(q, 0) \/ REq(q, 1)
Same(v, t) == v = t \/ (RIsNum(t) /\ REq(v, t))
Inv(e) == IF Proper(e.q) THEN Val(e.x, "quantile", Inverts(e.k, e.p, e.x.v, e.q))
          ELSE IF EndP(e.q) THEN Chk("end quantile", e.x.err = "StatisticsError" \/ (e.x.err = "" /\ Same(e.x.v, IF REq(e.q, 0) THEN Lo(e.k, e.p) ELSE Hi(e.k, e.p))) \/ ((RIsNum(e.x.v) /\ e.k = "uniform" /\ CloseRel(e.x.v, e.p[2], 8))))
          ELSE Refuse(e.x)
\* two tails for Student's t, the upper one otherwise
Crit(e) == IF Proper(e.q) THEN Val(e.x, "critical value", Inverts(e.k, e.p, e.x.v, RSub(1, IF e.k = "t" THEN RDiv(e.q, 2) ELSE e.q))) ELSE Refuse(e.x)
IsNone(t) == ~RIsNum(t)
M(e) == LET a == MeanOf(e.k, e.p) IN IF IsNone(a) THEN Refuse(e.mean) ELSE Val(e.mean, "mean", RIsNum(e.mean.v) /\ Within(e.mean.v, a, RMul(RAbs(a), Tol)))
Vr(e) == LET a == VarOf(e.k, e.p) rel == IF e.k = "weibull" THEN RMul(Tol, RAdd(1, RMul("1e-3", Sq(e.p[1])))) ELSE Tol IN IF IsNone(a) THEN Refuse(e.var) ELSE Val(e.var, "variance", RIsNum(e.var.v) /\ Within(e.var.v, a, RMul(RAbs(a), rel)))
SdV(e) == e.sd.has => Chk("standard deviation", CloseRel(Sq(e.sd.v), VarOf(e.k, e.p), 64))
Walk(e) == \A j \in 1..(Len(e.y) - 1) : Chk("never decreasing", RGe(e.y[j + 1], RSub(e.y[j], "1e-11")))
Ok(s, e) ==
  CASE e.op = "make" -> IF Valid(e.k, e.p) THEN Chk("valid parameters", e.err = "") ELSE Chk("invalid parameters", e.err = "StatisticsError")
    [] e.op = "pt" -> Pt(e) [] e.op = "inv" -> Inv(e) [] e.op = "crit" -> Crit(e)
    [] e.op = "mom" -> IF e.mean.has THEN M(e) /\ Vr(e) /\ SdV(e) ELSE TRUE
    [] e.op = "walk" -> Walk(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
