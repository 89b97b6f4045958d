----------------------------- MODULE OptimTrace -----------------------------
(* Validates recorded minimisations.                                          *)
EXTENDS Optim, TraceFile
VARIABLES h, l, st, dead
P(x) == <<x>>
Pos(t) == RIsNum(t) /\ RGt(t, 0)
At(f, x, y) == IsVal(f, x, y) \/ Within(y, Val(f, x), Noise(f, x))
\* v is no larger than the value of f at x
NoMore(f, v, x) == LET t == Val(f, x) IN ~RIsNum(t) \/ RLe(v, RAdd(t, Noise(f, x)))
Bracket(e) ==
  IF e.err # "" THEN Chk("refused without cause", ~e.uni /\ e.err = "NumericInputError")
  ELSE LET a == e.x[1] b == e.x[2] c == e.x[3] IN
    /\ Chk("unimodal function bracketed", e.uni /\ ~REq(e.a, e.b) => e.ok)
    /\ (e.ok => /\ Chk("values belong to the points", \A i \in 1..3 : At(e.f, P(e.x[i]), e.y[i]))
                /\ Chk("lower in the middle", RLe(e.y[2], e.y[1]) /\ RLe(e.y[2], e.y[3]))
                /\ Chk("middle between the ends", RLe(RMin(a, c), b) /\ RLe(b, RMax(a, c)))
                /\ Chk("no higher than at the start", NoMore(e.f, e.y[2], P(e.a)) /\ NoMore(e.f, e.y[2], P(e.b)))
                /\ Chk("around the minimum", e.uni => RLe(RSub(RMin(a, c), "1e-300"), e.r) /\ RLe(e.r, RMax(a, c))))
Neg(m) == m \in {"goldenmax", "brentmax"}
Min1(e) ==
  LET f == IF Neg(e.m) THEN <<"neg", e.f>> ELSE e.f y == IF Neg(e.m) THEN RNeg(e.y) ELSE e.y IN
  IF ~Pos(e.tol) \/ e.lim <= 0 THEN Chk("improper setting refused", e.err = "NumericInputError" \/ (e.m = "golden" /\ Pos(e.tol)))
  ELSE IF e.err # "" THEN Chk("exception only for the limit or for want of a bracket", (e.err = "OptimizationError" /\ (~e.ok \/ e.m \in {"brent", "brentd", "brentmax"})) \/ (~e.uni /\ e.err = "NumericInputError"))
  ELSE
   /\ Chk("bracketed first", e.ok)
   /\ Chk("status tells success", e.conv = (e.st = 0)) /\ Chk("iteration limit", e.it <= e.lim)
   /\ Chk("value belongs to the point", At(f, P(e.x), y)) /\ Chk("inside the bracket", RLe(RMin(e.br[1], e.br[2]), e.x) /\ RLe(e.x, RMax(e.br[1], e.br[2])))
   /\ Chk("no higher than at the start", NoMore(f, y, P(e.a)) /\ NoMore(f, y, P(e.b)))
   /\ (e.conv /\ e.uni => Chk("close to the minimum",
        LET w == RAdd(RMul(RMul(8, e.tol), RAdd(RAbs(e.r), RAbs(e.x))), RAdd("1e-18", RMul(RMul(4, Eps), RAbs(e.r)))) vr == Val(f, P(e.r)) IN
        Within(e.x, e.r, w) \/ RLe(RSub(Val(f, P(e.x)), vr), RAdd(RMul(8, Noise(f, P(e.r))), RMax(RSub(Val(f, P(RAdd(e.r, w))), vr), RSub(Val(f, P(RSub(e.r, w))), vr))))))
   /\ Chk("unimodal minimum found within generous limits", e.uni /\ e.m \in {"golden", "goldenmax"} /\ e.lim = 5000 /\ RGe(e.tol, "1e-10") => e.conv)
Nd(e) ==
  LET mx == e.m = "nmmax" f == IF mx THEN <<"neg", e.f>> ELSE e.f y == IF mx THEN RNeg(e.y) ELSE e.y nm == e.m \in {"nm", "nmmax"}
      bad == ~Pos(e.tol) \/ e.lim <= 0 \/ (nm /\ REq(e.del, 0)) \/ (e.m = "lbfgs" /\ e.mem <= 0) IN
  IF bad THEN Chk("improper setting refused", e.err = "MultidimOptimizationInputError")
  ELSE IF e.err # "" THEN Chk("exception only from a line search", e.m \in {"powell", "cg"} /\ e.err = "OptimizationError")
  ELSE
   /\ Chk("dimension", Len(e.x) = e.n) /\ Chk("status tells success", e.conv = (e.st = 0))
   /\ Chk("iteration limit", IF nm THEN e.it <= RToInt(RMax(e.lim, e.n + 1)) + e.n + 2 ELSE e.it <= e.lim)
   /\ Chk("value belongs to the point", At(f, e.x, y))
   /\ Chk("no higher than at the start", \A i \in 1..Len(e.ss) : NoMore(f, y, e.ss[i]))
   /\ (nm /\ e.sv # <<>> => Chk("best of the simplex", \A i \in 1..Len(e.sv) : RLe(e.y, e.sv[i]))
        /\ Chk("spread below the tolerance", e.conv => \A i \in 1..Len(e.sv) : RLe(RMul(2, RSub(e.sv[i], e.y)), RMul(RMul(e.tol, "1.000001"), RAdd(RAdd(RAbs(e.sv[i]), RAbs(e.y)), "1e-10"))))
        /\ Chk("evaluations counted", e.it = e.ev))
   /\ (e.quad /\ ~nm /\ e.conv => Chk("convex minimum reached", LET v0 == Val(f, e.opt) g0 == RSub(Val(f, e.s), v0) g == RSub(Val(f, e.x), v0) IN
          RLe(g, RAdd(RMul(RAdd("1e-5", RMul(100, e.tol)), g0), RAdd(RMul(RMul(100, e.tol), RAbs(v0)), RAdd("1e-16", RMul(16, Noise(f, e.opt))))))))
   /\ (e.quad /\ ~nm /\ e.lim >= 200 /\ RGe(e.tol, "1e-8") => Chk("convex quadratic converges", e.conv))
Ok(s, e) == CASE e.op = "bracket" -> Bracket(e) [] e.op = "min" -> Min1(e) [] e.op = "nd" -> Nd(e)
              [] e.op = "refuse" -> Chk("improper arguments refused", \A i \in 1..Len(e.e) : e.e[i] = "NumericInputError")
Upd(s, e) == 0
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
