----------------------------- MODULE DiffTrace -----------------------------
(* Validates recorded derivatives against the exact derivative of the recorded expressions. *)
EXTENDS Diff, TraceFile, Integers
VARIABLES h, l, st, dead
\* one finite-difference value: it = [e, is, h, v, est]
Item(f, x, it) ==
  LET e == it.e is == it.is m == Order(f) ex == Val(Dm(e, is, m), x) I == ISet(is) tol == Noise(e, x, I, it.h, m, Reach(f)) err == RAbs(RSub(it.v, ex)) exact == Exactly(f, e, is) IN
  /\ Chk("a number", RIsNum(it.v))
  /\ exact => Chk("exact on polynomials of its order", RLe(err, tol))
  /\ Has(it, "est") => /\ Chk("estimate is a bound", RIsNum(it.est) /\ RGe(it.est, 0) /\ ((exact \/ (f = "1" /\ Deg(e, is[1]) <= 2) \/ f \notin {"1", "s1", "m2", "m4"}) => RLe(err, RAdd(RMul("1.05", it.est), tol))))
                       /\ (exact /\ f # "s1") => Chk("estimate vanishes with the error", RLe(it.est, RMul(500, tol)))
\* one-sided: only points of that side, and the derivative of a point near by
Side(e) == LET y == Wide(e.x, {1}, RMul(13, e.h)) IN
  /\ Chk("points of its side", \A p \in {e.pts[i] : i \in DOMAIN e.pts} : LET s == RMul(e.side, RSub(p, e.x[1])) IN RGe(s, RNeg(RMul(RMul(8, Eps), RAdd(RAbs(e.x[1]), e.h)))))
  /\ Chk("derivative at the side", RLe(RAbs(RSub(e.v, Val(D(e.e, 1), e.x))), RAdd(RMul(RMul(13, e.h), Mag(D(D(e.e, 1), 1), y)), Noise(e.e, e.x, {1}, e.h, 1, 13))))
  /\ e.deg <= 1 => Chk("exact on straight lines", RLe(RAbs(RSub(e.v, Val(D(e.e, 1), e.x))), Noise(e.e, e.x, {1}, e.h, 1, 13)))
\* extrapolated: judged loosely, and by its own estimate
Rich(e) == LET ex == Val(Dn(e.e, 1, e.m), e.x) A == Mag(e.e, Wide(e.x, {1}, 1)) IN Chk("extrapolated derivative", RIsNum(e.v) /\ RLe(RAbs(RSub(e.v, ex)), RAdd(RMul(A, IF e.m = 1 THEN "1e-9" ELSE IF e.m = 2 THEN "1e-7" ELSE "1e-4"), RMul(e.est, 20))))
                   /\ Chk("extrapolation estimate", RGe(e.est, 0) /\ RLe(e.est, RMul(A, IF e.m = 1 THEN "1e-8" ELSE IF e.m = 2 THEN "1e-6" ELSE "1e-3")))
Det(e) ==
  LET badh == ~RIsNum(e.h) \/ (RIsNum(e.h) /\ RLe(e.h, 0)) IN
  Chk("no exception leaves the status form", e.cex = "") /\ IF badh THEN Chk("bad step refused", e.status = "InvalidInput" /\ e.pex = "NumericInputError" /\ ~e.ok)
  ELSE IF e.fault = "throw" THEN Chk("failing function reported", e.status = "AlgorithmSpecificFailure" /\ e.pex = "runtime_error" /\ ~e.ok)
  ELSE IF e.fault = "nan" /\ e.cf THEN Chk("non-finite reported", e.status = "NumericalInstability" /\ e.pex = "NumericalMethodError" /\ ~e.ok)
  ELSE /\ Chk("success", e.ok /\ e.status = "Success" /\ e.pex = "" /\ e.named) /\ Chk("evaluations counted", e.evals = e.calls) /\ Chk("step reported", REq(e.step, e.h))
       /\ e.fault = "" => Chk("same as the plain form", e.same)
Ad(e) == LET T == Err(e.e, e.x) de == D(e.e, e.i) U == Err(de, e.x) IN
  /\ Chk("value", RIsNum(e.v) /\ RLe(RAbs(RSub(e.v, T[1])), RMul(RMul(64, Eps), RAdd(RAdd(T[2], RAbs(T[1])), "1e-290"))))
  /\ Chk("derivative", RIsNum(e.d) /\ RLe(RAbs(RSub(e.d, U[1])), RMul(RMul(200, Eps), RAdd(RAdd(U[2], RAbs(U[1])), "1e-290"))))
Ok(s, e) == CASE e.op = "fd" -> Chk("asking for the error changes nothing", e.same) /\ \A i \in DOMAIN e.it : Item(e.f, e.x, e.it[i])
              [] e.op = "fdv" -> (e.f = "1" /\ Deg(e.e, 1) > 2) \/ (LET ex == Val(Dm(e.e, <<1>>, Order(e.f)), e.x) IN Chk("estimate of the vector is a bound", RLe(RAbs(RSub(e.v, ex)), RAdd(RMul("1.05", e.est), Noise(e.e, e.x, {1}, e.h, Order(e.f), Reach(e.f))))))
              [] e.op = "side" -> Side(e) [] e.op = "rich" -> Rich(e) [] e.op = "det" -> Det(e) [] e.op = "ad" -> Ad(e)
              [] e.op = "cmp" -> Chk("comparisons look at values", e.r = <<RLt(e.a, e.b), RLe(e.a, e.b), RGt(e.a, e.b), RGe(e.a, e.b), REq(e.a, e.b), ~REq(e.a, e.b)>>)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
