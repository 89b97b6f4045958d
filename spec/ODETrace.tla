------------------------------ MODULE ODETrace ------------------------------
(* Validates single steps, adaptive steps with their interpolants, and whole integrations. *)
EXTENDS ODE, TraceFile
VARIABLES h, l, st, dead
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RIsNum(a[i]) /\ RLe(RAbs(RSub(a[i], b[i])), tol)
Rnd == "2e-14"
T1(s) == RMul(Rnd, RAdd(s, "1e-290"))
StepOf(m, fs, t, x, hh) == IF m \in {"vv", "lf"} THEN Verlet(fs, t, x, hh) ELSE RKOut(Tab(m), x, hh, Ks(Tab(m), fs, t, x, hh))
SizeOf(m, fs, t, x, hh) == IF m \in {"vv", "lf"} THEN RMul(4, RAdd(MaxV(x, 1), RMul(RAbs(hh), RAdd(MaxV(x, 1), MaxV(F(fs, t, x), 1))))) ELSE Size(x, hh, Ks(Tab(m), fs, t, x, hh))
Step(e) ==
  LET s == SizeOf(e.m, e.fs, e.t, e.x, e.h) IN
  /\ Chk("the step of the method", NearV(e.out, StepOf(e.m, e.fs, e.t, e.x, e.h), T1(s)))
  /\ Chk("the embedded estimate", e.m \in {"heun", "ck", "dp5", "dp8"} => NearV(e.err, RKErr(Tab(e.m), e.h, Ks(Tab(e.m), e.fs, e.t, e.x, e.h)), T1(s)))
RECURSIVE FixedFrom(_, _, _)
FixedFrom(e, hh, k) == IF k >= Len(e.ts) THEN TRUE ELSE NearV(e.xs[k + 1], StepOf(e.m, e.fs, e.ts[k], e.xs[k], hh), RAdd(T1(SizeOf(e.m, e.fs, e.ts[k], e.xs[k], hh)), 0)) /\ FixedFrom(e, hh, k + 1)
Fixed(e) ==
  LET hh == RDiv(RSub(e.t2, e.t1), e.n) IN
  /\ Chk("one sample per step", Len(e.ts) = e.n + 1 /\ Len(e.xs) = e.n + 1)
  /\ Chk("starts at the initial condition", REq(e.ts[1], e.t1) /\ SeqREq(e.xs[1], e.x))
  /\ Chk("equally spaced times up to the end", \A k \in DOMAIN e.ts : RLe(RAbs(RSub(e.ts[k], RAdd(e.t1, RMul(hh, k - 1)))), RMul(RMul(Eps, k + 2), RAdd(RAbs(e.t1), RAbs(e.t2)))))
  /\ Chk("times increase", \A k \in 1..e.n : RLt(e.ts[k], e.ts[k + 1]))
  /\ Chk("every sample is the step from the one before", FixedFrom(e, hh, 1))
Rel(v, x, y, k1, hh) == LET s == [i \in DOMAIN v |-> RDiv(RAbs(v[i]), RAdd(RAdd(RMax(RAbs(x[i]), RAbs(y[i])), RMul(RAbs(hh), RAbs(k1[i]))), "1e-290"))] IN MaxV(s, 1)
Small(x, y, k1, hh) == LET s == [i \in DOMAIN x |-> RAdd(RAdd(RMax(RAbs(x[i]), RAbs(y[i])), RMul(RAbs(hh), RAbs(k1[i]))), "1e-290")] RECURSIVE Mn(_) Mn(k) == IF k = Len(s) THEN s[k] ELSE RMin(s[k], Mn(k + 1)) IN Mn(1)
\* what follows from a step having been accepted
Accepted(e) ==
  LET f1 == F(e.fs, RAdd(e.t, e.hd), e.out) IN
  /\ Chk("the step taken is at most the step tried", RGt(e.hd, 0) /\ RLe(e.hd, e.htry) /\ (e.rej = 0 => REq(e.hd, e.htry)))
  /\ Chk("accepted within the tolerance", RLe(e.errmax, 1))
  /\ Chk("a next step is suggested", RIsNum(e.hnext) /\ RGt(e.hnext, 0))
  /\ (IF e.m \in {"bs", "bsr"} THEN Chk("an extrapolated midpoint step", LET s == RMul(RMul(40, "2e-14"), RAdd(RAdd(MaxV(e.x, 1), MaxV(e.out, 1)), RMul(e.hd, MaxV(F(e.fs, e.t, e.x), 1)))) IN BSIs(NSeq(e.m), e.fs, e.t, e.x, e.hd, <<>>, 1, e.out, s))
      ELSE LET K == Ks(Tab(e.m), e.fs, e.t, e.x, e.hd) s == Size(e.x, e.hd, K) r == Rel(RKErr(Tab(e.m), e.hd, K), e.x, e.out, K[1], e.hd) IN
        /\ Chk("the step of the method", NearV(e.out, RKOut(Tab(e.m), e.x, e.hd, K), T1(s)))
        /\ Chk("the error ratio is the embedded estimate over the tolerance", RLe(RAbs(RSub(RMul(e.errmax, e.eps), r)), RAdd(RDiv(r, 2), RMul(20, RDiv(T1(s), Small(e.x, e.out, K[1], e.hd)))))))
  /\ Chk("the derivative at the new point", NearV(e.dout, f1, T1(RMul(RAdd(MaxV(f1, 1), e.fsize), 4))))
  /\ Chk("the ends of the step", LET s == T1(RMul(4, RAdd(RAdd(MaxV(e.x, 1), MaxV(e.out, 1)), RMul(e.hd, RAdd(MaxV(f1, 1), MaxV(F(e.fs, e.t, e.x), 1)))))) f0 == F(e.fs, e.t, e.x) IN
       \A k \in DOMAIN e.th : NearV(e.mid[k], Hermite(e.x, f0, e.out, f1, e.hd, RDiv(RSub(e.th[k], e.t), e.hd)), RMul(20, s)))
Do(e) ==
  /\ Chk("evaluations counted", e.ev = e.cnt)
  /\ IF e.acc THEN Accepted(e) ELSE Chk("a rejected step is retried smaller", e.m \in {"bs", "bsr"} /\ RLt(e.hnext, e.htry) /\ SeqREq(e.out, e.x))
(* ---------------- whole adaptive integrations against the exact solution ---------------- *)
At(sol, t) == <<>> \o [i \in DOMAIN sol |-> R1(Val(sol[i], <<t>>))]
Der(sol, k) == <<>> \o [i \in DOMAIN sol |-> Dn(sol[i], 1, k)]
\* the recorded solution solves the recorded equations
Solves(e, t) == LET d == At(Der(e.sol, 1), t) f == F(e.fs, t, At(e.sol, t)) IN NearV(d, f, RMul("1e-25", RAdd(1, MaxV(f, 1))))
RECURSIVE MaxAt(_, _, _)
MaxAt(sol, ts, k) == IF k > Len(ts) THEN 0 ELSE RMax(MaxV(At(sol, ts[k]), 1), MaxAt(sol, ts, k + 1))
Tol(e) ==
  LET S == MaxAt(e.sol, e.ts, 1) h4 == RPow(e.hmax, 4)
      herm == IF e.mode = "at" THEN 0 ELSE RMul(RDiv(h4, 150), RMul(e.grow, MaxAt(Der(e.sol, 4), e.ts, 1)))
  IN RAdd(RAdd(RMul(RMul(RMul(10, e.eps), e.acc + 1), RMul(S, e.grow)), herm), RMul(RMul("4e-15", e.acc + 10), RMul(e.grow, S)))
Whole(e) ==
  /\ Chk("no exception", e.throw = "")
  /\ Chk("(the harness's solution)", \A k \in DOMAIN e.ts : k > 3 \/ Solves(e, e.ts[k]))
  /\ Chk("points asked for", IF e.mode = "at" THEN SeqREq(e.ts, e.want) ELSE OnGrid(e.t0, e.te, e.dt, e.ts))
  /\ Chk("starts at the initial condition", SeqREq(e.xs[1], e.x0))
  /\ Chk("the achieved error", LET w == Tol(e) IN \A k \in DOMAIN e.ts : NearV(e.xs[k], At(e.sol, e.ts[k]), w))
  /\ Chk("evaluations counted", e.ev = e.cnt)
  /\ Chk("steps add up", e.acc >= 1 /\ e.rej >= 0 /\ e.total = e.acc + e.rej /\ RLe(e.hmin, e.hmax)
        /\ RGe(RMul(e.hmax, e.acc), RMul(RSub(e.te, e.t0), "0.999999999999")) /\ RLe(RMul(e.hmin, e.acc), RMul(RSub(e.te, e.t0), "1.000000000001"))
        /\ RLe(RAbs(RSub(RMul(e.rate, e.total), e.acc)), RMul("1e-12", e.total)))
  /\ Chk("no step above the maximum", e.maxh = "none" \/ RLe(e.hmax, e.maxh))
Ok(s, e) == CASE e.op = "step" -> Step(e) [] e.op = "fixed" -> Fixed(e) [] e.op = "do" -> Do(e) [] e.op = "int" -> Whole(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
