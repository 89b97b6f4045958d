------------------------------ MODULE FitTrace ------------------------------
(* Validates recorded fits: the parameters against the normal equations, the figures against the parameters. *)
EXTENDS Fit, TraceFile, FiniteSets, Integers
VARIABLES h, l, st, dead
NormFr(A) == RSqrt(RSum(<<>> \o [i \in DOMAIN A |-> SumSq(A[i])]))
N2(v) == RSqrt(SumSq(v))
\* rounding in one residual
Rho(A, c, ys) == RMul(RMul(Eps, 4 + 2 * Len(c)), RAdd(RMaxAbs(ys), RMaxAbs(<<>> \o [i \in DOMAIN A |-> RSum(<<>> \o [j \in DOMAIN c |-> RAbs(RMul(A[i][j], c[j]))])])))
Figures(A, r, ys) ==
  LET c == r.c m == Len(ys) ss == SSE(A, c, ys) rn == RSqrt(ss) rho == RMul(RSqrt(m), RMul(4, Rho(A, c, ys))) ds == RAdd(RMul(2, RMul(rn, rho)), RMul(rho, rho))
      tot == SST(ys) st2 == RSqrt(tot) noise == RMul(RMul(RMaxAbs(ys), RSqrt(m)), "4.5e-15") dt == RAdd(RMul(2, RMul(st2, noise)), RMul(noise, noise)) ratio == RDiv(ss, tot)
  IN /\ Chk("residual norm", RIsNum(r.rn) /\ RLe(RAbs(RSub(r.rn, rn)), RAdd(RMul(rn, "1e-13"), rho)))
     /\ Chk("mean squared error", RIsNum(r.mse) /\ RLe(RAbs(RSub(r.mse, RDiv(ss, m))), RDiv(RAdd(RMul(ss, "1e-12"), ds), m)))
     /\ Chk("R squared", IF RLe(st2, noise) THEN IF RLe(st2, RDiv(noise, 8)) THEN (RLe(rn, RMul(N2(ys), "1e-12")) => REq(r.r2, 1)) ELSE TRUE
           ELSE RIsNum(r.r2) /\ RLe(RAbs(RSub(r.r2, RSub(1, ratio))), RAdd("1e-14", RDiv(RAdd(RMul(ds, 2), RMul(ratio, RMul(2, dt))), tot))))
\* normal equations: of a backward stable solution of the whole system
Normal(A, c, ys, rows) == LET na == NormFr(A) t == RMul(RMul("2e-14", rows), RMul(na, RAdd(N2(ys), RMul(na, N2(c))))) IN \A j \in DOMAIN c : RLe(RAbs(Gradient(A, c, ys)[j]), t)
\* the line: componentwise
NormalLine(xs, ys, c) == LET r == Resid(Design(Line, xs), c, ys) n == Len(xs) s == [i \in DOMAIN xs |-> RAdd(RAbs(ys[i]), RAdd(RAbs(RMul(c[1], xs[i])), RAbs(c[2])))] IN
  /\ RLe(RAbs(RSum(r)), RMul(RMul(Eps, 8 + 2 * n), RSum(<<>> \o [i \in DOMAIN xs |-> s[i]])))
  /\ RLe(RAbs(RDot(r, xs)), RMul(RMul(Eps, 8 + 2 * n), RSum(<<>> \o [i \in DOMAIN xs |-> RMul(RAbs(xs[i]), s[i])])))
Spread(xs) == RMaxAbs(<<>> \o [i \in DOMAIN xs |-> RSub(xs[i], Mean(xs))])
Lin(e) ==
  LET bad == Len(e.xs) # Len(e.ys) \/ e.xs = <<>> IN
  IF bad THEN Chk("mismatched or empty data are refused", e.ex = "CurveFittingError")
  ELSE IF SameAll(e.xs) /\ Len(e.xs) > 2 THEN Chk("identical abscissae are refused", e.ex = "SingularMatrixError")
  ELSE IF e.ex = "SingularMatrixError" THEN Chk("distinct abscissae are fitted", Len(e.xs) > 2 /\ RLe(Spread(e.xs), RMul("1e-14", RMaxAbs(e.xs))))
  ELSE /\ Chk("fitted", e.ex = "")
       /\ Chk("numbers", AllNum(e.c))
       /\ Chk("normal equations", NormalLine(e.xs, e.ys, e.c))
       /\ (IF e.f THEN Figures(Design(Line, e.xs), e, e.ys) ELSE LET A == Design(Line, e.xs) rn == RSqrt(SSE(A, e.c, e.ys)) IN Chk("residual norm", RLe(RAbs(RSub(e.rn, rn)), RAdd(RMul(rn, "1e-13"), RMul(RMul(4, RSqrt(Len(e.ys))), Rho(A, e.c, e.ys))))))
Gen(e) ==
  LET n == Len(e.es) m == Len(e.xs) IN
  IF m # Len(e.ys) \/ m = 0 \/ n = 0 \/ m < n THEN Chk("mismatched, empty or too few data are refused", e.ex = "CurveFittingError")
  ELSE LET A == Design(e.es, e.xs) rk == RRank(A) IN
    /\ Chk("fitted", e.ex = "" /\ Len(e.c) = n /\ AllNum(e.c))
    /\ Chk("normal equations", Normal(A, e.c, e.ys, m))
    /\ Figures(A, e, e.ys)
    /\ (Has(e, "m") => Chk("sizes", e.m = m /\ e.n = n))
    /\ Chk("adjusted R squared", RIsNum(e.adj) /\ (IF m = n THEN REq(e.adj, e.r2) ELSE (REq(e.adj, e.r2) /\ RLe(RSqrt(SST(e.ys)), RMul(RMul(RMaxAbs(e.ys), RSqrt(m)), "4.5e-15")))
         \/ (LET w == RSub(1, RMul(RSub(1, e.r2), RDiv(m - 1, m - n))) IN RLe(RAbs(RSub(e.adj, w)), RMul("1e-14", RAdd(1, RAbs(w)))))))
    /\ (e.crisp => Chk("effective rank", e.rank = rk))
    /\ (e.crisp => \A j, k \in DOMAIN e.c : (j < k /\ SeqREq(Col(A, j), Col(A, k))) => Chk("least norm", RLe(RAbs(RSub(e.c[j], e.c[k])), RMul("1e-10", RAdd(N2(e.c), N2(e.ys))))))
    /\ (e.crisp /\ n = 1 /\ rk = 1 => Chk("condition", RLe(RAbs(RSub(e.cond, 1)), "1e-12")))
    /\ (e.crisp /\ n = 2 /\ rk = 2 => LET k2 == Kappa2(A) IN RLt(k2, "1e8") => Chk("condition", RLe(RAbs(RSub(RMul(e.cond, e.cond), k2)), RMul(k2, RMul("1e-13", RAdd(10, k2))))))
Same(a, b) == SeqREq(a.c, b.c) /\ REq(a.rn, b.rn) /\ REq(a.r2, b.r2) /\ REq(a.mse, b.mse)
Detailed(e) ==
  IF e.ex # "" THEN Chk("a failure is reported", e.dex = "" /\ e.ok = FALSE /\ e.pex = e.ex)
                    /\ Chk("kind of failure", IF e.ex = "SingularMatrixError" THEN e.status = "SingularMatrix" ELSE IF e.ex = "CurveFittingError" THEN e.status = "InvalidInput" ELSE e.status # "Success")
  ELSE Chk("the detailed form succeeds", e.dex = "" /\ e.pex = "" /\ e.ok) /\ Chk("the detailed form agrees", Same(e, e.d) /\ (Has(e, "rank") => e.d.rank = e.rank /\ REq(e.d.adj, e.adj) /\ (RIsNum(e.cond) => REq(e.d.cond, e.cond))))
Evl(e) == Chk("the fitted function", IsVal(e.f, <<e.x>>, e.v))
Ok(s, e) == CASE e.op = "lin" -> Lin(e) /\ (e.f => Detailed(e)) [] e.op = "gen" -> Gen(e) /\ Detailed(e) [] e.op = "neg" -> Chk("a negative degree is refused", e.ex = "CurveFittingError") /\ Detailed(e)
           [] e.op = "eval" -> Evl(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
