----------------------------- MODULE StatsTrace -----------------------------
(* Validates the recorded statistics against their definitions.                *)
EXTENDS Stats, TraceFile
VARIABLES h, l, st, dead
Refused(e) == Chk("refused", e.err = "StatisticsError")
Given(e) == Chk("no refusal", e.err = "")
\* a sample that the operation must refuse, else the value
Need(e, bad, ok) == IF bad THEN Refused(e) ELSE Given(e) /\ Chk("value", ok)
\* a constant sample counts as degenerate; so may one whose spread underflows
Deg(x) == Constant(x)
T1(x) == N(x) < 1
T2(x) == N(x) < 2
One(e) ==
  LET x == e.x r == e.r n == N(e.x) S == Size(e.x)
  IN Chk("sample untouched", e.same) /\
  CASE e.op = "mean" -> Need(e, T1(x), MeanOk(x, r[1]))
    [] e.op = "avgvar" -> Need(e, T2(x), MeanOk(x, r[1]) /\ VarOk(x, r[2]))
    [] e.op = "avgstd" -> Need(e, T2(x), MeanOk(x, r[1]) /\ SdOk(x, r[2]))
    [] e.op = "var" -> Need(e, T2(x), VarOk(x, r[1]))
    [] e.op = "std" -> Need(e, T2(x), SdOk(x, r[1]))
    [] e.op = "moments" ->
        IF T2(x) \/ Deg(x) THEN Refused(e)
        ELSE Given(e) /\ Chk("value", MeanOk(x, r[1]) /\ Near26(r[2], RDiv(AbsPowSum(x, 1), n), n, S) /\ SdOk(x, r[3]) /\ VarOk(x, r[4]) /\
             (Lost(x) \/ (Near26(r[5], RDiv(PowSum(x, 3), RMul(n, RMul(Var(x), Sd(x)))), 4 * n, RMul(n, Cond(x)))
                          /\ Near26(r[6], RSub(RDiv(PowSum(x, 4), RMul(n, RPow(Var(x), 2))), 3), 4 * n, RMul(n, Cond(x))))))
    [] e.op = "median" -> Need(e, T1(x), Close(r[1], Median(x), 2, S))
    [] e.op = "range" -> Need(e, T1(x), Close(r[1], RSub(Most(x), Least(x)), 2, S))
    [] e.op = "minmax" -> Need(e, T1(x), REq(r[1], Least(x)) /\ REq(r[2], Most(x)))
    [] e.op = "iqr" -> Need(e, T1(x), Near26(r[1], RSub(Percentile(x, 75), Percentile(x, 25)), n, S))
    [] e.op = "quartiles" -> Need(e, T1(x), \A k \in 1..3 : Near26(r[k], Percentile(x, 25 * k), n, S))
    [] e.op = "mode" -> Need(e, T1(x), REq(r[1], Mode(x)))
    [] e.op = "mad" -> Need(e, T1(x), Close(r[1], MAD(x), 8, S))
    [] e.op = "geo" -> Need(e, T1(x) \/ ~RGt(Least(x), 0), GeoOk(x, r[1]))
    [] e.op = "harm" -> Need(e, T1(x) \/ ~RGt(Least(x), 0), Near26(r[1], Harmonic(x), n, Harmonic(x)))
    [] e.op = "pct" -> Need(e, T1(x) \/ ~(RGe(e.p, 0) /\ RLe(e.p, 100)), Near26(r[1], Percentile(x, e.p), n, S))
    [] e.op = "trim" -> Need(e, T1(x) \/ ~(RGe(e.p, 0) /\ RLt(e.p, 50)),
          LET q == RDiv(RMul(n, e.p), 100) k == RToInt(q)
          IN \E c \in {k} \cup (IF RLt(RSub(RAdd(k, 1), q), "1e-12") THEN {k + 1} ELSE {}) \cup (IF RLt(RSub(q, k), "1e-12") /\ k > 0 THEN {k - 1} ELSE {}) : Near26(r[1], TrimmedBy(x, c), n, S))
    [] e.op = "ranks" -> Given(e) /\ Chk("ranks", SeqREq(r, Ranks(x)))
Two(e) ==
  LET x == e.x y == e.y r == e.r n == N(e.x) badsize == N(e.x) # N(e.y)
      cor(t) == Lost(x) \/ Lost(y) \/ CorOk(x, y, t)
      rx == Ranks(x) ry == Ranks(y)
      z(t, v) == Close(v, RMul(t, RSqrt(n - 1)), 8, 4)
  IN Chk("sample untouched", e.same) /\
  CASE e.op = "cov" -> Need(e, badsize \/ T2(x), CovOk(x, y, r[1]))
    [] e.op = "cor" -> Need(e, badsize \/ T2(x) \/ Deg(x) \/ Deg(y), cor(r[1]))
    [] e.op = "r2" -> Need(e, badsize \/ T2(x) \/ Deg(x) \/ Deg(y), Lost(x) \/ Lost(y) \/
          (RGe(r[1], 0) /\ Near26(r[1], RDiv(RPow(Cov(x, y), 2), RMul(Var(x), Var(y))), 4 * n, RAdd(Cond(x), Cond(y)))))
    [] e.op = "cortest" -> Need(e, badsize \/ n < 3 \/ Deg(x) \/ Deg(y),
          /\ cor(r[1]) /\ REq(r[3], n - 2)
          /\ LET q == RSub(1, RMul(r[1], r[1]))
             IN IF RLe(q, RMul(8, Eps)) THEN (r[2] = (IF RGt(r[1], 0) THEN "inf" ELSE "-inf")) \/ (RIsNum(r[2]) /\ RSgn(r[2]) = RSgn(r[1]) /\ RGe(RAbs(r[2]), 1000000))
                ELSE RIsNum(r[2]) /\ (REq(r[1], 0) => REq(r[2], 0)) /\ RSgn(r[1]) = RSgn(r[2])
                     /\ LET t2 == RDiv(RMul(RMul(r[1], r[1]), n - 2), q) IN Within(RMul(r[2], r[2]), t2, RMul(t2, RDiv(RMul(32, Eps), q))))
    [] e.op = "spear" -> Need(e, badsize \/ T2(x) \/ Deg(x) \/ Deg(y), CorOk(rx, ry, r[1]))
    [] e.op = "speartest" -> Need(e, badsize \/ n < 3 \/ Deg(x) \/ Deg(y), CorOk(rx, ry, r[1]) /\ z(r[1], r[2]) /\ REq(r[3], n))
    \* Kendall's coefficient of a constant sample is 0/0: refused or reported as no association
    [] e.op = "kend" -> IF badsize \/ T2(x) THEN Refused(e) ELSE IF Deg(x) \/ Deg(y) THEN Chk("degenerate", e.err = "StatisticsError" \/ REq(r[1], 0)) ELSE Given(e) /\ Chk("value", KenOk(x, y, r[1]))
    [] e.op = "kendtest" -> IF badsize \/ n < 3 THEN Refused(e) ELSE IF Deg(x) \/ Deg(y) THEN Chk("degenerate", e.err = "StatisticsError" \/ (REq(r[1], 0) /\ REq(r[2], 0)))
          ELSE Given(e) /\ Chk("value", KenOk(x, y, r[1]) /\ REq(r[3], n) /\ LET v == RDiv(2 * (2 * n + 5), 9 * n * (n - 1)) IN RSgn(r[1]) = RSgn(r[2]) /\ CloseRel(RMul(RMul(r[2], r[2]), v), RMul(r[1], r[1]), 32))
    [] e.op = "wmean" -> Need(e, T1(x) \/ badsize \/ (\E i \in Idx(y) : RLt(y[i], 0)) \/ ~RGt(RSum(y), 0), Near26(r[1], WMean(x, y), n, Size(x)))
    [] e.op = "wvar" -> IF T2(x) \/ badsize \/ (\E i \in Idx(y) : RLt(y[i], 0)) \/ RLe(RSum(y), RSub(1, "1e-12")) THEN Refused(e)
          ELSE IF RLe(RSum(y), RAdd(1, "1e-12")) THEN TRUE
          ELSE Given(e) /\ Chk("value", LET v == WVar(x, y) W == RDiv(RSum(y), RSub(RSum(y), 1)) IN RGe(r[1], 0) /\ Near26(r[1], v, n, RMul(RMul(W, W), RAdd(v, RAdd(RMul(RSqrt(v), Size(x)), RMul(Eps, RPow(Size(x), 2)))))))
Mats(e) ==
  LET p == Len(e.cols) c(j) == e.cols[j]
  IN IF e.n < 2 \/ (e.op = "cormat" /\ \E j \in 1..p : Deg(c(j))) THEN Refused(e)
     ELSE /\ Given(e) /\ Chk("shape", Len(e.m) = p)
          /\ \A i \in 1..p, j \in 1..p : Chk("entry", REq(e.m[i][j], e.m[j][i]) /\
                IF e.op = "covmat" THEN CovOk(c(i), c(j), e.m[i][j]) ELSE Lost(c(i)) \/ Lost(c(j)) \/ (CorOk(c(i), c(j), e.m[i][j]) /\ (i = j => Close(e.m[i][j], 1, 8, 1))))
(* ---- hypothesis tests: statistic, degrees of freedom, decision ---- *)
BadA(e) == ~(RGt(e.alpha, 0) /\ RLt(e.alpha, 1))
Diff(g) == <<>> \o [i \in Idx(g[1]) |-> RKeep(RSub(g[2][i], g[1][i]))]
\* |t| se = |m|, to the error of both
TOk(t, m, se, cond, n, S) == Near26(RMul(t, se), m, n, RAdd(RMul(8, S), RMul(RAbs(m), RMul(8, cond))))
OneT(e, x, mu) ==
  IF T2(x) \/ BadA(e) THEN Refused(e)
  ELSE IF Deg(x) THEN Chk("degenerate", e.err = "StatisticsError" \/ (IF REq(x[1], mu) THEN REq(e.r.t, 0) /\ ~e.r.rej ELSE (RSgn(e.r.t) = RSgn(RSub(x[1], mu)) /\ e.r.rej) \/ Within(x[1], mu, RMul(2, Eps))))
  ELSE /\ Given(e) /\ Chk("degrees of freedom", e.r.df = N(x) - 1)
       /\ Chk("statistic", Lost(x) \/ TOk(e.r.t, RSub(Mean(x), mu), RSqrt(RDiv(Var(x), N(x))), Cond(x), N(x), RAdd(Size(x), RAbs(mu))))
TwoT(e, x, y) ==
  LET n == N(x) m == N(y)
      pv == RDiv(RAdd(PowSum(x, 2), PowSum(y, 2)), n + m - 2)
      se == IF e.kind = "two" THEN RSqrt(RMul(pv, RAdd(RDiv(1, n), RDiv(1, m)))) ELSE RSqrt(RAdd(RDiv(Var(x), n), RDiv(Var(y), m)))
      S == RAdd(Size(x), Size(y))
      s1 == RDiv(Var(x), n) s2 == RDiv(Var(y), m)
      v == RDiv(RPow(RAdd(s1, s2), 2), RAdd(RDiv(RPow(s1, 2), n - 1), RDiv(RPow(s2, 2), m - 1)))
      lost == RGt(RMul(RMul(Eps, 10000), S), se)
  IN IF T2(x) \/ T2(y) \/ BadA(e) \/ (Deg(x) /\ Deg(y)) THEN Refused(e)
     ELSE /\ Given(e)
          /\ Chk("degrees of freedom", IF e.kind = "two" THEN e.r.df = n + m - 2 ELSE lost \/ \E d \in {"0", "1e-6", "-1e-6"} : e.r.df = RToInt(RAdd(v, d)))
          /\ Chk("statistic", lost \/ TOk(e.r.t, RSub(Mean(x), Mean(y)), se, RAdd(1, RDiv(S, se)), n + m, S))
Gof(e, o, x) ==
  LET so == RSum(o) sx == RSum(x) bad == N(o) < 2 \/ N(o) # N(x) \/ BadA(e) \/ (\E i \in Idx(o) : RLt(o[i], 0)) \/ (\E i \in Idx(x) : RLe(x[i], 0))
      far(t) == RGt(RAbs(RSub(so, sx)), RMul(t, RMax(so, sx)))
      c2 == RSum([i \in Idx(o) |-> RDiv(RPow(RSub(o[i], x[i]), 2), x[i])])
      er == RSum([i \in Idx(o) |-> RDiv(RMul(RAbs(RSub(o[i], x[i])), RAdd(o[i], x[i])), x[i])])
  IN IF bad \/ far("1.01e-6") THEN Refused(e)
     ELSE IF far("0.99e-6") THEN TRUE
     ELSE Given(e) /\ Chk("degrees of freedom", e.r.df = N(o) - 1) /\ Chk("statistic", Near26(e.r.t, c2, N(o), RAdd(c2, er)))
Indep(e, g) ==
  LET a == Len(g) b == IF a = 0 THEN 0 ELSE Len(g[1])
      row == [i \in 1..a |-> RKeep(RSum(g[i]))] col == [j \in 1..b |-> RKeep(RSum([i \in 1..a |-> g[i][j]]))]
      tot == RKeep(RSum(row)) x(i, j) == RDiv(RMul(row[i], col[j]), tot)
      c2 == RSum([i \in 1..a |-> RSum([j \in 1..b |-> RDiv(RPow(RSub(g[i][j], x(i, j)), 2), x(i, j))])])
  IN IF a < 2 \/ b < 2 \/ BadA(e) \/ (\E i \in 1..a, j \in 1..b : RLt(g[i][j], 0)) \/ (\E i \in 1..a : REq(row[i], 0)) \/ (\E j \in 1..b : REq(col[j], 0)) THEN Refused(e)
     ELSE Given(e) /\ Chk("degrees of freedom", e.r.df = (a - 1) * (b - 1)) /\ Chk("statistic", Near26(e.r.t, c2, a * b, RAdd(c2, tot)))
Anova(e, g) ==
  LET k == Len(g) nn == [i \in 1..k |-> N(g[i])]
      RECURSIVE Cat(_)
      Cat(i) == IF i > k THEN <<>> ELSE g[i] \o Cat(i + 1)
      all == Cat(1) gm == Mean(all) Nn == Len(all) S == Size(all)
      ssb == RSum([i \in 1..k |-> RMul(nn[i], RPow(RSub(Mean(g[i]), gm), 2))])
      ssw == RSum([i \in 1..k |-> PowSum(g[i], 2)])
      msb == RDiv(ssb, k - 1) msw == RDiv(ssw, Nn - k)
      sl(v) == RAdd(v, RAdd(RMul(RSqrt(v), S), RMul(Eps, RMul(S, S))))
  IN IF k < 2 \/ (\E i \in 1..k : nn[i] < 2) \/ BadA(e) \/ (\A i \in 1..k : Constant(g[i])) THEN Refused(e)
     ELSE /\ Given(e) /\ Chk("degrees of freedom", e.r.df = k - 1)
          /\ Chk("statistic", RGe(e.r.t, 0) /\ Close(RMul(e.r.t, msw), msb, 64 * (Nn + 2), RAdd(sl(msb), RMul(e.r.t, sl(msw)))))
Decide(e) == /\ Chk("tail value of the statistic", e.eref = "" /\ (RIsNum(e.r.p) /\ REq(e.r.p, e.pref)))
             /\ Chk("critical value", REq(e.r.crit, e.cref)) /\ Chk("level", Close(e.r.conf, RSub(1, e.alpha), 4, 1))
             /\ Chk("decision", e.r.rej = RGt(IF e.kind \in {"one", "two", "welch", "paired"} THEN RAbs(e.r.t) ELSE e.r.t, e.r.crit))
SameT(a, b) == a.df = b.df /\ a.rej = b.rej /\ REq(a.t, b.t) /\ REq(a.p, b.p) /\ REq(a.crit, b.crit) /\ REq(a.conf, b.conf)
Test(e) ==
  LET g == e.g
  IN /\ CASE e.kind = "one" -> OneT(e, g[1], e.mu)
          [] e.kind = "paired" -> IF Len(g[1]) # Len(g[2]) THEN Refused(e) ELSE OneT(e, Diff(g), 0)
          [] e.kind \in {"two", "welch"} -> TwoT(e, g[1], g[2])
          [] e.kind = "gof" -> Gof(e, g[1], g[2])
          [] e.kind = "indep" -> Indep(e, g)
          [] e.kind = "anova" -> Anova(e, g)
     /\ e.err = "" => (e.kind \in {"one", "paired"} /\ LET x == IF e.kind = "one" THEN g[1] ELSE Diff(g) IN Deg(x) \/ (Lost(x) /\ e.r.rej /\ REq(e.r.p, 0))) \/ Decide(e)
     \* the detailed form is the same test, with the failure as a status or as an exception
     /\ Chk("detailed form", e.ed = "" /\ e.ok = (e.err = "") /\ (e.ok => SameT(e.r, e.d)) /\ e.ed2 = e.err /\ (e.ok => SameT(e.r, e.d2)))
(* ---- confidence intervals ---- *)
CI(e) ==
  LET g == e.g k == e.kind
      badc == ~(RGt(e.conf, 0) /\ RLt(e.conf, 1))
      p(i) == RDiv(g[i][1], g[i][2])
      badp(i) == g[i][2] <= 0 \/ g[i][1] < 0 \/ g[i][1] > g[i][2]
      pq(i) == RDiv(RMul(p(i), RSub(1, p(i))), g[i][2])
      bad == CASE k = "mean" -> T2(g[1]) [] k = "diff" -> T2(g[1]) \/ T2(g[2]) [] k = "paired" -> Len(g[1]) # Len(g[2]) \/ T2(g[1])
               [] k = "prop" -> badp(1) [] k = "propdiff" -> badp(1) \/ badp(2)
      x == IF k = "paired" THEN Diff(g) ELSE g[1]
      n == N(x) m == N(g[2])
      est == CASE k \in {"mean", "paired"} -> Mean(x) [] k = "diff" -> RSub(Mean(x), Mean(g[2])) [] k = "prop" -> p(1) [] k = "propdiff" -> RSub(p(1), p(2))
      se2 == CASE k \in {"mean", "paired"} -> RDiv(Var(x), n)
               [] k = "diff" -> RMul(RDiv(RAdd(PowSum(x, 2), PowSum(g[2], 2)), n + m - 2), RAdd(RDiv(1, n), RDiv(1, m)))
               [] k = "prop" -> pq(1) [] k = "propdiff" -> RAdd(pq(1), pq(2))
      S == CASE k \in {"mean", "paired"} -> Size(x) [] k = "diff" -> RAdd(Size(x), Size(g[2])) [] OTHER -> 1
      c == IF k \in {"prop", "propdiff"} THEN 20 ELSE n + 20
      clip(v) == IF k = "prop" THEN RMax(0, RMin(1, v)) ELSE v
      r == e.r
  IN /\ IF bad \/ badc THEN Refused(e)
        ELSE /\ Given(e) /\ Chk("estimate", Near26(r.est, est, c, S)) /\ Chk("level", REq(r.conf, e.conf))
             /\ Chk("margin", RGe(r.marg, 0) /\ LET q2 == RMul(e.q, e.q) v == RMul(q2, se2) IN Near26(RMul(r.marg, r.marg), v, c, RMul(RAdd(1, q2), RAdd(se2, RAdd(RMul(RSqrt(se2), S), RMul(Eps, RMul(S, S)))))))
             /\ Chk("bounds", Near26(r.lo, clip(RSub(r.est, r.marg)), c, RAdd(S, r.marg)) /\ Near26(r.hi, clip(RAdd(r.est, r.marg)), c, RAdd(S, r.marg)))
     /\ Chk("detailed form", e.ed = "" /\ e.ok = (e.err = "") /\ (e.ok => REq(e.d.est, r.est) /\ REq(e.d.lo, r.lo) /\ REq(e.d.hi, r.hi) /\ REq(e.d.marg, r.marg) /\ REq(e.d.conf, r.conf)))
Ok(s, e) == CASE e.op = "test" -> Test(e) [] e.op = "ci" -> CI(e) [] e.op \in {"covmat", "cormat"} -> Mats(e) [] Has(e, "y") -> Two(e) [] OTHER -> One(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
