---------------------------- MODULE InterpTrace ----------------------------
(* Validates recorded interpolants.  The state is the interpolant made last;   *)
(* every query must be answered from it, whatever was asked before.            *)
EXTENDS Interp, TraceFile
VARIABLES h, l, st, dead
E(k) == RMul(k, Eps)
Mag(y) == <<>> \o [i \in 1..Len(y) |-> RAbs(y[i])]
Ones(n) == [i \in 1..n |-> 1]
\* --- rounding of a spline whose data have the magnitudes ym ---
TolM(x, ym, s1, sn) == RMul(E(64 * Len(x)), SplineScale(x, ym, s1, sn))
AB(x, i, t) == LET a == RDiv(RSub(x[i + 1], t), Hh(x, i)) IN <<RAbs(a), RAbs(RSub(1, a))>>
TolAt(x, ym, M, tm, i, t) == LET ab == AB(x, i, t) a == ab[1] b == ab[2] hh == RMul(Hh(x, i), Hh(x, i)) mm == RAdd(tm, RMul(E(16), RMax(RAbs(M[i]), RAbs(M[i + 1]))))
  IN RAdd(RMul(E(16), RAdd(RMul(a, ym[i]), RMul(b, ym[i + 1]))), RMul(RMul(hh, mm), RAdd(RAdd(RPow(a, 3), a), RAdd(RPow(b, 3), b))))
TolD1(x, ym, M, tm, i, t) == LET ab == AB(x, i, t) h1 == RAbs(Hh(x, i)) mm == RAdd(tm, RMul(E(16), RMax(RAbs(M[i]), RAbs(M[i + 1]))))
  IN RAdd(RDiv(RMul(E(16), RAdd(ym[i], ym[i + 1])), h1), RMul(RMul(h1, mm), RAdd(1, RAdd(RMul(ab[1], ab[1]), RMul(ab[2], ab[2])))))
TolD2(x, M, tm, i, t) == LET ab == AB(x, i, t) IN RMul(RAdd(ab[1], ab[2]), RAdd(tm, RMul(E(16), RMax(RAbs(M[i]), RAbs(M[i + 1])))))
\* --- one-dimensional interpolants ---
Make(e) ==
  LET n == Len(e.x)
  IN /\ Chk("no exception", e.err = "") /\ Chk("range", REq(e.lo, Low(e.x)) /\ REq(e.hi, High(e.x)))
     /\ (Has(e, "M") => Chk("second derivatives and end conditions", LET M == SplineM(e.x, e.y, e.s1, e.sn) tm == TolM(e.x, Mag(e.y), e.s1, e.sn) IN Len(e.M) = n /\ \A i \in 1..n : Within(e.M[i], M[i], tm)))
     /\ (Has(e, "w") => Chk("weights", Len(e.w) = n /\ \A k \in 1..n : LET w == FHWeight(e.x, e.d, k) IN Close(e.w[k], w, 16 * n, RAbs(w))))
Linear(s, e) == IF ~Inside(s.x, e.t) /\ ~s.ex THEN REq(e.v, 0)
  ELSE \E i \in Cells(s.x, e.t) : LET b == RDiv(RSub(e.t, s.x[i]), Hh(s.x, i)) IN Within(e.v, RAdd(s.y[i], RMul(b, RSub(s.y[i + 1], s.y[i]))), RMul(E(8), RMul(RAdd(RAbs(s.y[i]), RAbs(s.y[i + 1])), RAdd(1, RAbs(b)))))
Slices(m) == {<<a, k>> \in (1..m) \X (1..m) : a + k - 1 <= m}
\* the sum of F over the runs of at least k of m nodes
SumRuns(m, k, F(_)) == RSum([i \in 1..(m * m) |-> LET c == <<((i - 1) \div m) + 1, ((i - 1) % m) + 1>> IN IF c[2] >= k /\ c[1] + c[2] - 1 <= m THEN F(c) ELSE 0])
PolyOn(s, e, a) ==
  LET m == s.m x == Slice(s.x, a, m) y == Slice(s.y, a, m) v == PolyAt(x, y, e.t)
      cond(c) == PolyCond(Slice(x, c[1], c[2]), Slice(y, c[1], c[2]), e.t) tol == RMul(E(16 * m), SumRuns(m, 1, cond))
  IN /\ Within(e.v, v, tol)
     \* the estimate is the step from a polynomial through one node less
     /\ \E b \in 1..2 : Within(e.ee, RSub(v, PolyAt(Slice(x, b, m - 1), Slice(y, b, m - 1), e.t)), tol)
\* rational data may allow fewer nodes to determine the function
RECURSIVE RatVal(_, _, _)
RatVal(x, y, t) == IF REq(RatDen(x, y, t), 0) THEN IF Len(x) > 1 /\ REq(RatNum(x, y, t), 0) THEN RatVal(Slice(x, 1, Len(x) - 1), Slice(y, 1, Len(y) - 1), t) ELSE "pole" ELSE RatAt(x, y, t)
Bump(y, i) == [y EXCEPT ![i] = RAdd(y[i], RMul("1e-9", RMaxAbs(y)))]
RatOn(s, e, a) ==
  LET m == s.m x == Slice(s.x, a, m) y == <<>> \o Slice(s.y, a, m) node == \E i \in 1..m : REq(x[i], e.t) sub == {c \in Slices(m) : c[2] > 1}
      poleish == \E c \in sub : REq(RatDen(Slice(x, c[1], c[2]), Slice(y, c[1], c[2]), e.t), 0)
      \* some run of the nodes has no rational function through it
      lost == \E c \in sub : LET xx == Slice(x, c[1], c[2]) yy == <<>> \o Slice(y, c[1], c[2]) IN \E i \in 1..c[2] : REq(RatDen(xx, yy, xx[i]), 0)
      const == \A i \in 1..m : REq(y[i], y[1])
  IN IF node THEN e.err = "" /\ \E i \in 1..m : REq(x[i], e.t) /\ REq(e.v, y[i])
     ELSE IF const THEN e.err = "" /\ Close(e.v, y[1], 16, RAbs(y[1]))
     ELSE IF e.err # "" THEN poleish \/ lost
     ELSE IF poleish \/ lost THEN TRUE
     ELSE LET v == RatAt(x, y, e.t) d(i) == RAbs(RSub(RatAt(x, Bump(y, i), e.t), v)) cond == RSum([i \in 1..m |-> d(i)])
              inner(c) == LET xx == Slice(x, c[1], c[2]) yy == <<>> \o Slice(y, c[1], c[2]) IN RAbs(RatAt(xx, yy, e.t))
          IN RGt(cond, RMul("1e-3", RAdd(RAbs(v), RMaxAbs(y)))) \/ Within(e.v, v, RAdd(RMul("1e-4", cond), RMul(IF m > 3 THEN "1e-7" ELSE "1e-11", RAdd(RMaxAbs(y), SumRuns(m, 2, inner)))))
Bary(s, e) ==
  LET n == Len(s.x) IN
  IF \E i \in 1..n : REq(s.x[i], e.t) THEN \E i \in 1..n : REq(s.x[i], e.t) /\ REq(e.v, s.y[i])
  ELSE LET b == <<>> \o [i \in 1..n |-> RKeep(RRnd(RDiv(FHWeight(s.x, s.d, i), RSub(e.t, s.x[i])), 300))] v == FHAt(s.x, s.y, s.d, e.t)
       IN Within(e.v, v, RDiv(RMul(E(24 * n), RAdd(RSum([i \in 1..n |-> RAbs(RMul(b[i], s.y[i]))]), RMul(RAbs(v), RSumAbs(b)))), RAbs(RSum(b))))
Spl(s, e) ==
  LET ym == Mag(s.y) tm == TolM(s.x, ym, s.s1, s.sn)
  IN \E i \in Cells(s.x, e.t) :
       /\ Within(e.v, SplAt(s.x, s.y, s.MM, i, e.t), TolAt(s.x, ym, s.MM, tm, i, e.t))
       /\ Within(e.d1, SplD1(s.x, s.y, s.MM, i, e.t), TolD1(s.x, ym, s.MM, tm, i, e.t))
       /\ Within(e.d2, SplD2(s.x, s.y, s.MM, i, e.t), TolD2(s.x, s.MM, tm, i, e.t))
NodeValue(s, e) == \A i \in 1..Len(s.x) : REq(s.x[i], e.t) => Close(e.v, s.y[i], 32, RMaxAbs(s.y))
At(s, e) ==
  /\ (e.k # "rational" => Chk("no exception", e.err = "")) /\ (e.err = "" => Chk("node value", NodeValue(s, e)))
  /\ Chk("value", CASE e.k = "linear" -> Linear(s, e) [] e.k = "poly" -> \E a \in Stencils(s.x, e.t, s.m) : PolyOn(s, e, a)
                    [] e.k = "rational" -> \E a \in Stencils(s.x, e.t, s.m) : RatOn(s, e, a) [] e.k = "bary" -> Bary(s, e) [] e.k = "spline" -> Spl(s, e))
Area(s, e) ==
  IF ~Inside(s.x, e.a) \/ ~Inside(s.x, e.b) THEN Chk("outside the data", e.err # "")
  ELSE LET lo == RMin(e.a, e.b) hi == RMax(e.a, e.b) I == SplIntegral(s.x, s.y, s.MM, lo, hi) ym == Mag(s.y) tm == TolM(s.x, ym, s.s1, s.sn) n == Len(s.x)
           tol == RSum([i \in 1..(n - 1) |-> LET h1 == RAbs(Hh(s.x, i)) IN RMul(h1, RAdd(RMul(E(16), RAdd(ym[i], ym[i + 1])), RMul(RMul(h1, h1), RAdd(tm, RMul(E(16), RAdd(RAbs(s.MM[i]), RAbs(s.MM[i + 1]))))))) ])
       IN Chk("no exception", e.err = "") /\ Chk("integral of the spline", Within(e.v, IF RLe(e.a, e.b) THEN I ELSE RNeg(I), tol))
\* --- grids ---
Bil(s, e) == \E i \in Cells(s.x, e.s), j \in Cells(s.y, e.t) :
  LET a == AB(s.x, i, e.s) b == AB(s.y, j, e.t) Z == RMaxAbs(<<s.z[i][j], s.z[i + 1][j], s.z[i][j + 1], s.z[i + 1][j + 1]>>) w == RMul(RMul(E(32), Z), RMul(RAdd(a[1], a[2]), RAdd(b[1], b[2])))
      v == BiAt(s.x, s.y, s.z, i, j, e.s, e.t)
  IN /\ Within(e.v, v, w) /\ Within(e.w, v, w) /\ Within(e.d1, BiD1(s.x, s.y, s.z, i, j, e.t), RDiv(w, RAbs(Hh(s.x, i)))) /\ Within(e.d2, BiD2(s.x, s.y, s.z, i, j, e.s), RDiv(w, RAbs(Hh(s.y, j))))
Bic(s, e) == LET m == Len(s.x) IN \E j \in Cells(s.y, e.t), i \in Cells(s.x, e.s) :
  LET tmr(r) == TolM(s.y, Mag(s.z[r]), <<>>, <<>>)
      v == <<>> \o [r \in 1..m |-> RKeep(SplAt(s.y, s.z[r], s.MM[r], j, e.t))] d == <<>> \o [r \in 1..m |-> RKeep(SplD1(s.y, s.z[r], s.MM[r], j, e.t))]
      vm == <<>> \o [r \in 1..m |-> RKeep(RAdd(RAbs(v[r]), RDiv(TolAt(s.y, Mag(s.z[r]), s.MM[r], tmr(r), j, e.t), Eps)))]
      dm == <<>> \o [r \in 1..m |-> RKeep(RAdd(RAbs(d[r]), RDiv(TolD1(s.y, Mag(s.z[r]), s.MM[r], tmr(r), j, e.t), Eps)))]
      M == SplineM(s.x, v, <<>>, <<>>) K == SplineM(s.x, d, <<>>, <<>>) tv == TolM(s.x, vm, <<>>, <<>>) td == TolM(s.x, dm, <<>>, <<>>)
      r == SplAt(s.x, v, M, i, e.s) w == TolAt(s.x, vm, M, tv, i, e.s)
  IN Within(e.v, r, w) /\ Within(e.w, r, w) /\ Within(e.d1, SplD1(s.x, v, M, i, e.s), TolD1(s.x, vm, M, tv, i, e.s)) /\ Within(e.d2, SplAt(s.x, d, K, i, e.s), TolAt(s.x, dm, K, td, i, e.s))
GridNode(s, e) == \A i \in 1..Len(s.x), j \in 1..Len(s.y) : (REq(s.x[i], e.s) /\ REq(s.y[j], e.t)) => Close(e.v, s.z[i][j], 64, RMaxAbs([r \in 1..Len(s.x) |-> RMaxAbs(s.z[r])]))
\* --- curves ---
Frac(t) == RSub(t, RFloor(t))
Param(s, t) == LET u == RDiv(RSub(t, s.lo), RSub(s.hi, s.lo)) IN IF s.close THEN Frac(u) ELSE u
Line(s, e) ==
  LET u == Param(s, e.t) w == IF s.close THEN u ELSE RMax(0, RMin(1, u)) q == s.q n == Len(q) c == s.c L == c[n] big == RAdd(L, RMaxAbs([i \in 1..n |-> RMaxAbs(q[i])])) d == RMul("1e-13", L)
      on(i) == LET a == RDiv(RSub(RMul(w, L), c[i]), RSub(c[i + 1], c[i])) IN \A k \in 1..Len(e.v) : Within(e.v[k], IF REq(c[i], c[i + 1]) THEN q[i][k] ELSE RAdd(q[i][k], RMul(a, RSub(q[i + 1][k], q[i][k]))), RMul(E(32 * n), big))
      wrap(v) == \A k \in 1..Len(e.v) : Within(e.v[k], q[1][k], RMul(E(32 * n), big))
  IN \/ REq(L, 0) /\ wrap(0)
     \/ \E i \in 1..(n - 1) : RGe(RMul(w, L), RSub(c[i], d)) /\ RLe(RMul(w, L), RAdd(c[i + 1], d)) /\ on(i)
     \/ s.close /\ (RLe(w, "1e-13") \/ RGe(w, "0.9999999999999")) /\ wrap(0)
Smooth(s, e) ==
  LET u == Param(s, e.t) IN
  \A k \in 1..Len(e.v) : LET y == [i \in 1..Len(s.q) |-> s.q[i][k]] IN
    \E i \in Cells(s.c, u) : Within(e.v[k], SplAt(s.c, y, s.MM[k], i, u), RMul(RMul("1e-11", RAdd(RMaxAbs(y), RMaxAbs(s.MM[k]))), RPow(RAdd(1, RAbs(u)), 3)))
Point(s, e) ==
  IF s.close /\ s.k = "spline" /\ (RLt(e.t, s.lo) \/ RGt(e.t, s.hi)) THEN Chk("outside the parameters", e.err # "")
  ELSE Chk("no exception", e.err = "") /\ Chk("point", IF s.k = "line" THEN Line(s, e) ELSE Smooth(s, e))
\* the points a curve runs through, with a closed one continued on both sides
Run(e) == LET n == Len(e.p) IN IF ~e.close THEN e.p ELSE IF e.k = "line" THEN Append(e.p, e.p[1]) ELSE <<>> \o [i \in 1..(2 * n) |-> e.p[((i - 1 - (n \div 2) + n) % n) + 1]]
Pars(e, q) == LET c == Chords(q) n == Len(e.p) o == n \div 2 IN
  IF e.k = "line" THEN c ELSE IF e.close THEN <<>> \o [i \in 1..Len(c) |-> RKeep(RRnd(RDiv(RSub(c[i], c[o + 1]), RSub(c[o + n + 1], c[o + 1])), 200))] ELSE <<>> \o [i \in 1..n |-> RKeep(RRnd(RDiv(c[i], c[n]), 200))]
Back4(s) == <<s[Len(s)], s[Len(s) - 1], s[Len(s) - 2], s[Len(s) - 3]>>
EndSlopes(c, y) == IF Len(c) < 4 THEN <<<<>>, <<>>>> ELSE <<<<RKeep(RRnd(SlopeAt1(Slice(c, 1, 4), Slice(y, 1, 4)), 200))>>, <<RKeep(RRnd(SlopeAt1(Back4(c), Back4(y)), 200))>>>>
Twice(e) == \E i \in 1..Len(e.p) : (e.close \/ i < Len(e.p)) /\ e.p[i] = e.p[(i % Len(e.p)) + 1]
Bad(e) ==
  LET wrong(m) == m < 2 \/ m > e.n
  IN /\ Chk("orders", (e.poly # "") = wrong(e.m) /\ (e.rat # "") = wrong(e.m) /\ (e.bary # "") = (e.m < 1 \/ e.m > e.n))
     /\ Chk("duplicate nodes", (e.lin # "") = e.dup /\ (e.spl # "") = e.dup) /\ Chk("grid sizes", e.bi # "" /\ e.bc # "")
Ok(s, e) == CASE e.op = "make" -> Make(e) [] e.op = "at" -> At(s, e) [] e.op = "area" -> Area(s, e)
  [] e.op = "grid" -> Chk("grid sizes", e.dim = <<Len(e.x), Len(e.y)>>) [] e.op = "on" -> Chk("node value", GridNode(s, e)) /\ Chk("value", IF s.k = "bilinear" THEN Bil(s, e) ELSE Bic(s, e))
  [] e.op = "curve" -> Chk("range", REq(e.min, e.lo) /\ REq(e.max, e.hi)) [] e.op = "point" -> Point(s, e) [] e.op = "refused" -> Chk("no exception", Twice(e)) [] e.op = "bad" -> Bad(e)
Upd(s, e) ==
  CASE e.op = "make" -> IF e.k = "spline" THEN [MM |-> SplineM(e.x, e.y, e.s1, e.sn)] @@ e ELSE e
    [] e.op = "grid" -> IF e.k = "bicubic" THEN [MM |-> <<>> \o [r \in 1..Len(e.x) |-> SplineM(e.y, e.z[r], <<>>, <<>>)]] @@ e ELSE e
    [] e.op = "curve" -> LET q == Run(e) c == Pars(e, q) N == Len(q[1])
                             m(k) == LET y == [i \in 1..Len(q) |-> q[i][k]] b == EndSlopes(c, y) IN SplineM(c, y, b[1], b[2])
                         IN [q |-> q, c |-> c, MM |-> IF e.k = "line" THEN <<>> ELSE <<>> \o [k \in 1..N |-> m(k)]] @@ e
    [] OTHER -> s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
