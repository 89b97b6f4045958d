------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation.  Finding the interval of a query is the machine that       *)
(* halves a bracket of node indices; every interpolant is then defined by    *)
(* what it is, not by how it is evaluated: the polynomial through m          *)
(* neighbouring nodes, the rational function of diagonal degrees through     *)
(* them, Floater and Hormann's blend of local polynomials, the cubic spline  *)
(* whose second derivatives satisfy the continuity equations.                *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
\* --- locating a query: nodes ascending or descending, indices from 1 ---
Up(x) == RLt(x[1], x[Len(x)])
Monotone(x) == \A i \in 1..(Len(x) - 1) : IF Up(x) THEN RLt(x[i], x[i + 1]) ELSE RGt(x[i], x[i + 1])
Low(x) == RMin(x[1], x[Len(x)])
High(x) == RMax(x[1], x[Len(x)])
Inside(x, t) == RGe(t, Low(x)) /\ RLe(t, High(x))
HalveBracket(x, t, lo, hi) == LET mid == (lo + hi) \div 2 IN IF (IF Up(x) THEN RGe(t, x[mid]) ELSE RLt(t, x[mid])) THEN <<mid, hi>> ELSE <<lo, mid>>
\* the intervals a query may be answered from: one, or two when it hits an inner node
Cells(x, t) == LET n == Len(x) in(i) == RLe(RMul(RSub(t, x[i]), RSub(t, x[i + 1])), 0)
               IN IF Inside(x, t) THEN {i \in 1..(n - 1) : in(i)} ELSE IF RLt(t, Low(x)) = Up(x) THEN {1} ELSE {n - 1}
\* m neighbouring nodes as centred about the query's interval as possible
Clip(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
Stencils(x, t, m) == {Clip(i - d, 1, Len(x) - m + 1) : i \in Cells(x, t), d \in {(m - 2) \div 2, (m - 1) \div 2}}
\* --- polynomial through the nodes x, y ---
Basis(x, i, t) == LET n == Len(x) RECURSIVE P(_)
                      P(j) == IF j > n THEN 1 ELSE IF j = i THEN P(j + 1) ELSE RMul(RDiv(RSub(t, x[j]), RSub(x[i], x[j])), P(j + 1)) IN P(1)
PolyAt(x, y, t) == RSum([i \in 1..Len(x) |-> RMul(y[i], Basis(x, i, t))])
PolyCond(x, y, t) == RSum([i \in 1..Len(x) |-> RAbs(RMul(y[i], Basis(x, i, t)))])
\* derivative at the first node
SlopeAt1(x, y) == LET n == Len(x) q(i) == LET RECURSIVE P(_)
                                              P(j) == IF j > n THEN 1 ELSE IF j \in {1, i} THEN P(j + 1) ELSE RMul(RDiv(RSub(x[1], x[j]), RSub(x[i], x[j])), P(j + 1)) IN P(1)
                  IN RSum([i \in 1..n |-> IF i = 1 THEN RMul(y[1], RSum([j \in 1..n |-> IF j = 1 THEN 0 ELSE RDiv(1, RSub(x[1], x[j]))])) ELSE RMul(y[i], RDiv(q(i), RSub(x[i], x[1])))])
Slice(s, a, m) == [i \in 1..m |-> s[a + i - 1]]
\* --- diagonal rational function: p(x_i) = y_i q(x_i), deg p + deg q = n - 1, deg q - deg p in {0, 1} ---
DegP(n) == (n - 1) \div 2
RatRow(n, t, y) == [k \in 1..(n + 1) |-> IF k <= DegP(n) + 1 THEN RPow(t, k - 1) ELSE RNeg(RMul(y, RPow(t, k - DegP(n) - 2)))]
RatNum(x, y, t) == LET n == Len(x) IN RDet([i \in 1..(n + 1) |-> IF i <= n THEN RatRow(n, x[i], y[i]) ELSE [k \in 1..(n + 1) |-> IF k <= DegP(n) + 1 THEN RPow(t, k - 1) ELSE 0]])
RatDen(x, y, t) == LET n == Len(x) IN RDet([i \in 1..(n + 1) |-> IF i <= n THEN RatRow(n, x[i], y[i]) ELSE [k \in 1..(n + 1) |-> IF k <= DegP(n) + 1 THEN 0 ELSE RPow(t, k - DegP(n) - 2)]])
RatAt(x, y, t) == RDiv(RatNum(x, y, t), RatDen(x, y, t))
\* --- Floater-Hormann: local polynomials of degree d blended with alternating weights ---
FHLam(x, d, i, t) == LET RECURSIVE P(_)
                         P(j) == IF j > i + d THEN 1 ELSE RMul(RSub(t, x[j]), P(j + 1)) IN RDiv(IF i % 2 = 1 THEN 1 ELSE 0 - 1, P(i))
FHAt(x, y, d, t) ==
  LET n == Len(x) - d lam == <<>> \o [i \in 1..n |-> RKeep(FHLam(x, d, i, t))]
  IN RDiv(RSum([i \in 1..n |-> RMul(lam[i], PolyAt(Slice(x, i, d + 1), Slice(y, i, d + 1), t))]), RSum(lam))
\* the weight of node k in barycentric form
FHWeight(x, d, k) ==
  LET n == Len(x) lo == IF k - d < 1 THEN 1 ELSE k - d hi == IF k > n - d THEN n - d ELSE k
      one(i) == LET RECURSIVE P(_)
                    P(j) == IF j > i + d THEN 1 ELSE IF j = k THEN P(j + 1) ELSE RMul(RSub(x[k], x[j]), P(j + 1)) IN RDiv(IF i % 2 = 1 THEN 1 ELSE 0 - 1, P(i))
  IN RSum([i \in 1..(hi - lo + 1) |-> one(lo + i - 1)])
\* --- cubic spline; the second derivatives M solve a tridiagonal system; no end slope (<<>>) is a natural end ---
Dd(x, y, i) == RDiv(RSub(y[i + 1], y[i]), RSub(x[i + 1], x[i]))
Hh(x, i) == RSub(x[i + 1], x[i])
\* rows sub, dia, sup, rhs of the continuity equations
SplineRow(x, y, s1, sn, i) ==
  LET n == Len(x)
  IN IF i = 1 THEN IF s1 = <<>> THEN <<0, 1, 0, 0>> ELSE <<0, 2, 1, RDiv(RMul(6, RSub(Dd(x, y, 1), s1[1])), Hh(x, 1))>>
     ELSE IF i = n THEN IF sn = <<>> THEN <<0, 1, 0, 0>> ELSE <<1, 2, 0, RDiv(RMul(6, RSub(sn[1], Dd(x, y, n - 1))), Hh(x, n - 1))>>
     ELSE LET w == RSub(x[i + 1], x[i - 1]) IN <<RDiv(Hh(x, i - 1), w), 2, RDiv(Hh(x, i), w), RDiv(RMul(6, RSub(Dd(x, y, i), Dd(x, y, i - 1))), w)>>
\* what the right-hand sides are made of (for rounding)
SplineScale(x, y, s1, sn) ==
  LET n == Len(x) a(v) == IF v = <<>> THEN 0 ELSE RAbs(v[1]) dd(i) == RDiv(RAdd(RAbs(y[i + 1]), RAbs(y[i])), RAbs(Hh(x, i)))
  IN RMaxAbs([i \in 1..n |-> IF i = 1 THEN RDiv(RMul(6, RAdd(dd(1), a(s1))), RAbs(Hh(x, 1))) ELSE IF i = n THEN RDiv(RMul(6, RAdd(dd(n - 1), a(sn))), RAbs(Hh(x, n - 1))) ELSE RDiv(RMul(6, RAdd(dd(i), dd(i - 1))), RAbs(RSub(x[i + 1], x[i - 1])))])
SplineM(x, y, s1, sn) ==
  LET n == Len(x) row == <<>> \o [i \in 1..n |-> LET r == SplineRow(x, y, s1, sn, i) IN <<r[1], r[2], r[3], r[4]>>]
      RECURSIVE Fwd(_, _)
      Fwd(i, acc) == IF i > n THEN acc ELSE
        LET r == row[i] k == IF i = 1 THEN 0 ELSE RDiv(r[1], acc[i - 1][1])
        IN Fwd(i + 1, Append(acc, IF i = 1 THEN <<RKeep(r[2]), RKeep(r[4])>> ELSE <<RKeep(RRnd(RSub(r[2], RMul(k, row[i - 1][3])), 240)), RKeep(RRnd(RSub(r[4], RMul(k, acc[i - 1][2])), 240))>>))
      f == Fwd(1, <<>>)
      RECURSIVE Back(_, _)
      Back(i, acc) == IF i < 1 THEN acc ELSE Back(i - 1, <<RKeep(RRnd(RDiv(IF i = n THEN f[i][2] ELSE RSub(f[i][2], RMul(row[i][3], acc[1])), f[i][1]), 240))>> \o acc)
  IN Back(n, <<>>)
\* value, first and second derivative on cell i, and the integral from t to u inside it
SplAt(x, y, M, i, t) == LET h == Hh(x, i) a == RDiv(RSub(x[i + 1], t), h) b == RSub(1, a)
  IN RAdd(RAdd(RMul(a, y[i]), RMul(b, y[i + 1])), RMul(RDiv(RMul(h, h), 6), RAdd(RMul(RSub(RPow(a, 3), a), M[i]), RMul(RSub(RPow(b, 3), b), M[i + 1]))))
SplD1(x, y, M, i, t) == LET h == Hh(x, i) a == RDiv(RSub(x[i + 1], t), h) b == RSub(1, a)
  IN RAdd(Dd(x, y, i), RMul(RDiv(h, 6), RSub(RMul(RSub(RMul(3, RMul(b, b)), 1), M[i + 1]), RMul(RSub(RMul(3, RMul(a, a)), 1), M[i]))))
SplD2(x, y, M, i, t) == LET h == Hh(x, i) a == RDiv(RSub(x[i + 1], t), h) IN RAdd(RMul(a, M[i]), RMul(RSub(1, a), M[i + 1]))
\* Simpson's rule is exact on a cubic
SplInt(x, y, M, i, t, u) == LET f(s) == SplAt(x, y, M, i, s) IN RMul(RDiv(RSub(u, t), 6), RAdd(RAdd(f(t), f(u)), RMul(4, f(RDiv(RAdd(t, u), 2)))))
SplIntegral(x, y, M, a, b) == \* a <= b inside the nodes
  RSum([i \in 1..(Len(x) - 1) |-> LET lo == RMax(a, RMin(x[i], x[i + 1])) hi == RMin(b, RMax(x[i], x[i + 1])) IN IF RLt(lo, hi) THEN SplInt(x, y, M, i, lo, hi) ELSE 0])
\* --- on a grid ---
BiAt(x, y, z, i, j, s, t) == LET a == RDiv(RSub(s, x[i]), Hh(x, i)) b == RDiv(RSub(t, y[j]), Hh(y, j)) c == RSub(1, a) d == RSub(1, b)
  IN RSum(<<RMul(RMul(c, d), z[i][j]), RMul(RMul(a, d), z[i + 1][j]), RMul(RMul(c, b), z[i][j + 1]), RMul(RMul(a, b), z[i + 1][j + 1])>>)
BiD1(x, y, z, i, j, t) == LET b == RDiv(RSub(t, y[j]), Hh(y, j)) IN RDiv(RAdd(RMul(RSub(1, b), RSub(z[i + 1][j], z[i][j])), RMul(b, RSub(z[i + 1][j + 1], z[i][j + 1]))), Hh(x, i))
BiD2(x, y, z, i, j, s) == LET a == RDiv(RSub(s, x[i]), Hh(x, i)) IN RDiv(RAdd(RMul(RSub(1, a), RSub(z[i][j + 1], z[i][j])), RMul(a, RSub(z[i + 1][j + 1], z[i + 1][j]))), Hh(y, j))
\* --- curves by chord length ---
Dist(p, q) == RSqrt(RSum([k \in 1..Len(p) |-> RMul(RSub(p[k], q[k]), RSub(p[k], q[k]))]))
RECURSIVE ChordsTo(_, _)
ChordsTo(p, acc) == IF Len(acc) = Len(p) THEN acc ELSE ChordsTo(p, Append(acc, RKeep(RAdd(acc[Len(acc)], Dist(p[Len(acc)], p[Len(acc) + 1])))))
Chords(p) == ChordsTo(p, <<0>>)
=============================================================================
