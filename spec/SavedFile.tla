----------------------------- MODULE SavedFile -----------------------------
(***************************************************************************)
(* The files written for the visualisers.  A save of an object is refused,   *)
(* fails, or leaves a file whose lines are a header and then the records of   *)
(* the object: Expected gives, line by line, the words and the numbers a      *)
(* complete file holds; a number n may be written rounded (tolerance t).      *)
(* Reader is a reader that knows the formats only: it takes the counts from    *)
(* the header and must arrive exactly at the end of the file.                 *)
(***************************************************************************)
EXTENDS Expr, Integers, Sequences
W(s) == [s |-> s]
N(n, t) == [n |-> n, t |-> t]
I(k) == N(k, 0)
\* rounding to p significant digits
Rp(p) == RDiv(5, RPow(10, p))
Shown(v, p) == N(v, RMul(RAbs(v), Rp(p)))
WordsOf(ts) == <<>> \o [k \in DOMAIN ts |-> W(ts[k])]
\* the i-th of n points from a to b, and its tolerance
Pt(a, b, n, i) == RAdd(a, RDiv(RMul(RSub(b, a), i), n - 1))
Sc(a, b) == RMax(RAbs(a), RAbs(b))
PtN(a, b, n, i, p) == LET x == Pt(a, b, n, i) IN N(x, RAdd(RMul(RAbs(x), Rp(p)), RMul(RMul(4, Eps), Sc(a, b))))
RECURSIVE SumG(_, _, _, _)
SumG(e, x, sc, i) == IF i > Len(x) THEN 0 ELSE RAdd(RMul(RAbs(Val(D(e, i), x)), sc), SumG(e, x, sc, i + 1))
\* the value of e sampled at (about) x
ValN(e, x, sc, p) == LET v == Err(e, x) IN N(v[1], RAdd(RMul(RAbs(v[1]), Rp(p)), RMul(RMul(16, Eps), RAdd(v[2], SumG(e, x, sc, 1)))))
ValsN(fs, x, sc, p) == <<>> \o [k \in DOMAIN fs |-> ValN(fs[k], x, sc, p)]
ValsAll(fs, x) == <<>> \o [k \in DOMAIN fs |-> Val(fs[k], x)]
Range1(l1, l2, a, b, n, p) == <<<<W(l1), Shown(a, p)>>, <<W(l2), Shown(b, p)>>, <<W("NumPoints:"), I(n)>>>>
Lines(F, n) == <<>> \o [i \in 1..n |-> F[i]]
RECURSIVE SumSq(_, _)
SumSq(v, i) == IF i > Len(v) THEN 0 ELSE RAdd(RMul(v[i], v[i]), SumSq(v, i + 1))
Ceil(a, b) == (a + b - 1) \div b
(* ---------------- valid arguments ---------------- *)
Rngs(c) == \A k \in DOMAIN c.a : RIsNum(c.a[k]) /\ RIsNum(c.b[k]) /\ RLt(c.a[k], c.b[k])
Counts(c) == \A k \in DOMAIN c.n : c.n[k] >= 2
Valid(k, c) ==
  CASE k \in {"real", "eq", "curve", "surf", "surfrect", "sf2", "sf3"} -> Counts(c) /\ Rngs(c)
    [] k = "multi" -> Counts(c) /\ Rngs(c) /\ Len(c.fs) >= 1 /\ Len(c.legend) = Len(c.fs)
    [] k \in {"realpts", "curvepts"} -> Len(c.x) >= 2
    [] k = "vals" -> Counts(c) /\ Rngs(c) /\ Len(c.v) >= c.n[1]
    [] k = "valspts" -> Len(c.x) >= 2 /\ Len(c.v) >= Len(c.x)
    [] k = "xy" -> Len(c.x) >= 2 /\ Len(c.x) = Len(c.y) /\ Rngs(c)
    [] k = "grid" -> TRUE
    [] k \in {"vf2", "vf3"} -> Counts(c) /\ Rngs(c) /\ (c.thr = "none" \/ (RIsNum(c.thr) /\ RGt(c.thr, 0)))
    [] k = "odef" -> c.ind[1] \in 0..Len(c.xs) - 1
    [] k = "odem" -> Len(c.legend) = Len(c.xs)
    [] k \in {"ode2", "ode3"} -> \A j \in DOMAIN c.ind : c.ind[j] \in 0..Len(c.xs) - 1
    [] k = "sim" -> c.balls >= 1 /\ RGt(c.dt, 0) /\ c.every >= 1 /\ (\A j \in DOMAIN c.dims : RGt(c.dims[j], 0)) /\ Len(c.pos) = c.balls /\ Len(c.colors) = c.balls /\ Len(c.radii) = c.balls /\ \A j \in DOMAIN c.pos : Len(c.pos[j]) = Len(c.pos[1])
    [] k = "lines" -> Len(c.ls) >= 1
(* ---------------- the complete file ---------------- *)
Title(c) == <<WordsOf(c.title)>>
DimNames == <<"Width:", "Height:", "Depth:">>
Axes2 == <<<<"x1:", "x2:", "NumPointsX:">>, <<"y1:", "y2:", "NumPointsY:">>, <<"z1:", "z2:", "NumPointsZ:">>>>
AxesU == <<<<"u1:", "u2:", "NumPointsU:">>, <<"w1:", "w2:", "NumPointsW:">>>>
RECURSIVE AxisHead(_, _, _)
AxisHead(A, c, k) == IF k > Len(c.n) THEN <<>> ELSE <<<<W(A[k][1]), Shown(c.a[k], 6)>>, <<W(A[k][2]), Shown(c.b[k], 6)>>, <<W(A[k][3]), I(c.n[k])>>>> \o AxisHead(A, c, k + 1)
\* index r (from 0) of a grid, the last axis fastest
IndexOf(c, r) == IF Len(c.n) = 2 THEN <<r \div c.n[2], r % c.n[2]>> ELSE <<r \div (c.n[2] * c.n[3]), (r \div c.n[3]) % c.n[2], r % c.n[3]>>
Total(c) == IF Len(c.n) = 2 THEN c.n[1] * c.n[2] ELSE c.n[1] * c.n[2] * c.n[3]
GridPt(c, ix) == <<>> \o [k \in DOMAIN c.n |-> Pt(c.a[k], c.b[k], c.n[k], ix[k])]
GridPtN(c, ix) == <<>> \o [k \in DOMAIN c.n |-> PtN(c.a[k], c.b[k], c.n[k], ix[k], 6)]
ScAll(c) == LET s == [k \in DOMAIN c.n |-> Sc(c.a[k], c.b[k])] IN IF Len(c.n) = 2 THEN RMax(s[1], s[2]) ELSE RMax(s[1], RMax(s[2], s[3]))
GridRec(c, r) == LET ix == IndexOf(c, r) IN GridPtN(c, ix) \o ValsN(c.fs, GridPt(c, ix), ScAll(c), 6)
Below(c, r) == ("thr" \notin DOMAIN c) \/ (c.thr = "none") \/ RLt(SumSq(ValsAll(c.fs, GridPt(c, IndexOf(c, r))), 1), RMul(c.thr, c.thr))
RECURSIVE GridRecs(_, _)
GridRecs(c, r) == IF r >= Total(c) THEN <<>> ELSE (IF Below(c, r) THEN <<GridRec(c, r)>> ELSE <<>>) \o GridRecs(c, r + 1)
NumsP(v, p) == <<>> \o [k \in DOMAIN v |-> Shown(v[k], p)]
RECURSIVE Frames(_, _, _)
Frames(c, i, k) == IF i > Len(c.pos[1]) THEN <<>> ELSE <<<<W("Step"), I(k), Shown(RMul(c.dt, i - 1), 6)>>>> \o [j \in 1..c.balls |-> <<I(j - 1)>> \o NumsP(c.pos[j][i], 6)] \o Frames(c, i + c.every, k + 1)
RECURSIVE FieldLines(_, _)
FieldLines(ls, k) == IF k > Len(ls) THEN <<>> ELSE <<<<W("LINE"), I(k - 1)>>, <<I(Len(ls[k]))>>>> \o [j \in DOMAIN ls[k] |-> NumsP(ls[k][j], 15)] \o FieldLines(ls, k + 1)
OdeRec(c, i, inds) == <<Shown(c.ts[i], 6)>> \o [k \in DOMAIN inds |-> Shown(c.xs[inds[k] + 1][i], 6)]
OdeRecs(c, inds) == Lines([i \in DOMAIN c.ts |-> OdeRec(c, i, inds)], Len(c.ts))
MultiHead(c, nf) == <<<<W("MULTI_REAL_FUNCTION")>>>> \o Title(c) \o <<<<I(nf)>>>> \o [k \in DOMAIN c.legend |-> WordsOf(c.legend[k])]
Expected(k, c) ==
  CASE k = "real" -> <<<<W("REAL_FUNCTION")>>>> \o Title(c) \o Range1("x1:", "x2:", c.a[1], c.b[1], c.n[1], c.p) \o [i \in 1..c.n[1] |-> <<PtN(c.a[1], c.b[1], c.n[1], i - 1, c.p)>> \o ValsN(c.fs, <<Pt(c.a[1], c.b[1], c.n[1], i - 1)>>, Sc(c.a[1], c.b[1]), c.p)]
    [] k = "eq" -> <<<<W("REAL_FUNCTION_EQUALLY_SPACED")>>>> \o Title(c) \o Range1("x1:", "x2:", c.a[1], c.b[1], c.n[1], c.p) \o [i \in 1..c.n[1] |-> ValsN(c.fs, <<Pt(c.a[1], c.b[1], c.n[1], i - 1)>>, Sc(c.a[1], c.b[1]), c.p)]
    [] k = "realpts" -> <<<<W("REAL_FUNCTION")>>>> \o Title(c) \o Range1("x1:", "x2:", c.x[1], c.x[Len(c.x)], Len(c.x), c.p) \o [i \in DOMAIN c.x |-> <<Shown(c.x[i], c.p)>> \o ValsN(c.fs, <<c.x[i]>>, 0, c.p)]
    [] k = "multi" -> MultiHead(c, Len(c.fs)) \o Range1("x1:", "x2:", c.a[1], c.b[1], c.n[1], c.p) \o [i \in 1..c.n[1] |-> <<PtN(c.a[1], c.b[1], c.n[1], i - 1, c.p)>> \o ValsN(c.fs, <<Pt(c.a[1], c.b[1], c.n[1], i - 1)>>, Sc(c.a[1], c.b[1]), c.p)]
    [] k = "curve" -> <<<<W(c.type)>>>> \o Title(c) \o Range1("t1:", "t2:", c.a[1], c.b[1], c.n[1], 6) \o [i \in 1..c.n[1] |-> <<PtN(c.a[1], c.b[1], c.n[1], i - 1, 6)>> \o ValsN(c.fs, <<Pt(c.a[1], c.b[1], c.n[1], i - 1)>>, Sc(c.a[1], c.b[1]), 6)]
    [] k = "curvepts" -> <<<<W(c.type)>>>> \o Title(c) \o Range1("t1:", "t2:", c.x[1], c.x[Len(c.x)], Len(c.x), 6) \o [i \in DOMAIN c.x |-> <<Shown(c.x[i], 6)>> \o ValsN(c.fs, <<c.x[i]>>, 0, 6)]
    [] k = "vals" -> <<<<W(c.type)>>>> \o Title(c) \o Range1("t1:", "t2:", c.a[1], c.b[1], c.n[1], 6) \o [i \in 1..c.n[1] |-> <<PtN(c.a[1], c.b[1], c.n[1], i - 1, 6)>> \o NumsP(c.v[i], 6)]
    [] k = "valspts" -> <<<<W(c.type)>>>> \o Title(c) \o Range1("t1:", "t2:", c.x[1], c.x[Len(c.x)], Len(c.x), 6) \o [i \in DOMAIN c.x |-> <<Shown(c.x[i], 6)>> \o NumsP(c.v[i], 6)]
    [] k = "xy" -> <<<<W("PARAMETRIC_CURVE_CARTESIAN_2D")>>>> \o Title(c) \o Range1("t1:", "t2:", c.a[1], c.b[1], Len(c.x), 6) \o [i \in DOMAIN c.x |-> <<PtN(c.a[1], c.b[1], Len(c.x), i - 1, 6), Shown(c.x[i], 6), Shown(c.y[i], 6)>>]
    [] k \in {"surf", "surfrect"} -> <<<<W("PARAMETRIC_SURFACE_CARTESIAN")>>>> \o Title(c) \o AxisHead(AxesU, c, 1) \o GridRecs(c, 0)
    [] k \in {"sf2", "grid"} -> <<<<W("SCALAR_FUNCTION_CARTESIAN_2D")>>>> \o Title(c) \o AxisHead(Axes2, c, 1) \o GridRecs(c, 0)
    [] k = "sf3" -> <<<<W("SCALAR_FUNCTION_CARTESIAN_3D")>>>> \o Title(c) \o AxisHead(Axes2, c, 1) \o GridRecs(c, 0)
    [] k \in {"vf2", "vf3"} -> <<<<W(c.type)>>>> \o Title(c) \o GridRecs(c, 0)
    [] k = "odef" -> <<<<W("REAL_FUNCTION")>>>> \o Title(c) \o Range1("x1:", "x2:", c.a[1], c.b[1], Len(c.ts), 6) \o OdeRecs(c, c.ind)
    [] k = "odem" -> MultiHead(c, Len(c.xs)) \o Range1("x1:", "x2:", c.a[1], c.b[1], Len(c.ts), 6) \o OdeRecs(c, <<>> \o [j \in DOMAIN c.xs |-> j - 1])
    [] k \in {"ode2", "ode3"} -> <<<<W(IF k = "ode2" THEN "PARAMETRIC_CURVE_CARTESIAN_2D" ELSE "PARAMETRIC_CURVE_CARTESIAN_3D")>>>> \o Title(c) \o Range1("t1:", "t2:", c.a[1], c.b[1], Len(c.ts), 6) \o OdeRecs(c, c.ind)
    [] k = "sim" -> <<<<W(IF Len(c.dims) = 2 THEN "PARTICLE_SIMULATION_DATA_2D" ELSE "PARTICLE_SIMULATION_DATA_3D")>>>> \o [j \in DOMAIN c.dims |-> <<W(DimNames[j]), Shown(c.dims[j], 6)>>] \o <<<<W("NumBalls:"), I(c.balls)>>>>
                    \o [j \in 1..c.balls |-> <<W(c.ballw[j]), W(c.colors[j]), Shown(c.radii[j], 6)>>] \o <<<<W("NumSteps:"), I(Ceil(Len(c.pos[1]), c.every))>>>> \o Frames(c, 1, 0)
    [] k = "lines" -> <<<<W(IF c.d = 2 THEN "FIELD_LINES_2D" ELSE "FIELD_LINES_3D")>>>> \o <<<<W("Title:")>> \o WordsOf(c.title)>> \o <<<<W("NUM_LINES:"), I(Len(c.ls))>>>> \o FieldLines(c.ls, 1)
Fits(x, tok) == IF "s" \in DOMAIN x THEN tok = x.s ELSE RIsNum(tok) /\ RLe(RAbs(RSub(tok, x.n)), x.t)
LineFits(ex, ln) == Len(ex) = Len(ln) /\ \A k \in DOMAIN ex : Fits(ex[k], ln[k])
Complete(ex, lines) == Len(ex) = Len(lines) /\ \A k \in DOMAIN ex : LineFits(ex[k], lines[k])
=============================================================================
