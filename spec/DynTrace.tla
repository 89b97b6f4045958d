----------------------------- MODULE DynTrace -----------------------------
(* Validates recorded dynamical systems, maps and analyses. *)
EXTENDS Dyn, TraceFile
VARIABLES h, l, st, dead
\* v could be the double value of e, evaluated in any reasonable order
Near1(e, x, v) == LET T == Err(e, x) IN RIsNum(v) /\ RLe(RAbs(RSub(v, T[1])), RMul(RMul(40, Eps), RAdd(T[2], RAdd(RAbs(T[1]), "1e-300"))))
Rough(e, x, v, r, add) == LET T == Err(e, x) IN RIsNum(v) /\ RLe(RAbs(RSub(v, T[1])), RMul(r, RAdd(RAdd(T[2], RAbs(T[1])), add)))
Kink(s, x) == (s = "chua" /\ REq(RAbs(x[1]), 1)) \/ (s = "tent" /\ REq(x[1], "0.5"))
Norm(v) == RSqrt(RSum(<<>> \o [i \in 1..Len(v) |-> RMul(v[i], v[i])]))
Meta(e) == LET S == Sys[e.sys] IN
  /\ Chk("dimension", e.dim = S.n /\ e.np = Len(S.params)) /\ Chk("names", e.states = S.states /\ e.params = S.params)
  /\ Chk("parameters given", SeqREq(e.ctor, e.given)) /\ Chk("parameters set one by one", SeqREq(e.got, e.set)) /\ Chk("all parameters", SeqREq(e.all, e.set))
  /\ Chk("all parameters set", SeqREq(e.got2, e.set2)) /\ Chk("ranges", \A i \in DOMAIN e.lo : RLt(e.lo[i], e.hi[i]) /\ RGe(e.dflt[i], e.lo[i]) /\ RLe(e.dflt[i], e.hi[i]))
Deriv(e) == LET S == Sys[e.sys] x == e.x \o e.ps ok == ~Kink(e.sys, x) IN
  /\ Chk("vector field", \A i \in 1..S.n : Near1(S.f[i], x, e.d[i]))
  /\ ok => Chk("Jacobian", Len(e.J) = S.n /\ \A i \in 1..S.n : Len(e.J[i]) = S.n /\ \A j \in 1..S.n : LET de == D(S.f[i], j) IN
             IF e.sys = "doublependulum" THEN Rough(de, x, e.J[i][j], "3e-6", 10) ELSE Near1(de, x, e.J[i][j]))
  /\ Chk("invariants", e.ni = Len(S.inv) /\ \A i \in 1..Len(S.inv) : Near1(S.inv[i], x, e.inv[i]))
  /\ Has(e, "div") => Chk("divergence is the trace", Near1(Add(Add(D(S.f[1], 1), D(S.f[2], 2)), D(S.f[3], 3)), x, e.div))
  /\ Has(e, "energy") => Chk("energy", Near1(S.inv[1], x, e.energy))
\* the numerical default Jacobian of a custom system
NumJac(e) == LET x == e.x IN Chk("default Jacobian", \A i \in DOMAIN e.f : \A j \in DOMAIN e.f : Rough(D(e.f[i], j), x, e.J[i][j], "1e-6", RAdd(1, RMul(1, RAbs(Val(e.f[i], x))))))
TwoPi == RMul(2, RPi)
\* v is t up to a multiple of 2 pi and lies in [0, 2 pi]
Mod(t, u, v) == LET tol == RMul(RMul(64, Eps), RAdd(RAdd(u, RAbs(t)), 10)) q == RDiv(RSub(v, t), TwoPi) k == RFloor(RAdd(q, "0.5")) IN RGe(v, RNeg(tol)) /\ RLe(v, RAdd(TwoPi, tol)) /\ RLe(RAbs(RSub(RSub(v, t), RMul(k, TwoPi))), tol)
Image(m, x, y) == \A i \in 1..Maps[m].n : LET e == Maps[m].f[i] IN IF m = "standard" THEN LET T == Err(e, x) IN RIsNum(y[i]) /\ Mod(T[1], T[2], y[i])
   ELSE Near1(IF m = "tent" THEN Mul(V(2), <<"min", V(1), Sub(K(1), V(1))>>) ELSE e, x, y[i])
MapOk(e) == LET M == Maps[e.m] x == e.x \o e.ps IN
  /\ Chk("map", Image(e.m, x, e.y)) /\ Chk("iterate is the map", SeqREq(e.it, e.y))
  /\ ~Kink(e.m, x) => Chk("Jacobian", Len(e.J) = M.n /\ \A i \in 1..M.n : Len(e.J[i]) = M.n /\ \A j \in 1..M.n : Near1(D(M.f[i], j), x, e.J[i][j]))
  /\ Chk("orbit", ~Has(e, "orbit") \/ (Len(e.orbit) = e.n /\ \A k \in DOMAIN e.orbit : Image(e.m, (IF k = 1 THEN e.x ELSE e.orbit[k - 1]) \o e.ps, e.orbit[k]) /\ (k = 1 => SeqREq(e.orbit[1], e.y))))
  /\ Has(e, "orbit") => Chk("orbit is iteration", \A k \in DOMAIN e.orbit : SeqREq(e.orbit[k], e.its[k]))
  /\ Chk("parameters", SeqREq(e.got, e.ps) /\ e.dim = M.n /\ \A i \in 1..Len(M.params) : e.names[i] = M.params[i])
  /\ Has(e, "det") => Chk("determinant", Near1(N_(V(4)), x, e.det))
\* fixed points of x' = A (x - c), A = S B S^-1
Field(A, c, x) == <<>> \o [i \in 1..Len(A) |-> RSum(<<>> \o [j \in 1..Len(A) |-> RMul(A[i][j], RSub(x[j], c[j]))])]
Size(A, c, x) == RAdd("1e-290", RMaxAbs(<<>> \o [i \in 1..Len(A) |-> RSum(<<>> \o [j \in 1..Len(A) |-> RMul(RAbs(A[i][j]), RAdd(RAbs(x[j]), RMul(2, RAbs(c[j]))))])]))
Fix(e) == LET A == e.A n == Len(A) sing == \E i \in DOMAIN e.B : e.B[i] = <<0>> conv == RIsNum(e.resid) /\ RLt(e.resid, e.tol) IN
  /\ Chk("harness: similar to blocks", IMul(A, e.S) = IMul(e.S, BlockMat(e.B)))
  /\ Chk("residual belongs to the location", RIsNum(e.resid) /\ RLe(RAbs(RSub(e.resid, Norm(Field(A, e.c, e.loc)))), RMul("1e-14", RMul(n, Size(A, e.c, e.loc)))))
  /\ (~sing /\ e.maxit >= 3 /\ RGe(e.tol, RMul("1e-11", Size(A, e.c, e.c)))) => Chk("finds the fixed point of a linear system", conv)
  /\ Chk("iterations", e.iters >= 0 /\ e.iters <= e.maxit)
  /\ IF conv THEN /\ Chk("kind", Named(e.kind, e.B) \/ e.fuzzy) /\ Chk("stable", e.stable = Stable(e.B)) /\ Chk("eigenvalues", Len(e.eig) = n) /\ Chk("Jacobian there", \A i \in 1..n : \A j \in 1..n : RLe(RAbs(RSub(e.J[i][j], A[i][j])), IF e.an THEN 0 ELSE RMul("1e-6", RAdd(1, RAbs(A[i][j])))))
       ELSE Chk("nothing claimed of a point that is not fixed", e.kind = "Unknown" /\ ~e.stable)
  /\ Chk("status", e.ok = conv /\ (e.status = "Success") = conv) /\ Chk("status form agrees", e.same)
FixB(e) == LET f == e.f x == e.loc \o e.ps num == RIsNum(e.resid) conv == num /\ RLt(e.resid, e.tol) IN
  /\ num => Chk("residual belongs to the location", LET r == Norm(Flow(f, e.ps, e.loc)) t == Norm(<<>> \o [i \in 1..Len(f) |-> Err(f[i], x)[2]]) IN RLe(RAbs(RSub(e.resid, r)), RMul(RMul(64, Eps), RAdd(RAdd(t, r), "1e-290"))))
  /\ ~conv => Chk("nothing claimed of a point that is not fixed", e.kind = "Unknown" /\ ~e.stable) 
  /\ conv => /\ Chk("eigenvalues", Len(e.eig) = Len(f))
             /\ LET tr == RSum(<<>> \o [i \in 1..Len(f) |-> e.J[i][i]]) sc == RAdd(1, RSum(<<>> \o [i \in 1..Len(f) |-> RMaxAbs(e.J[i])])) IN Chk("eigenvalues sum to the trace", RLe(RAbs(RSub(RSum(<<>> \o [i \in 1..Len(f) |-> e.eig[i][1]]), tr)), RMul("1e-9", sc)))
             /\ Chk("stability follows from the eigenvalues", (\E i \in 1..Len(f) : RLt(RAbs(e.eig[i][1]), "1e-5")) \/ (e.stable = (\A i \in 1..Len(f) : RLt(e.eig[i][1], 0))))
             /\ Chk("kind follows from the eigenvalues", (\E i \in 1..Len(f) : RLt(RAbs(e.eig[i][1]), "1e-5") \/ (RLt(RAbs(e.eig[i][2]), "1e-5") /\ ~REq(e.eig[i][2], 0))) \/ Named(e.kind, [i \in 1..Len(f) |-> LET s == RToInt(RSgn(e.eig[i][1])) IN IF REq(e.eig[i][2], 0) THEN <<s>> ELSE <<s, 1>>]))
  /\ Chk("status", e.ok = conv)
Dist(a, b) == Norm(<<>> \o [i \in 1..Len(a) |-> RSub(a[i], b[i])])
Multi(e) == /\ Chk("every result is fixed", \A i \in DOMAIN e.res : RLt(e.res[i].resid, e.tol))
  /\ Chk("every fixed point found is there", \A g \in DOMAIN e.one : (RIsNum(e.one[g].resid) /\ RLt(e.one[g].resid, e.tol)) => \E i \in DOMAIN e.res : RLe(Dist(e.res[i].loc, e.one[g].loc), e.utol))
  /\ Chk("no duplicates", \A i \in DOMAIN e.res : \A j \in DOMAIN e.res : i # j => RGe(Dist(e.res[i].loc, e.res[j].loc), RMul("0.999999", e.utol)))
  /\ Chk("nothing else", \A i \in DOMAIN e.res : \E g \in DOMAIN e.one : SeqREq(e.res[i].loc, e.one[g].loc))
\* every grid point of the box, for a field that is zero everywhere
Box(e) == LET n == Len(e.lo) g == e.grid pts == [1..n -> 0..(g - 1)] at(p) == <<>> \o [i \in 1..n |-> RAdd(e.lo[i], RMul(IF g = 1 THEN "0.5" ELSE RDiv(p[i], g - 1), RSub(e.hi[i], e.lo[i])))]
              near(a, b) == \A i \in 1..n : RLe(RAbs(RSub(a[i], b[i])), RMul("1e-14", RAdd(RAbs(e.lo[i]), RAbs(e.hi[i])))) IN
  Chk("grid of the box", Len(e.res) = Cardinality(pts) /\ \A p \in pts : \E i \in DOMAIN e.res : near(e.res[i], at(p)))
\* trajectories: the start, then the state after every output interval
Traj(e) == LET per == IF RLe(e.dto, e.h) THEN 1 ELSE RToInt(RDiv(e.dto, e.h)) nst == e.nst want == 1 + (nst \div per) IN
  /\ Chk("number of points", Len(e.pts) = want) /\ Chk("starts at the start", SeqREq(e.pts[1], e.x0))
  /\ Chk("points in order", \A k \in 2..Len(e.pts) : LET y == Steps(e.f, e.ps, e.pts[k - 1], e.h, per) sc == RAdd(RMaxAbs(y), RAdd(RMaxAbs(e.pts[k - 1]), "1e-3")) IN RLe(RMaxAbs(<<>> \o [i \in 1..Len(y) |-> RSub(y[i], e.pts[k][i])]), RMul("1e-12", sc)))
  /\ Chk("status form agrees", e.same)
\* crossings of x' = w v, v' = - w x
Poin(e) == LET o == e.var + 1 q == 3 - o E0 == RAdd(RMul(e.x0[1], e.x0[1]), RMul(e.x0[2], e.x0[2])) rate(p) == RMul(RMul(e.w, IF o = 1 THEN 1 ELSE 0 - 1), p[q]) IN
  /\ Chk("number of crossings", Len(e.pts) = e.n)
  /\ Chk("on the section", \A i \in DOMAIN e.pts : RLe(RAbs(RSub(e.pts[i][o], e.val)), RMul("1e-13", RAdd(RAbs(e.val), RSqrt(E0)))))
  /\ Chk("direction", \A i \in DOMAIN e.pts : e.dir # 0 => RGt(RMul(e.dir, rate(e.pts[i])), 0))
  /\ Chk("every crossing, alternately", e.dir = 0 => \A i \in 2..Len(e.pts) : RLt(RMul(rate(e.pts[i]), rate(e.pts[i - 1])), 0))
  /\ Chk("on the trajectory", \A i \in DOMAIN e.pts : RLe(RAbs(RSub(RAdd(RMul(e.pts[i][1], e.pts[i][1]), RMul(e.pts[i][2], e.pts[i][2])), E0)), RMul("1e-2", E0)))
Land(e) == Chk("a crossing that lands on the section", e.ex = "" /\ Len(e.pts) = 1 /\ SeqREq(e.pts[1], e.want))
\* sweeps
Par(e, k) == IF e.steps = 1 THEN e.pmin ELSE RAdd(e.pmin, RMul(RDiv(k - 1, e.steps - 1), RSub(e.pmax, e.pmin)))
RECURSIVE Path(_, _, _, _, _)
Path(f, ps, x, hh, k) == IF k = 0 THEN <<x>> ELSE LET y == Rk4(f, ps, x, hh) IN <<x>> \o Path(f, ps, y, hh, k - 1)
RECURSIVE Bif(_, _, _)
Bif(e, k, x) == IF k > e.steps THEN TRUE ELSE
  LET ps == [e.ps EXCEPT ![e.pi] = e.par[k]] y == Steps(e.f, ps, x, e.h, e.ntr) P == Path(e.f, ps, y, e.h, e.nrec) v == <<>> \o [i \in 1..Len(P) |-> P[i][e.comp]]
      sc == RAdd(RMaxAbs(v), "1e-3") fuzzy == \E i \in 2..Len(v) : RLe(RAbs(RSub(v[i], v[i - 1])), RMul("1e-9", sc)) Q == Peaks(v)
      pk == SelectSeq(<<>> \o [i \in 1..Len(v) |-> <<i, v[i]>>], LAMBDA t : t[1] \in Q) IN
  /\ fuzzy \/ Chk("local maxima", Len(pk) = Len(e.att[k]) /\ \A i \in DOMAIN pk : RLe(RAbs(RSub(pk[i][2], e.att[k][i])), RMul("1e-10", sc)))
  /\ Bif(e, k + 1, P[Len(P)])
Sweep(e) == /\ Chk("one entry per value", Len(e.par) = e.steps /\ Len(e.att) = e.steps) /\ Chk("parameter values", \A k \in 1..e.steps : RIsNum(e.par[k]) /\ Close(e.par[k], Par(e, k), 8, RAdd(RAbs(e.pmin), RAbs(e.pmax))))
  /\ Chk("parameter restored", SeqREq(e.after, e.ps)) /\ Chk("name", e.name = "p" \o ToString(e.pi - 1)) /\ Bif(e, 1, e.x0)
\* Lyapunov exponents
RECURSIVE Desc(_)
Desc(L) == Len(L) < 2 \/ (RGe(L[1], L[2]) /\ Desc(Tail(L)))
LyRes(e) == LET L == e.ex s == RSum(L) sc == RAdd("1e-3", RSumAbs(L)) n == Len(L) IN
  /\ Chk("exponents in order", Desc(L)) /\ Chk("largest", REq(e.max, L[1])) /\ Chk("sum", RLe(RAbs(RSub(e.sum, s)), RMul("1e-13", sc)))
  /\ Chk("chaotic means positive", RLe(RAbs(RSub(L[1], "1e-6")), "1e-9") \/ e.chaotic = RGt(L[1], "1e-6"))
  /\ Chk("Kaplan-Yorke dimension", (\E k \in 1..n : RLe(RAbs(RSum(<<>> \o [i \in 1..k |-> L[i]])), RMul("1e-9", sc))) \/ RLe(RAbs(RSub(e.ky, KaplanYorke(L))), "1e-9"))
  /\ Chk("time", REq(e.time, e.T))
\* x' = A x with A upper triangular: the growth of one step on the diagonal
LyLin(e) == LET n == Len(e.A) g(i) == RDiv(RLn(P4(RMul(e.A[i][i], e.h))), e.h) near(a, b) == RLe(RAbs(RSub(a, b)), RMul("1e-11", RAdd(1, RDiv(1, e.h)))) IN
  /\ LyRes(e) /\ Chk("orthonormalisations", e.north = e.wnorth)
  /\ Chk("exponents of a triangular system", \A i \in 1..n : Cardinality({k \in 1..n : near(e.ex[k], g(i))}) >= Cardinality({k \in 1..n : REq(e.A[k][k], e.A[i][i])}))
\* the sum of the exponents of x' = A x
LySum(e) == LyRes(e) /\ LET z == RMul(e.h, 1) n == Len(e.A) Z == [i \in 1..n |-> <<>> \o [j \in 1..n |-> RMul(e.A[i][j], z)]] Z2 == RMatMul(Z, Z) Z3 == RMatMul(Z2, Z) Z4 == RMatMul(Z2, Z2)
       P == <<>> \o [i \in 1..n |-> <<>> \o [j \in 1..n |-> RAdd(IF i = j THEN 1 ELSE 0, RAdd(Z[i][j], RAdd(RDiv(Z2[i][j], 2), RAdd(RDiv(Z3[i][j], 6), RDiv(Z4[i][j], 24)))))]] IN
   Chk("volume", RLe(RAbs(RSub(e.sum, RDiv(RLn(RAbs(RDet(P))), e.h))), RMul("1e-10", RAdd(1, RDiv(1, e.h)))))
Scan(e) == /\ Chk("one entry per value", Len(e.par) = e.steps) /\ Chk("parameter values", \A k \in 1..e.steps : RIsNum(e.par[k]) /\ Close(e.par[k], Par(e, k), 8, RAdd(RAbs(e.pmin), RAbs(e.pmax))))
  /\ Chk("exponents", \A k \in 1..e.steps : RLe(RAbs(RSub(e.ly[k], RMul(100, RLn(P4(RDiv(e.par[k], 100)))))), "1e-8")) /\ Chk("parameter restored", REq(e.after, e.before))
\* maps: mean logarithm of the growth along the recorded orbit
MLy(e) == LET n == Len(e.ex) IN
  /\ Chk("largest", \A i \in 1..n : RGe(e.max, e.ex[i]) /\ \E j \in 1..n : REq(e.max, e.ex[j])) /\ Chk("chaotic", RLe(RAbs(RSub(e.max, "0.01")), "1e-9") \/ e.chaotic = RGt(e.max, "0.01"))
  /\ LET g == RDiv(RSum(<<>> \o [k \in 1..Len(e.xs) |-> RLn(RAbs(IF e.m = "lin" THEN RDet(e.A) ELSE IF n = 1 THEN Val(D(Maps[e.m].f[1], 1), e.xs[k] \o e.ps) ELSE RSub(RMul(Val(D(Maps[e.m].f[1], 1), e.xs[k] \o e.ps), Val(D(Maps[e.m].f[2], 2), e.xs[k] \o e.ps)), RMul(Val(D(Maps[e.m].f[1], 2), e.xs[k] \o e.ps), Val(D(Maps[e.m].f[2], 1), e.xs[k] \o e.ps)))))]), Len(e.xs)) IN
       Chk("growth of volume", RLe(RAbs(RSub(RSum(e.ex), g)), RMul("1e-10", RAdd(1, RSumAbs(e.ex)))))
  /\ (e.m = "lin" /\ e.tri) => Chk("exponents of a triangular map", \A i \in 1..n : RLe(RAbs(RSub(e.ex[i], RLn(RAbs(e.A[i][i])))), "1e-10"))
Report(e) == /\ Chk("counts", e.ns + e.nu + e.nsad = Len(e.kinds) /\ e.ns = Cardinality({i \in DOMAIN e.kinds : e.kinds[i] \in {"Stable Node", "Stable Focus"}}) /\ e.nsad \in {Cardinality({i \in DOMAIN e.kinds : e.kinds[i] = "Saddle"}), Cardinality({i \in DOMAIN e.kinds : e.kinds[i] \in {"Saddle", "Saddle-Focus"}})})
  /\ Chk("described", e.dim = e.n /\ e.np = Len(e.ps) /\ SeqREq(e.cur, e.ps) /\ e.names)
  /\ Chk("dissipative", RLe(RAbs(RAdd(e.sum, "1e-6")), "1e-8") \/ e.diss = RLt(e.sum, "-1e-6"))
  /\ Chk("conservative", RLe(RAbs(RSub(RAbs(e.sum), "1e-4")), "1e-7") \/ e.cons = RLt(RAbs(e.sum), "1e-4"))
  /\ Chk("Lyapunov time", IF RGt(e.max, "1e-9") THEN RIsNum(e.lt) /\ CloseRel(e.lt, RDiv(1, e.max), 8) ELSE ~RIsNum(e.lt) \/ RGt(e.max, "1e-11")) /\ Chk("flags agree", e.agree)
Ok(s, e) == CASE e.op = "meta" -> Meta(e) [] e.op = "deriv" -> Deriv(e) [] e.op = "numjac" -> NumJac(e) [] e.op = "map" -> MapOk(e) [] e.op = "fix" -> Fix(e) [] e.op = "fixb" -> FixB(e) [] e.op = "multi" -> Multi(e)
  [] e.op = "box" -> Box(e) [] e.op = "traj" -> Traj(e) [] e.op = "poin" -> Poin(e) [] e.op = "land" -> Land(e) [] e.op = "sweep" -> Sweep(e) [] e.op = "lylin" -> LyLin(e) [] e.op = "lysum" -> LySum(e) [] e.op = "lyany" -> LyRes(e)
  [] e.op = "scan" -> Scan(e) [] e.op = "mly" -> MLy(e) [] e.op = "report" -> Report(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
