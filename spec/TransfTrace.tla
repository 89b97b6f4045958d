----------------------------- MODULE TransfTrace -----------------------------
(* Validates recorded quaternion and coordinate-transform calls.               *)
EXTENDS Transf, TraceFile
VARIABLES h, l, st, dead
Given(e) == Chk("accepted", e.err = "")
QSize(p, q) == RMul(RSqrt(Norm2(p)), RSqrt(Norm2(q)))
CloseV(u, v, k, s) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Close(u[i], v[i], k, s)
SameRot(M, N, tol) == NearM(M, N, tol)
RotTol(q) == RMul("1e-14", RMax(1, Norm2(q)))
Unit(q, tol) == Within(Norm2(q), 1, tol)
Alg(e) == LET p == e.p q == e.q s == QSize(p, q) m == RAdd(RMaxAbs(p), RMaxAbs(q)) IN
  /\ Chk("sum", CloseV(e.sum, Plus(p, q), 1, m)) /\ Chk("difference", CloseV(e.dif, Minus(p, q), 1, m)) /\ Chk("negative", SeqREq(e.neg, Scal(0 - 1, p)))
  /\ Chk("scaled", CloseV(e.sc, Scal(e.c, p), 1, RMul(RAbs(e.c), m))) /\ Chk("divided", REq(e.c, 0) \/ CloseV(e.dv, Scal(RDiv(1, e.c), p), 3, RDiv(m, RAbs(e.c))))
  /\ Chk("product", CloseV(e.pr, QMul(p, q), 8, s)) /\ Chk("conjugate", SeqREq(e.cj, QConj(p)))
  /\ Chk("norm", CloseRel(e.n2, Norm2(p), 8) /\ CloseRel(e.nm, RSqrt(Norm2(p)), 8)) /\ Chk("dot", Close(e.dot, RDot(p, q), 8, s))
  /\ Chk("in place", SeqREq(e.ip[1], e.sum) /\ SeqREq(e.ip[2], e.dif) /\ SeqREq(e.ip[3], e.sc) /\ SeqREq(e.ip[4], e.pr) /\ SeqREq(e.ip[5], e.sc))
  /\ Chk("aliased", CloseV(e.sq, QMul(p, p), 8, Norm2(p)))
  /\ Chk("equality", e.eq = SeqREq(p, q) /\ e.ne = ~SeqREq(p, q))
Invert(e) == LET q == e.q n == Norm2(q) IN
  /\ IF REq(n, 0) THEN Chk("zero refused", e.ei = "QuaternionError") ELSE IF RLe(n, "2e-12") /\ e.ei # "" THEN Chk("tiny refused", e.ei = "QuaternionError")
     ELSE Chk("inverse", e.ei = "" /\ CloseV(QMul(q, e.inv), <<1, 0, 0, 0>>, 16, 1) /\ CloseV(QMul(e.inv, q), <<1, 0, 0, 0>>, 16, 1))
  /\ IF REq(n, 0) THEN Chk("zero refused", e.en = "QuaternionError") ELSE IF RLe(n, "2e-24") /\ e.en # "" THEN Chk("tiny refused", e.en = "QuaternionError")
     ELSE Chk("normalised", e.en = "" /\ Unit(e.nrm, "1e-14") /\ LET s == RSqrt(n) IN CloseV(Scal(s, e.nrm), q, 16, s))
Rot(e) == LET q == e.q p == e.p v == e.v s == RMul("1e-14", RMax("1e-300", RMul(4, RMaxAbs(v)))) M == QMat(q) IN
  /\ Chk("unit argument", Unit(q, "1e-14") /\ Unit(p, "1e-14"))
  /\ Chk("rotated vector", NearV(e.qv, QRot(q, v), s)) /\ Chk("matrix", NearM(e.M, M, "1e-14"))
  /\ Chk("length kept", Close(RSqrt(Norm2(e.qv)), RSqrt(Norm2(v)), 64, RMaxAbs(v)))
  /\ Chk("rotation by a product", NearV(e.pqv, QRot(p, QRot(q, v)), RMul(4, s)))
  /\ Chk("undone by the conjugate", NearV(e.back, v, RMul(4, s)))
  /\ Chk("from its matrix", Unit(e.fm, "1e-13") /\ NearM(QMat(e.fm), M, "1e-13"))
  /\ Chk("axis and angle", RGe(e.ang, 0) /\ RLe(e.ang, "6.2831853071795868") /\ Unit(e.ax, "1e-13") /\ NearM(QMatN(AxisQ(e.ax, e.ang)), M, IF RLe(RMaxAbs(Vec(q)), "1.0001e-12") THEN "1e-11" ELSE "1e-13"))   \* closer to the identity the axis may be any
  /\ Chk("angle", LET n == RSqrt(RDot(Vec(q), Vec(q))) IN Within(RSin(RDiv(e.ang, 2)), n, IF RGt(q[1], 0) THEN RMul("1e-13", n) ELSE "4e-15") /\ Within(RCos(RDiv(e.ang, 2)), q[1], "1e-13"))
  /\ Chk("axis and angle together", SeqREq(e.ax2, e.ax) /\ REq(e.ang2, e.ang))
  /\ Chk("euler angles", RLe(RAbs(e.eu[2]), "1.5707963267948967") /\ RLe(RAbs(e.eu[1]), PiUp) /\ RLe(RAbs(e.eu[3]), PiUp) /\ NearM(QMat(EulerZYX(e.eu[1], e.eu[2], e.eu[3])), M, "1e-6"))
  /\ Chk("euler angles away from the lock", LET s2 == RMul(2, RSub(RMul(q[1], q[3]), RMul(q[4], q[2]))) IN RGe(RAbs(s2), "0.999") \/ NearM(QMat(EulerZYX(e.eu[1], e.eu[2], e.eu[3])), M, "1e-11"))
From(e) == LET q == e.q IN CASE e.how = "axis" -> Chk("axis-angle", CloseV(q, AxisQ(<<e.a[1], e.a[2], e.a[3]>>, e.a[4]), 4, 1))
  [] e.how = "zyx" -> Chk("yaw pitch roll", CloseV(q, EulerZYX(e.a[1], e.a[2], e.a[3]), 16, 1)) [] e.how = "xyz" -> Chk("roll pitch yaw", CloseV(q, EulerXYZ(e.a[1], e.a[2], e.a[3]), 16, 1))
  [] e.how = "mat" -> Chk("matrix", Unit(q, "1e-13") /\ NearM(QMat(q), LinMat("gen", e.a), "1e-13"))
Interp(e) == LET d == RAbs(RDot(e.p, e.q)) IN
  /\ Chk("lerp", CloseV(e.le, Lerp(e.p, e.q, e.t), 4, RAdd(2, RAbs(e.t))))
  /\ Chk("slerp unit", Unit(e.sl, "1e-12"))
  /\ Chk("slerp", LET want == Slerp(e.p, e.q, e.t) tol == IF RGt(d, "0.9995") THEN "1e-5" ELSE "1e-12" IN NearV(e.sl, want, tol) \/ (RLe(d, "1e-15") /\ NearV(e.sl, Slerp(e.p, Scal(0 - 1, e.q), e.t), tol)))
  /\ Chk("slerp ends", (REq(e.t, 0) => NearV(e.sl, e.p, "1e-14")) /\ (REq(e.t, 1) => NearM(QMat(e.sl), QMat(e.q), "1e-13")))
----------------------------------------------------------------------------
Lin(e) == e.k \in LinearKinds
\* forward and inverse maps and their component functions
Map(e) ==
  /\ Given(e)
  /\ Chk("components of the map", SeqREq(e.fc, e.fw) \/ CloseV(e.fc, e.fw, 4, RMul(4, RMaxAbs(e.fw)))) /\ Chk("map as a function", SeqREq(e.fo, e.fc)) /\ Chk("components of the inverse", SeqREq(e.ic, e.iv) \/ CloseV(e.ic, e.iv, 4, RMul(4, RMaxAbs(e.iv))))
  /\ IF Lin(e) THEN
       LET M == LinMat(e.k, e.p) m == MaxM(M) s == RMul(RMul("2e-14", m), RMaxAbs(e.x)) N == InvM(M) n == RMax(1, MaxM(N))
       IN /\ Chk("image", NearV(e.fw, RMatVec(M, e.x), IF e.k = "obl3" THEN RMul(s, RMul(m, MaxM(N))) ELSE s)) /\ Chk("inverse image", NearV(e.iv, RMatVec(N, e.y), RMul("1e-13", RMul(RMul(n, RMax(1, RMul(m, n))), RMaxAbs(e.y)))))
          /\ Chk("there and back", NearV(e.rt, e.x, RMul("1e-13", RMul(RMul(RMax(1, RMul(m, n)), RMax(1, RMul(m, n))), RMaxAbs(e.x)))))
     ELSE LET toC == e.k \in {"sph", "cyl", "pol"} q == IF toC THEN e.x ELSE e.y c == IF toC THEN e.fw ELSE e.iv       \* curvilinear q gave Cartesian c
              c2 == IF toC THEN e.y ELSE e.x q2 == IF toC THEN e.iv ELSE e.fw                                             \* Cartesian c2 gave curvilinear q2
          IN /\ Chk("image", NearV(c, Cart(e.k, q), RMul("1e-14", RMaxAbs(IF e.k \in {"cyl", "icyl"} THEN <<q[1], q[3]>> ELSE <<q[1]>>))))
             /\ Chk("canonical ranges", Canon(e.k, q2)) /\ Chk("inverse image", NearV(Cart(e.k, q2), c2, RMul("1e-14", RMax("1e-290", RMaxAbs(c2)))))
             /\ Chk("there and back", IF toC THEN (Canon(e.k, q) /\ RGt(q[1], "1e-12") /\ RGt(RMul(q[1], IF e.k = "sph" THEN RSin(q[2]) ELSE 1), RMul("1e-3", q[1])) => NearV(e.rt, q, RMul("1e-12", RMax(1, RMaxAbs(q))))) ELSE NearV(e.rt, c2, RMul("2e-14", RMax("1e-290", RMaxAbs(c2)))))
\* the derivative of the map at x, and that of the inverse at y, which is the image of x
Jac(e) == IF Lin(e) THEN LinMat(e.k, e.p) ELSE IF e.k \in {"sph", "cyl", "pol"} THEN JCart(e.k, e.x) ELSE InvM(JCart(e.k, e.y))
Deriv(e) ==
  LET J == Jac(e) K == InvM(J) n == Len(J) j == RMax(1, MaxM(J)) k == RMax(1, MaxM(K)) c == RMul("1e-7", RMul(j, k)) v == RMaxAbs(e.v) IN
  /\ Given(e)
  /\ Chk("jacobian", NearM(e.jac, J, c)) /\ Chk("basis vectors", NearM(e.bas, Tr(J), c)) /\ Chk("dual basis of the target", NearM(e.ibas, J, c))
  /\ Chk("contravariant basis", NearM(e.cbas, K, c)) /\ Chk("inverse contravariant basis", NearM(e.icbas, Tr(K), c))
  /\ Chk("contravariant components", NearV(e.vcon, RMatVec(J, e.v), RMul(c, v))) /\ Chk("covariant components brought back", NearV(e.ivcov, RMatVec(Tr(J), e.v), RMul(c, v)))
  /\ Chk("covariant components", NearV(e.vcov, RMatVec(Tr(K), e.v), RMul(c, v))) /\ Chk("contravariant components brought back", NearV(e.ivcon, RMatVec(K, e.v), RMul(RMul(10, c), v)))
  /\ (Has(e, "ub") => LET nr(i) == RSqrt(Norm2(Col(J, i))) IN
        Chk("unit basis", \A i \in 1..3 : NearV(Scal(nr(i), e.ub[i]), Col(J, i), "1e-13")) /\ Chk("unit dual basis", \A i \in 1..3 : \A m \in 1..3 : Within(RMul(e.iub[i][m], nr(m)), J[i][m], "1e-13")))
Cardinal(up) == ISum([i \in 1..Len(up) |-> IF up[i] THEN 1 ELSE 0], 1)
Tens(e) == LET J == Jac(e) K == Tr(InvM(J)) n == Len(J) r == Len(e.up) s == RMul(RMax(1, MaxM(J)), RMax(1, MaxM(K))) IN
  /\ Given(e) /\ Chk("variance kept", e.rup = e.up /\ e.hi = Cardinal(e.up) /\ e.lo = r - e.hi)
  /\ Chk("tensor components", LET w == MoveAll(e.c, n, r, 1, e.up, <<J, K>>) IN NearV(e.r, w, RMul("1e-6", RMul(RMax(1, RMaxAbs(e.c)), RPow(RMul(n, s), r)))))
QTr(e) == LET M == QMatN(e.p) N == QMatN(e.q) IN
  /\ Given(e) /\ Chk("composition applies this first", NearM(e.cm, RMatMul(N, M), "1e-13") /\ NearV(e.cv, RMatVec(N, RMatVec(M, e.v)), RMul("1e-13", RMaxAbs(e.v))))
  /\ Chk("matrices", NearM(e.m, M, "1e-13") /\ NearM(e.mi, Tr(M), "1e-13"))
  /\ Chk("interpolated rotation", LET u == Scal(RDiv(1, RSqrt(Norm2(e.p))), e.p) w == Scal(RDiv(1, RSqrt(Norm2(e.q))), e.q) IN RLe(RAbs(RDot(u, w)), "1e-14") \/ NearM(e.im, QMatN(Slerp(u, w, e.t)), "3e-5"))
\* the interval of special relativity
Inter(e) == LET I(v) == RSub(RSub(RSub(RMul(v[1], v[1]), RMul(v[2], v[2])), RMul(v[3], v[3])), RMul(v[4], v[4])) IN
  IF RGe(e.b, 0) /\ RLt(e.b, 1) THEN Given(e) /\ Chk("interval kept", Within(I(e.fw), I(e.x), RMul(RDiv("1e-13", RSub(1, e.b)), RMul(RMaxAbs(e.x), RMaxAbs(e.x))))) ELSE Chk("speed refused", e.err # "")
Ok(s, e) == CASE e.op = "alg" -> Alg(e) [] e.op = "inv" -> Invert(e) [] e.op = "rot" -> Rot(e) [] e.op = "from" -> From(e) [] e.op = "interp" -> Interp(e)
  [] e.op = "map" -> Map(e) [] e.op = "deriv" -> Deriv(e) [] e.op = "tens" -> Tens(e) [] e.op = "qtr" -> QTr(e) [] e.op = "lor" -> Inter(e)
  [] e.op = "orth" -> Chk("refusal", (e.err # "") = e.bad) /\ (e.bad \/ Chk("handedness", e.rh = RGt(RDet(LinMat("gen", e.p)), 0)))
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
