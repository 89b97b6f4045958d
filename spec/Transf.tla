------------------------------- MODULE Transf -------------------------------
(***************************************************************************)
(* Quaternions, rotations and coordinate transforms.  A transform is a      *)
(* record [k |-> kind, p |-> parameters]; linear kinds are given by their   *)
(* matrix, curvilinear kinds by their defining map and its derivative.      *)
(***************************************************************************)
EXTENDS Rat, Naturals, Integers, Sequences
RECURSIVE ISum(_, _)
Col(M, j) == <<>> \o [i \in 1..Len(M) |-> M[i][j]]
Tr(M) == <<>> \o [i \in 1..Len(M) |-> Col(M, i)]
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
ISum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + ISum(s, i + 1)
Minor(M, r, c) == <<>> \o [i \in 1..(Len(M) - 1) |-> <<>> \o [j \in 1..(Len(M) - 1) |-> M[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
InvM(M) == LET d == RDet(M) IN <<>> \o [i \in 1..Len(M) |-> <<>> \o [j \in 1..Len(M) |-> RDiv(RMul((IF (i + j) % 2 = 0 THEN 1 ELSE 0 - 1), RDet(Minor(M, j, i))), d)]]
MaxM(M) == RMaxAbs(<<>> \o [i \in 1..Len(M) |-> RMaxAbs(M[i])])
NearV(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Within(u[i], v[i], tol)
NearM(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : NearV(A[i], B[i], tol)
VDot(u, v) == RDot(u, v)
Cross(u, v) == <<RSub(RMul(u[2], v[3]), RMul(u[3], v[2])), RSub(RMul(u[3], v[1]), RMul(u[1], v[3])), RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
Norm2(v) == RDot(v, v)
Scal(c, v) == <<>> \o [i \in 1..Len(v) |-> RMul(c, v[i])]
Plus(u, v) == <<>> \o [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
Minus(u, v) == <<>> \o [i \in 1..Len(u) |-> RSub(u[i], v[i])]
----------------------------------------------------------------------------
\* quaternions <<w, x, y, z>>
Vec(q) == <<q[2], q[3], q[4]>>
QMul(p, q) == LET u == Vec(p) v == Vec(q) c == Cross(u, v)
              IN <<RSub(RMul(p[1], q[1]), RDot(u, v))>> \o [i \in 1..3 |-> RAdd(RAdd(RMul(p[1], v[i]), RMul(q[1], u[i])), c[i])]
QConj(q) == <<q[1], RNeg(q[2]), RNeg(q[3]), RNeg(q[4])>>
\* the rotation of a unit quaternion: v -> q v q*
QRot(q, v) == Vec(QMul(QMul(q, <<0>> \o v), QConj(q)))
QMat(q) == Tr(<<QRot(q, <<1, 0, 0>>), QRot(q, <<0, 1, 0>>), QRot(q, <<0, 0, 1>>)>>)
\* of any non-zero one
QMatN(q) == LET n == Norm2(q) M == QMat(q) IN <<>> \o [i \in 1..3 |-> <<>> \o [j \in 1..3 |-> RDiv(M[i][j], n)]]
AxisQ(ax, a) == <<RCos(RDiv(a, 2))>> \o Scal(RSin(RDiv(a, 2)), ax)
X == <<1, 0, 0>>  Y == <<0, 1, 0>>  Z == <<0, 0, 1>>
EulerZYX(y, p, r) == QMul(QMul(AxisQ(Z, y), AxisQ(Y, p)), AxisQ(X, r))
EulerXYZ(r, p, y) == QMul(QMul(AxisQ(X, r), AxisQ(Y, p)), AxisQ(Z, y))
EulerZYZ(a, b, c) == QMul(QMul(AxisQ(Z, a), AxisQ(Y, b)), AxisQ(Z, c))
Lerp(p, q, t) == Plus(Scal(RSub(1, t), p), Scal(t, q))
ArcCos(d) == IF RLe(d, 0) THEN (IF REq(d, 0) THEN RDiv(RPi, 2) ELSE RAdd(RPi, RAtan(RDiv(RSqrt(RMax(0, RSub(1, RMul(d, d)))), d)))) ELSE RAtan(RDiv(RSqrt(RMax(0, RSub(1, RMul(d, d)))), d))
\* the shorter great arc; p and q unit
Slerp(p, q, t) == LET d == RDot(p, q) q1 == IF RLt(d, 0) THEN Scal(0 - 1, q) ELSE q th == ArcCos(RAbs(d)) s == RSin(th)
                  IN IF REq(s, 0) THEN p ELSE Plus(Scal(RDiv(RSin(RMul(RSub(1, t), th)), s), p), Scal(RDiv(RSin(RMul(t, th)), s), q1))
----------------------------------------------------------------------------
\* linear kinds
Rot2(a) == LET c == RCos(a) s == RSin(a) IN <<<<c, RNeg(s)>>, <<s, c>>>>
LinearKinds == {"rotx", "roty", "rotz", "zyz", "orth", "gen", "obl3", "quat", "axis", "rot2", "obl2to", "obl2from", "lor", "qzyx", "qxyz", "qmat"}
Obl2(a) == <<<<1, RCos(a)>>, <<0, RSin(a)>>>>
LinMat(k, p) == CASE k = "rotx" -> QMat(AxisQ(X, p[1])) [] k = "roty" -> QMat(AxisQ(Y, p[1])) [] k = "rotz" -> QMat(AxisQ(Z, p[1]))
  [] k = "zyz" -> QMat(EulerZYZ(p[1], p[2], p[3]))
  [] k \in {"orth", "gen", "qmat"} -> <<<<p[1], p[2], p[3]>>, <<p[4], p[5], p[6]>>, <<p[7], p[8], p[9]>>>>
  [] k = "obl3" -> InvM(Tr(<<<<p[1], p[2], p[3]>>, <<p[4], p[5], p[6]>>, <<p[7], p[8], p[9]>>>>))
  [] k = "quat" -> QMatN(p)
  [] k = "axis" -> QMatN(AxisQ(<<p[1], p[2], p[3]>>, p[4]))
  [] k = "qzyx" -> QMat(EulerZYX(p[1], p[2], p[3])) [] k = "qxyz" -> QMat(EulerXYZ(p[1], p[2], p[3]))
  [] k = "rot2" -> Rot2(p[1]) [] k = "obl2to" -> Obl2(p[1]) [] k = "obl2from" -> InvM(Obl2(p[1]))
  [] k = "lor" -> LET g == RDiv(1, RSqrt(RSub(1, RMul(p[1], p[1])))) b == RNeg(RMul(g, p[1])) IN <<<<g, b, 0, 0>>, <<b, g, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>>>
\* curvilinear kinds: to Cartesian, and the derivative
Sph(q) == LET st == RSin(q[2]) IN <<RMul(RMul(q[1], st), RCos(q[3])), RMul(RMul(q[1], st), RSin(q[3])), RMul(q[1], RCos(q[2]))>>
Cyl(q) == <<RMul(q[1], RCos(q[2])), RMul(q[1], RSin(q[2])), q[3]>>
Pol(q) == <<RMul(q[1], RCos(q[2])), RMul(q[1], RSin(q[2]))>>
JSph(q) == LET st == RSin(q[2]) ct == RCos(q[2]) sp == RSin(q[3]) cp == RCos(q[3]) r == q[1]
  IN <<<<RMul(st, cp), RMul(r, RMul(ct, cp)), RNeg(RMul(r, RMul(st, sp)))>>, <<RMul(st, sp), RMul(r, RMul(ct, sp)), RMul(r, RMul(st, cp))>>, <<ct, RNeg(RMul(r, st)), 0>>>>
JPol(q) == LET s == RSin(q[2]) c == RCos(q[2]) IN <<<<c, RNeg(RMul(q[1], s))>>, <<s, RMul(q[1], c)>>>>
JCyl(q) == LET J == JPol(q) IN <<J[1] \o <<0>>, J[2] \o <<0>>, <<0, 0, 1>>>>
Cart(k, q) == CASE k \in {"sph", "isph"} -> Sph(q) [] k \in {"cyl", "icyl"} -> Cyl(q) [] k = "pol" -> Pol(q)
JCart(k, q) == CASE k \in {"sph", "isph"} -> JSph(q) [] k \in {"cyl", "icyl"} -> JCyl(q) [] k = "pol" -> JPol(q)
PiUp == "3.14159265358979324"
\* the coordinates are in their canonical ranges
Canon(k, q) == RGe(q[1], 0) /\ (IF k \in {"sph", "isph"} THEN RGe(q[2], 0) /\ RLe(q[2], PiUp) /\ RLe(RAbs(q[3]), PiUp) ELSE RLe(RAbs(q[2]), PiUp))
Big(v) == RMax(1, RMaxAbs(v))
----------------------------------------------------------------------------
\* a tensor as its components in row-major order; one index at a time is carried by a matrix
Pw(n, k) == n ^ k
Digit(p, n, K, i) == ((p \div Pw(n, K - i)) % n)
MoveIdx(c, n, K, i, M) == <<>> \o [p1 \in 1..Pw(n, K) |-> LET p == p1 - 1 d == Digit(p, n, K, i) b == p - d * Pw(n, K - i) IN RSum([m \in 1..n |-> RMul(M[d + 1][m], c[b + (m - 1) * Pw(n, K - i) + 1])])]
RECURSIVE MoveAll(_, _, _, _, _, _)
MoveAll(c, n, K, i, up, Ms) == IF i > K THEN c ELSE MoveAll(MoveIdx(c, n, K, i, IF up[i] THEN Ms[1] ELSE Ms[2]), n, K, i + 1, up, Ms)
=============================================================================
