------------------------------ MODULE TransfMC ------------------------------
(* Quaternions over small integers and rational rotations; laws of the definitions. *)
EXTENDS Transf, TLC
CONSTANTS Top
VARIABLES p, q
S == (0 - Top)..Top
Init == p = <<1, 0, 0, 0>> /\ q = <<1, 0, 0, 0>>
Next == \/ \E i \in 1..4, a \in S : p' = [p EXCEPT ![i] = a] /\ q' = q
        \/ \E i \in 1..4, a \in S : q' = [q EXCEPT ![i] = a] /\ p' = p
Spec == Init /\ [][Next]_<<p, q>>
\* keep the graph small: at most four non-zero entries in all
Few == RLe(RSumAbs([i \in 1..4 |-> IF p[i] = 0 THEN 0 ELSE 1] \o [i \in 1..4 |-> IF q[i] = 0 THEN 0 ELSE 1]), 4)
V == <<1, 2, 0 - 3>>
NormLaw == REq(Norm2(QMul(p, q)), RMul(Norm2(p), Norm2(q)))
ConjLaw == SeqREq(QConj(QMul(p, q)), QMul(QConj(q), QConj(p)))
InvLaw == SeqREq(QMul(p, QConj(p)), <<Norm2(p), 0, 0, 0>>)
RotLaw == SeqREq(QRot(QMul(p, q), V), QRot(p, QRot(q, V)))
MatLaw == SeqREq(RMatVec(QMat(p), V), QRot(p, V)) /\ (REq(Norm2(p), 0) \/ LET M == QMatN(p) IN MatREq(RMatMul(M, Tr(M)), Id(3)) /\ REq(RDet(M), 1) /\ MatREq(InvM(M), Tr(M)))
SignLaw == MatREq(QMat(Scal(0 - 1, p)), QMat(p))
UnitTable == LET i == <<0, 1, 0, 0>> j == <<0, 0, 1, 0>> k == <<0, 0, 0, 1>> m == <<0 - 1, 0, 0, 0>> IN SeqREq(QMul(i, i), m) /\ SeqREq(QMul(j, j), m) /\ SeqREq(QMul(k, k), m) /\ SeqREq(QMul(i, j), k) /\ SeqREq(QMul(j, k), i) /\ SeqREq(QMul(k, i), j) /\ SeqREq(QMul(QMul(i, j), k), m)
\* a point given by half-angle parameters: round trip and derivative of the curvilinear maps
Ang == RDiv(RAdd(p[1], RMul("0.5", p[2])), Top + 1)
Pt == <<RAdd(Norm2(q), "0.5"), RAdd("1.5", Ang), RDiv(RAdd(p[3], p[4]), Top)>>
T0 == "1e-40"
Deriv(k, x) == LET J == JCart(k, x) hh == "1e-20" n == Len(x)
               IN \A j \in 1..n : LET y == [x EXCEPT ![j] = RAdd(@, hh)] a == Cart(k, y) b == Cart(k, x) IN \A i \in 1..n : Within(RMul(RSub(a[i], b[i]), RDiv(1, hh)), J[i][j], "1e-17")
CurvLaw == Deriv("sph", Pt) /\ Deriv("cyl", <<Pt[1], Pt[2], Pt[3]>>) /\ Deriv("pol", <<Pt[1], Pt[3]>>)
           /\ Within(Norm2(Sph(Pt)), RMul(Pt[1], Pt[1]), T0)
           /\ LET J == JSph(Pt) G == RMatMul(Tr(J), J) IN NearM(G, <<<<1, 0, 0>>, <<0, RMul(Pt[1], Pt[1]), 0>>, <<0, 0, RPow(RMul(Pt[1], RSin(Pt[2])), 2)>>>>, T0)
EulerLaw == Within(Norm2(EulerZYX(Ang, 1, Pt[3])), 1, T0) /\ NearM(RMatMul(QMat(EulerZYX(Ang, 1, Pt[3])), QMat(EulerXYZ(RNeg(Pt[3]), 0 - 1, RNeg(Ang)))), Id(3), T0)
SlerpLaw == LET u == AxisQ(X, Ang) w == AxisQ(X, RAdd(Ang, 1)) IN NearV(Slerp(u, w, "0.25"), AxisQ(X, RAdd(Ang, "0.25")), T0)
TensLaw == LET M == QMat(p) c == <<1, 2, 3, 4, 5, 6, 7, 8, 9>> C == <<<<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>>>> A == RMatMul(RMatMul(M, C), Tr(QMat(q)))
           IN SeqREq(MoveIdx(MoveIdx(c, 3, 2, 1, M), 3, 2, 2, QMat(q)), A[1] \o A[2] \o A[3])
=============================================================================
