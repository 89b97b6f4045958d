------------------------------ MODULE LinSysMC ------------------------------
(* Elimination with every possible choice of pivot, on all small systems: it   *)
(* keeps the determinant and the solution set, gets stuck exactly on singular  *)
(* matrices, and what it ends with is accepted by the answer relations, while  *)
(* perturbed answers are not.                                                  *)
EXTENDS LinSys, TLC
CONSTANTS N, Vals
V2 == {-1, 0, 1, 2}
V3 == {-1, 0, 2}
VARIABLES A0, b0, s
vars == <<A0, b0, s>>
Mats == [1..N -> [1..N -> Vals]]
Bs == {[i \in 1..N |-> i], [i \in 1..N |-> IF i = 1 THEN 0 - 2 ELSE 0]}
Init == A0 \in Mats /\ b0 \in Bs /\ s = ElimInit(A0, b0)
Next == /\ s.k <= N
        /\ \E p \in Pivots(s) : s' = Eliminate(SwapRowsOf(s, p))
        /\ UNCHANGED <<A0, b0>>
Spec == Init /\ [][Next]_vars
Done == s.k > N
Stuck == ~Done /\ Pivots(s) = {}
KeepsDet == REq(RMul(s.sign, RDet(s.A)), RDet(A0))
StuckIff == (Stuck => Singular(A0)) /\ (Done => ~Singular(A0))
Solves == Done => LET x == BackSub(s.A, s.b, 1) IN
   /\ SeqREq(RMatVec(A0, x), b0) /\ Answers(A0, x, b0, 1) /\ LeastSquares(A0, x, b0)
   /\ ~Answers(A0, [x EXCEPT ![1] = RAdd(@, "1/1000")], b0, 1)
   /\ IsInverse(A0, Inverse(A0)) /\ IsDet(A0, RDet(A0)) /\ ~IsDet(A0, RAdd(RDet(A0), "1/1000"))
PD == (Symmetric(A0) /\ PosDef(A0)) => ~NotPosDef(A0) /\ ~Singular(A0)
Twin == (ZeroLine(A0) \/ TwinRows(A0)) => Singular(A0)
Inv == KeepsDet /\ StuckIff /\ Solves /\ PD /\ Twin
=============================================================================
