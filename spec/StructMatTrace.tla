--------------------------- MODULE StructMatTrace ---------------------------
(* Validates recorded call sequences on structured matrices.                  *)
EXTENDS StructMat, TraceFile
VARIABLES h, l, st, dead
Obs(old, ch, t) == IF \E i \in 1..Len(ch) : ch[i][1] = t THEN ch[CHOOSE i \in 1..Len(ch) : ch[i][1] = t][2] ELSE old[t]
Start(c) == IF c = "cube" THEN <<B0, B0, B0>> ELSE IF c = "band" THEN [t \in 1..3 |-> [S0 EXCEPT !.p = <<0, 0>>]] ELSE <<S0, S0, S0>>
N2(x) == Close(x[1], x[2], 64, RMax(1, RAbs(x[2])))
\* the leading pivots of an elimination without row exchanges
Piv(A, k) == RDet([i \in 1..k |-> [j \in 1..k |-> A.d[i][j][1]]])
TriErrOk(A) == \E k \in 1..A.r : RLe(RAbs(Piv(A, k)), RMul("1e-12", RAbs(IF k = 1 THEN 1 ELSE Piv(A, k - 1))))
MaxV(v) == IF v = <<>> THEN 0 ELSE RMaxAbs([i \in 1..Len(v) |-> v[i][1]])
Returned(c, s, e) ==
  LET R == SStep(c, s, e)
      A == s[e.a].L[1]
  IN CASE e.op \in {"figs"} -> Len(e.ret) = Len(R.ret) /\ \A i \in 1..Len(e.ret) : N2(<<e.ret[i][1], R.ret[i][1]>>)
       [] e.op \in {"cmp", "issym", "inband"} -> e.ret = R.ret
       [] e.op \in {"asmat", "mulsym", "mulmat", "full"} -> MEq(e.ret, R.ret)
       [] e.op \in {"mv", "vm", "rowv", "colv", "diagv", "diagk"} -> VEq(e.ret, R.ret)
       [] OTHER -> e.ret = <<>>
Special(c, s, e) ==
  LET A == s[e.a].L[1]
      v == FV(A.r, e.x)
  IN CASE e.op = "solve" -> IF e.err # "" THEN e.err = "SingularMatrixError" /\ TriErrOk(A)
                            ELSE LET Ax == MVec(A, e.ret) IN Len(e.ret) = A.r /\ \A i \in 1..A.r : RLe(RAbs(RSub(Ax[i][1], v[i][1])), RMul("1e-13", RMul(RMul(RMax(1, NInf(A)), RMax(1, NInf(A))), RMax(1, MaxV(e.ret)))))
       [] e.op = "inv" -> IF A.r = 0 THEN e.err = "MatrixDimensionError" ELSE IF e.err # "" THEN e.err = "SingularMatrixError" /\ RLe(RAbs(Det(A)), "1e-9")
                          ELSE ~REq(Det(A), 0) => LET P == MMul(A, e.ret) IN RLe(NInf(MSub(P, MIdent(A.r))), RMul("1e-13", RMul(RMax(1, NInf(A)), RMax(1, NInf(e.ret)))))
Ok(s, e) ==
  CASE e.op = "cls" -> TRUE
    [] e.op = "all" -> Chk("nothing else changed", \A t \in 1..3 : SEq(e.S[t], s.S[t]))
    [] e.op = "inv" /\ s.cls = "sym" -> Chk("inverse", e.ch = <<>> /\ Special(s.cls, s.S, e))
    [] e.op = "solve" -> Chk("solve", e.ch = <<>> /\ Special(s.cls, s.S, e))
    [] OTHER -> LET R == SStep(s.cls, s.S, e) IN
         /\ Chk("refusal", IF R.err = {} THEN e.err = "" ELSE e.err \in R.err)
         /\ Chk("values", \A t \in 1..3 : SEq(Obs(s.S, e.ch, t), R.s[t]))
         /\ Chk("result", R.err # {} \/ Returned(s.cls, s.S, e))
Upd(s, e) == IF e.op = "cls" THEN [cls |-> e.cls, S |-> Start(e.cls)] ELSE IF e.op \in {"all", "inv", "solve"} THEN s ELSE [s EXCEPT !.S = SStep(s.cls, s.S, e).s]
INSTANCE TraceRun WITH St0 <- [cls |-> "sym", S |-> <<S0, S0, S0>>], Resume <- FALSE
=============================================================================
