---------------------------- MODULE IterSolveTrace ----------------------------
(* Validates the recorded reports of the iterative solvers.                     *)
EXTENDS IterSolve, TraceFile
VARIABLES h, l, st, dead
Shape == {"MatrixDimensionError", "VectorDimensionError"}
Fits(e) == Rows(e.A) = Cols(e.A) /\ Len(e.b) = Rows(e.A)
W(e) == IF e.api = "optimal" THEN (IF Rows(e.A) <= 1 THEN e.wu ELSE RDiv(2, RAdd(1, RSin(RDiv(RPi, Rows(e.A)))))) ELSE e.w
Call(e) == [m |-> e.m, w |-> W(e), A |-> e.A, b |-> e.b, x0 |-> IF Len(e.x0) = Rows(e.A) THEN e.x0 ELSE Zero(Rows(e.A)), tol |-> e.tol, max |-> IF e.max < 0 THEN 0 ELSE e.max]
BadW(e) == e.m = "sor" /\ e.api # "optimal" /\ ~(RGt(e.w, 0) /\ RLt(e.w, 2))
Run(e) ==
  IF ~Fits(e) \/ BadW(e) \/ ZeroDiag(e.A)
  THEN Chk("refusal", e.err \in (IF ~Fits(e) THEN Shape ELSE {}) \cup (IF BadW(e) THEN {"NumericalMethodError", "ArgumentError"} ELSE {})
                                 \cup (IF Fits(e) /\ ZeroDiag(e.A) THEN {"SingularMatrixError"} ELSE {}))
  ELSE IF e.err # "" THEN Chk("refusal only for a vanishing diagonal", e.err = "SingularMatrixError" /\ TinyDiag(e.A))
  ELSE LET c == Call(e) r == e.r
       IN /\ Chk("iterations within the limit", InLimit(c, r))
          /\ Chk("success only below the tolerance", TrueSuccess(c, r))
          /\ Chk("failure only at the limit", TrueFailure(c, r))
          /\ Chk("residual describes the vector", TrueResidual(c, r))
          /\ Chk("initial residual", TrueStart(c, r))
          /\ Chk("vector is the stated iterate", TrueIterate(c, r))
          /\ Chk("status", e.api # "config" \/ IF r.conv THEN e.status = 0 /\ e.msg = "" ELSE e.status # 0 /\ e.msg # "")
          /\ Chk("report names the method", e.api # "config" \/ (e.name = e.m /\ (e.m = "sor" => REq(e.wu, e.w))))
Ok(s, e) ==
  CASE e.op = "run" -> Run(e)
    \* the short form throws exactly when the report says failure
    [] e.op = "simple" -> Chk("short form", IF e.err # "" THEN (IF e.full.err # "" THEN e.err = e.full.err ELSE e.err = "ConvergenceError" /\ ~e.full.conv) ELSE e.full.err = "" /\ e.full.conv /\ SeqREq(e.x, e.full.x))
    \* a sampled relaxation factor with the least residual
    [] e.op = "estimate" -> Chk("best of the samples", \E i \in 1..Len(e.ws) : REq(e.w, e.ws[i]) /\ \A j \in 1..Len(e.ws) : RIsNum(e.rs[j]) => (RIsNum(e.rs[i]) => RLe(e.rs[i], e.rs[j])))
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
