----------------------------- MODULE IterSolveMC -----------------------------
(* The three iterations on all small systems: the only fixed points are the   *)
(* solutions, SOR with w = 1 is Gauss-Seidel, errors shrink for dominant      *)
(* matrices, and the result relations accept exactly the true report.         *)
EXTENDS IterSolve, TLC
CONSTANTS Vals, Max
V1 == {-1, 0, 1, 3}
V2 == {-2, -1, 0, 1, 2, 4}
VARIABLES c, x, k, conv
vars == <<c, x, k, conv>>
Ws == {"1/2", "1", "3/2"}
Calls == {[m |-> m, w |-> IF m = "sor" THEN w ELSE "1", A |-> A, b |-> b, x0 |-> x0, tol |-> "1/100", max |-> Max] :
            m \in {"jacobi", "gs", "sor"}, w \in Ws, A \in {M \in [1..2 -> [1..2 -> Vals]] : ~ZeroDiag(M)}, b \in {<<1, 2>>, <<0, 0>>}, x0 \in {<<0, 0>>, <<1, -1>>}}
Init == c \in Calls /\ x = c.x0 /\ k = 0 /\ conv = FALSE
Next == /\ ~conv /\ k < c.max
        /\ LET y == Sweep(c.m, c.w, c.A, c.b, x)
           IN x' = [i \in 1..2 |-> RKeep(y[i])] /\ conv' = RLt(RelRes(c.A, c.b, y), c.tol)
        /\ k' = k + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Report == [x |-> x, it |-> k, res |-> RelRes(c.A, c.b, x), init |-> RelRes(c.A, c.b, c.x0), conv |-> conv]
Accept(r) == InLimit(c, r) /\ TrueResidual(c, r) /\ TrueSuccess(c, r) /\ TrueFailure(c, r) /\ TrueIterate(c, r) /\ TrueStart(c, r)
Ended == conv \/ k = c.max
Accepts == Ended => Accept(Report)
Rejects == Ended => /\ ~Accept([Report EXCEPT !.it = @ + 1])
                    /\ (k > 0 => ~Accept([Report EXCEPT !.conv = ~@]))
                    /\ ~Accept([Report EXCEPT !.res = RAdd(@, "1/10")])
                    /\ ~Accept([Report EXCEPT !.x[1] = RAdd(@, "1/10")])
                    /\ (RGt(NormV(VSubt(c.x0, x)), "1/1000") => ~Accept([Report EXCEPT !.x = c.x0]))
Y == Sweep(c.m, c.w, c.A, c.b, x)
Near0(v) == RLe(NormV(v), "1e-50")
Fixed == SeqREq(RMatVec(c.A, x), c.b) => Near0(VSubt(Y, x))
FixedOnly == SeqREq(Y, x) => Near0(Residual(c.A, x, c.b))
Relaxed == (c.m = "sor" /\ REq(c.w, 1)) => SeqREq(Y, Sweep("gs", 1, c.A, c.b, x))
Shrinks == (Dominant(c.A) /\ c.m # "sor") =>
   LET s == RMatVec(Inverse(c.A), c.b) IN RLe(NormV(VSubt(Y, s)), RAdd(NormV(VSubt(x, s)), "1e-50"))
Inv == Accepts /\ Rejects /\ Fixed /\ FixedOnly /\ Relaxed /\ Shrinks
=============================================================================
