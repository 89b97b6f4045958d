----------------------------- MODULE TensorTrace -----------------------------
(* Validates recorded tensor calls.                                           *)
EXTENDS Tensor, TraceFile
VARIABLES h, l, st, dead
Eqv(t, u) == t.n = u.n /\ t.up = u.up /\ SameC(t.c, u.c) /\ t.hi = Ups(t) /\ t.lo = Rank(t) - Ups(t)
Got(e, want) == Chk("accepted", e.err = "") /\ Chk("components", SameC(e.r.c, want.c)) /\ Chk("variance", e.r.up = want.up /\ e.r.hi = Ups(want) /\ e.r.lo = Rank(want) - Ups(want))
Refused(e, s) == Chk("refused", e.err \in s)
NumErr == {"TensorCovarContravarNumError"}
IdxErr == {"TensorIndexError"}
\* contraction of a rank-three tensor returns a bare vector
Bare(e, want) == Chk("accepted", e.err = "") /\ Chk("components", SameC(e.r.c, want.c))
Ok(s, e) ==
  /\ Chk("operands unchanged", \A i \in 1..(IF Has(e, "ops") THEN Len(e.ops) ELSE 0) : Eqv(e.ops[i], e.ops[i]) /\ SameC(e.ops[i].c, e.after[i]))
  /\ CASE e.op = "new" -> IF e.lo < 0 \/ e.hi < 0 \/ e.lo + e.hi # e.k \/ Len(e.vals) > Pow(e.n, e.k) THEN Refused(e, NumErr) ELSE Got(e, New(e.n, e.lo, e.hi, e.vals))
    [] e.op = "flag" -> Got(e, [e.ops[1] EXCEPT !.up[e.i + 1] = e.v])
    [] e.op = "write" -> IF Good(e.ops[1].n, e.ix) THEN Got(e, Put(e.ops[1], e.ix, e.v)) ELSE Refused(e, IdxErr)
    [] e.op = "read" -> IF Good(e.ops[1].n, e.ix) THEN Chk("read", e.err = "" /\ REq(e.v, At(e.ops[1], e.ix))) ELSE Refused(e, IdxErr)
    [] e.op \in {"add", "sub"} -> IF Same(e.ops[1], e.ops[2]) THEN Got(e, IF e.op = "add" THEN Sum(e.ops[1], e.ops[2]) ELSE Diff(e.ops[1], e.ops[2])) ELSE Refused(e, {"TensorCovarContravarArithmeticError"})
    [] e.op = "scale" -> Got(e, Scale(e.ops[1], e.v))
    [] e.op = "contract" ->
         LET t == e.ops[1] k == Rank(t)
         IN IF k = 2 THEN (IF Ups(t) # 1 THEN Refused(e, NumErr) ELSE Bare(e, Contract(t, 1, 2)))
            ELSE IF e.i < 0 \/ e.j < 0 \/ e.i >= k \/ e.j >= k \/ e.i = e.j THEN Refused(e, IdxErr)
            ELSE IF k = 3 THEN Bare(e, Contract(t, e.i + 1, e.j + 1)) ELSE Got(e, Contract(t, e.i + 1, e.j + 1))
    [] e.op = "eval" -> Chk("multilinear sum", e.err = "" /\ Close(e.v, Eval(e.ops[1], e.vs), 1000, EvalSize(e.ops[1], e.vs)))
    [] e.op = "move" -> LET t == e.ops[1] G == IF e.dir = "raise" THEN Inv(e.g) ELSE e.g
                        IN IF e.i < 0 \/ e.i > 1 THEN Refused(e, IdxErr)
                           ELSE IF t.up[e.i + 1] = (e.dir = "raise") THEN Refused(e, NumErr)
                           ELSE LET w == Move(t, G, e.i + 1)
                                IN /\ Chk("accepted", e.err = "") /\ Chk("variance", e.r.up = w.up /\ e.r.hi = Ups(w) /\ e.r.lo = 2 - Ups(w))
                                   /\ Chk("components", \A p \in 1..Len(w.c) : Within(e.r.c[p], w.c[p], e.tol))
    [] e.op = "back" -> Chk("restored", \A p \in 1..Len(e.v) : Within(e.r[p], e.v[p], e.tol))
    [] e.op = "movev" -> Chk("vector", LET w == RMatVec(IF e.dir = "raise" THEN Inv(e.g) ELSE e.g, e.v) IN \A p \in 1..Len(w) : Within(e.r[p], w[p], e.tol))
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
