--------------------------- MODULE IntervalsTrace ---------------------------
(* Validates recorded interval operations against Intervals.                *)
EXTENDS Intervals, TraceFile
VARIABLES h, l, st, dead

Big == "1e300"
NegBig(v) == v = "-inf" \/ RLt(v, "-1e300")
PosBig(v) == v = "inf" \/ RLt(Big, v)

\* The critical points e.pts (ascending, containing every finite end) cut the line into points
\* and gaps; on each the operations are constant, so the set is described by its values on the
\* representatives.
Reps(P) == [k \in 1..(2 * Len(P) + 1) |->
   IF k = 1 THEN RSub(P[1], 1) ELSE IF k = 2 * Len(P) + 1 THEN RAdd(P[Len(P)], 1)
   ELSE IF k % 2 = 0 THEN RatOf(P[k \div 2]) ELSE RDiv(RAdd(P[k \div 2], P[k \div 2 + 1]), 2)]
Ascending(P) == \A i \in 1..(Len(P) - 1) : RLt(P[i], P[i + 1])
EndsIn(I, P) == /\ I.lt = "I" \/ \E i \in 1..Len(P) : REq(P[i], I.lo)
                /\ I.ut = "I" \/ \E i \in 1..Len(P) : REq(P[i], I.hi)

\* infimum, supremum and measure of a non-empty set given by its values m on Reps(P)
First(m) == CHOOSE k \in 1..Len(m) : m[k] /\ \A j \in 1..(k - 1) : ~m[j]
Last(m) == CHOOSE k \in 1..Len(m) : m[k] /\ \A j \in (k + 1)..Len(m) : ~m[j]
InfIs(m, P, v) == LET k == First(m) IN
  IF k = 1 THEN NegBig(v) ELSE REq(v, P[k \div 2])
SupIs(m, P, v) == LET k == Last(m) IN
  IF k = Len(m) THEN PosBig(v) ELSE REq(v, P[(k + 1) \div 2])
GapLen(m, P) == RSum([i \in 1..(Len(P) - 1) |-> IF m[2 * i + 1] THEN RSub(P[i + 1], P[i]) ELSE 0])

Queries(e, Mem(_)) ==
  \A i \in 1..Len(e.q) : Chk("membership", Mem(e.q[i][1]) = e.q[i][2])

Ok(s, e) ==
  CASE e.op = "simple" ->
         LET Mem(x) == In(x, e.a) IN
         /\ Queries(e, Mem)
         /\ Chk("lower bound", IF e.a.lt = "I" THEN NegBig(e.lo) ELSE REq(e.lo, e.a.lo))
         /\ Chk("upper bound", IF e.a.ut = "I" THEN PosBig(e.hi) ELSE REq(e.hi, e.a.hi))
         /\ Chk("length", e.a.lt = "I" \/ e.a.ut = "I" \/ CloseRel(e.len, RSub(e.a.hi, e.a.lo), 2))
         /\ Chk("measure", e.a.lt = "I" \/ e.a.ut = "I" \/ CloseRel(e.meas, RSub(e.a.hi, e.a.lo), 2))
         /\ Chk("continuous", e.cont = REq(e.a.step, 0))
    [] e.op \in {"inter", "union", "diff", "compl"} ->
         LET Mem(x) == InOp(e.op, x, e.a, e.b)
             R == Reps(e.pts)
             m == [k \in 1..Len(R) |-> Mem(R[k])]
         IN /\ Ascending(e.pts) /\ EndsIn(e.a, e.pts) /\ EndsIn(e.b, e.pts)
            /\ Queries(e, Mem)
            /\ IF \E k \in 1..Len(m) : m[k]
               THEN /\ Chk("infimum", InfIs(m, e.pts, e.lo))
                    /\ Chk("supremum", SupIs(m, e.pts, e.hi))
                    /\ Chk("measure", IF m[1] \/ m[Len(m)] THEN PosBig(e.meas) ELSE CloseRel(e.meas, GapLen(m, e.pts), 8))
                    /\ Chk("hull length", IF m[1] \/ m[Len(m)] THEN PosBig(e.len) ELSE CloseRel(e.len, RSub(e.hi, e.lo), 2))
               ELSE Chk("empty measure", REq(e.meas, 0))
    [] e.op = "comp" ->       \* composite built by AddInterval
         LET Mem(x) == InSome(x, e.parts) IN
         /\ Queries(e, Mem)
         /\ Chk("summed length", CloseRel(e.meas, RSum([i \in 1..Len(e.parts) |-> RSub(e.parts[i].hi, e.parts[i].lo)]), 8))
         /\ Chk("hull", \/ e.parts = <<>> /\ REq(e.len, 0)
                        \/ /\ \A i \in 1..Len(e.parts) : RLe(e.lo, e.parts[i].lo) /\ RLe(e.parts[i].hi, e.hi)
                           /\ \E i \in 1..Len(e.parts) : REq(e.lo, e.parts[i].lo)
                           /\ \E i \in 1..Len(e.parts) : REq(e.hi, e.parts[i].hi)
                           /\ CloseRel(e.len, RSub(e.hi, e.lo), 2))
    [] e.op = "rel" ->        \* composite against a simple interval
         /\ Chk("contains interval", e.contains = (\E i \in 1..Len(e.parts) : Covers(e.parts[i], e.b)))
         /\ Chk("intersects interval", e.intersects = (\E i \in 1..Len(e.parts) : Meets(e.parts[i], e.b)))
    [] e.op = "cover" ->
         /\ Chk("number of points", Len(e.pts) = IF e.n < 0 THEN 0 ELSE e.n)
         /\ Chk("inside", \A i \in 1..Len(e.pts) : In(e.pts[i], e.a))
         /\ Chk("ascending", Ascending(e.pts))
         /\ Chk("ends and spacing", e.n < 2 \/ e.a.lt = "I" \/ e.a.ut = "I" \/
              LET w == RSub(e.a.hi, e.a.lo)
                  sc == RMax(RAbs(e.a.lo), RAbs(e.a.hi)) IN
              /\ e.a.lt = "C" => REq(e.pts[1], e.a.lo)
              /\ e.a.ut = "C" => Close(e.pts[e.n], e.a.hi, 8, sc)
              /\ \A i \in 1..e.n :
                   LET x == RAdd(e.a.lo, RDiv(RMul(i - 1, w), e.n - 1))
                       tol == RAdd(RMul(RMul(16, Eps), sc), IF (i = 1 /\ e.a.lt = "O") \/ (i = e.n /\ e.a.ut = "O") THEN RMul("0.01", RDiv(w, e.n - 1)) ELSE 0)
                   IN Within(e.pts[i], x, tol))
    [] e.op = "ccover" ->
         /\ Chk("inside", \A i \in 1..Len(e.pts) : InSome(e.pts[i], e.parts))
         /\ Chk("every part covered", e.n <= 0 \/ \A k \in 1..Len(e.parts) : \E i \in 1..Len(e.pts) : In(e.pts[i], e.parts[k]))
         /\ Chk("ascending", Ascending(e.pts))
         /\ Chk("total", Len(e.pts) = IF e.n < Len(e.parts) THEN (IF e.n <= 0 THEN 0 ELSE Len(e.parts)) ELSE e.n)
    [] OTHER -> Chk("unknown operation", FALSE)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
