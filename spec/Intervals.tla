----------------------------- MODULE Intervals -----------------------------
(***************************************************************************)
(* Intervals as sets of reals.  A simple interval is a record               *)
(*   [lo, lt, hi, ut, hole, step]                                           *)
(* with end kinds "O" (open), "C" (closed), "I" (infinite) and, when        *)
(* step # 0, the points hole + n*step removed.                              *)
(***************************************************************************)
EXTENDS Rat, Integers, FiniteSets

Above(x, I) == CASE I.lt = "I" -> TRUE [] I.lt = "C" -> RLe(I.lo, x) [] OTHER -> RLt(I.lo, x)
Below(x, I) == CASE I.ut = "I" -> TRUE [] I.ut = "C" -> RLe(x, I.hi) [] OTHER -> RLt(x, I.hi)
AtHole(x, I) == IF REq(I.step, 0) THEN FALSE ELSE RIsInt(RDiv(RSub(x, I.hole), I.step))
In(x, I) == Above(x, I) /\ Below(x, I) /\ ~AtHole(x, I)

InOp(op, x, a, b) ==
  CASE op = "inter" -> In(x, a) /\ In(x, b)
    [] op = "union" -> In(x, a) \/ In(x, b)
    [] op = "diff"  -> In(x, a) /\ ~In(x, b)
    [] op = "compl" -> ~In(x, a)

InSome(x, S) == \E i \in 1..Len(S) : In(x, S[i])

\* convex (hole-free) intervals: J contains I, J meets I
Nonempty(I) == I.lt = "I" \/ I.ut = "I" \/ RLt(I.lo, I.hi) \/ (REq(I.lo, I.hi) /\ I.lt = "C" /\ I.ut = "C")
Covers(J, I) ==
  \/ ~Nonempty(I)
  \/ /\ \/ J.lt = "I"
        \/ I.lt # "I" /\ (RLt(J.lo, I.lo) \/ (REq(J.lo, I.lo) /\ (J.lt = "C" \/ I.lt = "O")))
     /\ \/ J.ut = "I"
        \/ I.ut # "I" /\ (RLt(I.hi, J.hi) \/ (REq(I.hi, J.hi) /\ (J.ut = "C" \/ I.ut = "O")))
\* some point of I is above J's lower end kind and below the upper one
LoLe(I, J) == I.lt = "I" \/ J.ut = "I" \/ RLt(I.lo, J.hi) \/ (REq(I.lo, J.hi) /\ I.lt = "C" /\ J.ut = "C")
Meets(I, J) == Nonempty(I) /\ Nonempty(J) /\ LoLe(I, J) /\ LoLe(J, I)
=============================================================================
