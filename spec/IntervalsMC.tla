---------------------------- MODULE IntervalsMC ----------------------------
(* Exhaustive check, over all intervals with ends in a small grid and all   *)
(* compositions of up to MaxParts parts, that the set operations satisfy    *)
(* the laws of sets and that the closed forms Covers and Meets are the      *)
(* set-theoretic ones.  A composite grows by AddInterval.                   *)
EXTENDS Intervals, TLC
CONSTANTS N, MaxParts
VARIABLE parts
\* 2i is the grid point i, odd numbers the gaps between, -1 and 2N+1 beyond: enough
\* representatives for sets with ends in 0..N (scaled by 2)
Pts == (-1)..(2 * N + 1)
Simple == { [lo |-> 2 * a, lt |-> lt, hi |-> 2 * b, ut |-> ut, hole |-> 0, step |-> s] :
             a \in 0..N, b \in 0..N, lt \in {"O", "C", "I"}, ut \in {"O", "C", "I"}, s \in {0} }
Valid == {I \in Simple : (I.lt = "I" \/ I.ut = "I" \/ I.lo < I.hi \/ (I.lo = I.hi /\ I.lt = "C" /\ I.ut = "C"))
                          /\ (I.lt = "I" => I.lo = 0) /\ (I.ut = "I" => I.hi = 0)}
Den(I) == {x \in Pts : In(x, I)}
DenS(S) == {x \in Pts : InSome(x, S)}
Init == parts = <<>>
AddInterval(I) == Len(parts) < MaxParts /\ parts' = Append(parts, I)
Next == \E I \in Valid : AddInterval(I)
Spec == Init /\ [][Next]_parts

Laws == \A i, j \in 1..Len(parts) : LET a == parts[i] b == parts[j] IN
  /\ {x \in Pts : InOp("inter", x, a, b)} = Den(a) \cap Den(b)
  /\ {x \in Pts : InOp("diff", x, a, b)} \cup {x \in Pts : InOp("inter", x, a, b)} = Den(a)
  /\ \A x \in Pts : InOp("union", x, a, b) = ~(InOp("compl", x, a, b) /\ InOp("compl", x, b, a))
  /\ Covers(a, b) = (Den(b) \subseteq Den(a))
  /\ Meets(a, b) = (Den(a) \cap Den(b) # {})
Monotone == \A i \in 1..Len(parts) : Den(parts[i]) \subseteq DenS(parts)
\* holes never add a point
HoleLaw == \A i \in 1..Len(parts) : \A h \in {0, 1}, s \in {2, 4} :
   LET H == [parts[i] EXCEPT !.hole = h, !.step = s] IN Den(H) = {x \in Den(parts[i]) : (x - h) % s # 0}
=============================================================================
