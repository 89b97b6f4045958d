------------------------------- MODULE OptimMC -------------------------------
(* The minimising machines over every value table, with any choice of trials. *)
EXTENDS Optim, TLC
CONSTANTS N, M
VARIABLES f, ph, s, s0, y, y0
vars == <<f, ph, s, s0, y, y0>>
G == 0..N
F(i) == f[i]
Init == f \in [G -> 0..M] /\ ph = "walk" /\ \E a, b \in G : a # b /\ s0 = <<a, b>> /\ s = <<a, b, b>> /\ y0 \in [1..3 -> 0..M] /\ y = y0 /\ (y0[1] = f[0] /\ y0[2] = f[1] /\ y0[3] = f[2])
\* bracketing: downhill first, then outwards
First == /\ ph = "walk" /\ LET a == IF f[s0[2]] > f[s0[1]] THEN s0[2] ELSE s0[1] b == IF a = s0[1] THEN s0[2] ELSE s0[1] IN
            \E c \in G : (b - a) * (c - b) > 0 /\ s' = <<a, b, c>> /\ ph' = "out" /\ UNCHANGED <<f, s0, y, y0>>
Out == /\ ph = "out" /\ f[s[2]] > f[s[3]] /\ \E c \in G : (s[3] - s[2]) * (c - s[3]) > 0 /\ s' = Walk(F, s, c) /\ UNCHANGED <<f, ph, s0, y, y0>>
Got == /\ ph = "out" /\ f[s[2]] <= f[s[3]] /\ ph' = "in" /\ s' = [a |-> IF s[1] < s[3] THEN s[1] ELSE s[3], x |-> s[2], b |-> IF s[1] < s[3] THEN s[3] ELSE s[1]] /\ UNCHANGED <<f, s0, y, y0>>
In == /\ ph = "in" /\ \E u \in G : s.a < u /\ u < s.b /\ u # s.x /\ s' = Try(F, s, u) /\ UNCHANGED <<f, ph, s0, y, y0>>
\* the simplex values: the worst replaced by a better one, or all but the best re-evaluated
Worst == CHOOSE i \in 1..3 : \A j \in 1..3 : y[j] <= y[i]
Best == CHOOSE i \in 1..3 : \A j \in 1..3 : y[i] <= y[j]
Simplex == /\ ph = "walk" /\ UNCHANGED <<f, ph, s, s0, y0>> /\ (\/ \E v \in 0..M : v < y[Worst] /\ y' = [y EXCEPT ![Worst] = v]
                                        \/ \E u, v \in 0..M : y' = [i \in 1..3 |-> IF i = Best THEN y[i] ELSE IF i = (Best % 3) + 1 THEN u ELSE v])
Next == First \/ Out \/ Got \/ In \/ Simplex
Spec == Init /\ [][Next]_vars
Bracketed == ph = "in" => Brackets(F, s.a, s.x, s.b)
NotWorse == ph = "in" => f[s.x] <= f[s0[1]] /\ f[s.x] <= f[s0[2]]
KeepsMinimum == ph = "in" => \A m \in G : Unimodal(f, G, m) => s.a <= m /\ m <= s.b
Simple == MinOf(y) <= MinOf(y0)
Law == [][ph = "in" => s'.b - s'.a < s.b - s.a]_vars
=============================================================================
