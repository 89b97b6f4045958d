------------------------------- MODULE DynMC -------------------------------
(* Dynamical systems explored: points of a grid of states and parameters of every system and map. *)
EXTENDS Dyn, TLC
CONSTANTS Depth
VARIABLES sys, x, B
Grid == 0..2
Vl(k) == LET T == <<"-0.75", "0.5", "1.25", "2", "0.25", "-1.5", "0.125">> IN T[1 + (k % 7)]
Names == DOMAIN Sys
NP(s) == Sys[s].n + Len(Sys[s].params)
Point(s, k) == <<>> \o [i \in 1..NP(s) |-> IF s = "doublependulum" /\ i > 4 THEN RAbs(Vl(k[((i - 1) % Depth) + 1] * i + i)) ELSE Vl(k[((i - 1) % Depth) + 1] * i + i)]
Blk == {<<a>> : a \in (0 - 1)..1} \cup {<<a, 1>> : a \in (0 - 1)..1}
Init == sys = "none" /\ x = <<>> /\ B = <<>>
Next == \/ sys = "none" /\ sys' \in Names /\ x' = <<>> /\ B' = <<>>
        \/ sys # "none" /\ Len(x) < Depth /\ \E g \in 0..6 : x' = Append(x, g) /\ UNCHANGED <<sys, B>>
        \/ sys = "none" /\ Len(B) < 2 /\ \E b \in Blk : B' = Append(B, b) /\ UNCHANGED <<sys, x>>
Spec == Init /\ [][Next]_<<sys, x, B>>
Full == sys # "none" /\ Len(x) = Depth
\* first integrals do not change along the flow
Conserved == Full => LET S == Sys[sys] p == Point(sys, x) IN \A i \in DOMAIN S.inv : RLe(RAbs(Rate(S.inv[i], S.f, S.n, p)), "1e-40")
\* the Jacobian is the derivative: difference quotients along each axis approach it
JacOk == Full => LET S == Sys[sys] p == Point(sys, x) h == "1e-9" IN sys # "chua" => \A i \in 1..S.n : \A j \in 1..S.n :
   LET q(s) == [p EXCEPT ![j] = RAdd(p[j], RMul(s, h))] d == RDiv(RSub(Val(S.f[i], q(1)), Val(S.f[i], q(0 - 1))), RMul(2, h)) IN RLe(RAbs(RSub(d, Val(D(S.f[i], j), p))), "1e-12")
\* the flow of Lorenz contracts volumes at a constant rate, Henon-Heiles preserves them
Volume == Full => LET S == Sys[sys] p == Point(sys, x) tr == RSum(<<>> \o [i \in 1..S.n |-> Val(D(S.f[i], i), p)]) IN
   /\ sys = "lorenz" => REq(tr, RNeg(RAdd(1, RAdd(p[4], p[6]))))
   /\ sys = "henonheiles" => REq(tr, 0)
\* the kind of a fixed point agrees with stability, and reversing time exchanges stable and unstable
KindOk == Len(B) > 0 => LET R == [i \in DOMAIN B |-> [B[i] EXCEPT ![1] = 0 - B[i][1]]] k == Kind(B) r == Kind(R) IN
   /\ (Stable(B) <=> k \in {"Stable Node", "Stable Focus"})
   /\ (k = "Stable Node") = (r = "Unstable Node") /\ (k = "Stable Focus") = (r = "Unstable Focus") /\ (k \in {"Saddle", "Saddle-Focus", "Center"} => r = k)
   /\ LET A == BlockMat(B) IN Len(A) = (LET RECURSIVE o(_) o(j) == IF j = 0 THEN 0 ELSE o(j - 1) + Len(B[j]) IN o(Len(B)))
\* Kaplan-Yorke lies between the number of leading exponents and the next integer
KyOk == Full => LET L == <<RAbs(Vl(x[1])), RNeg(RAbs(Vl(x[Depth]))), "-3">> d == KaplanYorke(L) IN RGe(d, 1) /\ RLe(d, 3)
Inv == Conserved /\ JacOk /\ Volume /\ KindOk /\ KyOk
=============================================================================
