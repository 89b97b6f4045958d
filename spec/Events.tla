------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Events during an integration.  An event function is watched at           *)
(* increasing times; it crosses zero when its sign differs from the last    *)
(* sign it had (being exactly zero is not yet a crossing).  A crossing in    *)
(* the wanted direction is an event: the run continues, stops there, or     *)
(* restarts from a changed state, after which the event just handled starts *)
(* from zero.                                                                *)
(***************************************************************************)
EXTENDS Expr, Sequences, Integers
Wanted(dir, s) == dir = "both" \/ (dir = "up" /\ s > 0) \/ (dir = "down" /\ s < 0)
\* one observation of the detector: the side remembered, and whether an event is due
Side(side, now) == IF now = 0 THEN side ELSE now
Fires(side, now, dir) == side # 0 /\ now # 0 /\ now # side /\ Wanted(dir, now)
\* the definition: the positions in a sequence of signs at which a crossing completes
LastSign(q, k) == LET N == {j \in 1..k : q[j] # 0} IN IF N = {} THEN 0 ELSE q[CHOOSE j \in N : \A m \in N : m <= j]
CrossingsAt(q) == {k \in 2..Len(q) : q[k] # 0 /\ LastSign(q, k - 1) # 0 /\ LastSign(q, k - 1) # q[k]}
\* the exact state at time ts + tau of the solution that was xs at ts; sol is a formula in <<tau, xs...>>
Flow(sol, xs, tau) == Vals(sol, <<tau>> \o xs)
G(g, t, x) == Val(g, <<t>> \o x)
=============================================================================
