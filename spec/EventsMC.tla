------------------------------ MODULE EventsMC ------------------------------
(* Two event functions observed with every sequence of signs, under every direction and action: the detector that only *)
(* remembers sides reports exactly the crossings of the definition, each once, in order, and nothing after a stop.     *)
EXTENDS Events, FiniteSets
CONSTANT MaxLen
Sg == {1, 0, 0 - 1}
Dirs == {"up", "down", "both"}
Acts == {"continue", "stop", "restart"}
VARIABLES dir, act, seen, side, log, over
vars == <<dir, act, seen, side, log, over>>
Init == /\ dir \in [1..2 -> Dirs] /\ act \in [1..2 -> Acts] /\ \E a, b \in Sg : seen = <<<<a, b>>>> /\ side = <<a, b>>
        /\ log = <<>> /\ over = FALSE
\* the state is seen with signs a, b; of two events due at once the first is acted on first
Due(now) == {i \in 1..2 : Fires(side[i], now[i], dir[i])}
RECURSIVE Act(_, _, _)
Act(i, now, r) == IF i > 2 \/ r.over \/ r.restart THEN r ELSE
  IF i \notin Due(now) THEN Act(i + 1, now, r)
  ELSE Act(i + 1, now, [log |-> Append(r.log, <<i, Len(seen) + 1>>), over |-> act[i] = "stop", restart |-> act[i] = "restart", by |-> i])
Observe(now) == LET r == Act(1, now, [log |-> log, over |-> FALSE, restart |-> FALSE, by |-> 0]) IN
  /\ ~over /\ Len(seen) < MaxLen
  /\ log' = r.log /\ over' = r.over
  /\ (IF r.restart THEN \* the state is changed; the handled function starts from zero, the other wherever the new state puts it
        \E b \in Sg : LET s == [i \in 1..2 |-> IF i = r.by THEN 0 ELSE b] IN seen' = Append(seen, s) /\ side' = <<>> \o s
      ELSE seen' = Append(seen, now) /\ side' = <<Side(side[1], now[1]), Side(side[2], now[2])>>)
  /\ UNCHANGED <<dir, act>>
Next == \E a, b \in Sg : Observe(<<a, b>>)
Spec == Init /\ [][Next]_vars
Of(i) == [k \in DOMAIN seen |-> seen[k][i]]
Quiet == \A i \in 1..2 : act[i] # "restart"
Exact == Quiet => \A i \in 1..2 : LET C == {k \in CrossingsAt(Of(i)) : Wanted(dir[i], seen[k][i])} L == {log[k][2] : k \in {m \in DOMAIN log : log[m][1] = i}} IN
          /\ L \subseteq C /\ Cardinality({m \in DOMAIN log : log[m][1] = i}) = Cardinality(L) /\ (~over => L = C)
Ordered == \A k \in DOMAIN log : \A m \in DOMAIN log : k < m => log[k][2] <= log[m][2]
StopLast == over => log # <<>> /\ act[log[Len(log)][1]] = "stop" /\ \A k \in 1..(Len(log) - 1) : act[log[k][1]] # "stop"
NeverAgain == \A k \in DOMAIN log : \A m \in DOMAIN log : (k # m /\ log[k][1] = log[m][1]) => log[k][2] # log[m][2]
\* handling an event by a restart that changes nothing does not find it again
NoEcho == \A k \in DOMAIN log : act[log[k][1]] = "restart" => \A m \in DOMAIN log : (m > k /\ log[m][1] = log[k][1]) => log[m][2] >= log[k][2] + 2
SideIs == side = <<LastSign(Of(1), Len(seen)), LastSign(Of(2), Len(seen))>> \/ ~Quiet \/ over
=============================================================================
