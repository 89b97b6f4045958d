------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Trace validation, common to all domains.  A behaviour of this            *)
(* specification walks one recorded history; event l is accepted when the   *)
(* domain's specification allows it in the abstract state st (Ok), and the  *)
(* abstract state then moves by the domain's transition function (Upd).     *)
(* A rejected event is printed.  With Resume the walk goes on (the events   *)
(* do not depend on each other), otherwise the rest of that history is      *)
(* passed over.  Every history is walked to its end, so the number of       *)
(* distinct states is the number of events plus the number of histories.    *)
(***************************************************************************)
EXTENDS TraceFile
CONSTANTS St0, Ok(_, _), Upd(_, _), Resume
VARIABLES h, l, st, dead
TraceInit == h \in 1..TLen /\ l = 1 /\ st = St0 /\ dead = FALSE
TraceNext ==
  /\ l <= Len(Trace[h].ev)
  /\ h' = h /\ l' = l + 1
  /\ IF dead THEN st' = st /\ dead' = dead
     ELSE LET e == Trace[h].ev[l] IN
       IF Ok(st, e) THEN st' = Upd(st, e) /\ dead' = FALSE
       ELSE /\ PrintT("REJECT|" \o ToString(h) \o "|" \o ToString(l) \o "|")
            /\ IF Resume THEN st' = Upd(st, e) /\ dead' = FALSE ELSE st' = st /\ dead' = TRUE
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, st, dead>>
=============================================================================
