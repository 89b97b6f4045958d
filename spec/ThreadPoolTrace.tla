-------------------------- MODULE ThreadPoolTrace --------------------------
(* Validates recorded schedules.  The abstract state of the walk is the set *)
(* of pool states compatible with what was observed so far.                 *)
EXTENDS ThreadPool, TraceFile
VARIABLES h, l, st, dead
Step(S, e) == IF e.op = "new" THEN Closure({New(e.n)}) ELSE Closure(UNION {Visible(s, e) : s \in S})
Why(e) == CASE e.op \in {"deadlock", "livelock", "race", "terminate"} -> e.op
            [] e.op = "ret" -> "call result"
            [] e.op = "start" -> "task start"
            [] OTHER -> e.op
Ok(S, e) == IF e.op = "final" THEN Chk("all tasks completed exactly once", \E s \in S : s.done = 1..e.tasks /\ Quiet(s))
            ELSE Chk(Why(e), Step(S, e) # {})
Upd(S, e) == IF e.op = "final" THEN S ELSE Step(S, e)
INSTANCE TraceRun WITH St0 <- {}, Resume <- FALSE
=============================================================================
