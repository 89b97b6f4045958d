----------------------------- MODULE ThreadPool -----------------------------
(***************************************************************************)
(* The thread pool as its clients see it.  A state is a record              *)
(*   n     number of workers                                                *)
(*   calls the submissions in progress: <<task>>                            *)
(*   q     tasks submitted and not taken, in submission order               *)
(*   taken tasks taken by a worker that have not begun                      *)
(*   run   tasks whose body is executing                                    *)
(*   thr   tasks that ended with an exception not yet dealt with:           *)
(*         [i |-> task, cap |-> captured?, cb |-> "no" | "due" | "in" | "yes"] *)
(*   fin   tasks that ended, but still count as in flight                   *)
(*   done  completed tasks                                                  *)
(*   exc   captured exceptions, oldest first                                *)
(*   cbset is an error callback installed?                                  *)
(*   ops   calls in progress: [c |-> call, op |-> name, lin |-> took effect?, val |-> result] *)
(*   gone  destructor returned                                              *)
(* Internal(s) are the states reachable by one step no client observes;     *)
(* Visible(s, e) those after an observed event.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
New(n) == [n |-> n, calls |-> {}, q |-> <<>>, taken |-> {}, run |-> {}, thr |-> {}, fin |-> {}, done |-> {},
           exc |-> <<>>, cbset |-> FALSE, ops |-> {}, gone |-> FALSE]
InFlight(s) == Cardinality(s.taken) + Cardinality(s.run) + Cardinality(s.thr) + Cardinality(s.fin)
Quiet(s) == s.q = <<>> /\ InFlight(s) = 0

\* the value a call obtains if it takes effect in s
Result(s, op) ==
  CASE op = "wait" -> "ok"
    [] op = "destroy" -> "ok"
    [] op = "has_tasks" -> ~Quiet(s)
    [] op = "pending" -> InFlight(s)
    [] op = "queued" -> Len(s.q)
    [] op = "has_exc" -> s.exc # <<>>
    [] op = "exc_count" -> Len(s.exc)
    [] op = "get_exc" -> IF s.exc = <<>> THEN 0 ELSE Head(s.exc)
    [] op = "rethrow" -> IF s.exc = <<>> THEN 0 ELSE Head(s.exc)
    [] op = "clear_exc" -> "ok"
    [] op = "set_cb" -> "ok"
    [] op = "unset_cb" -> "ok"
    [] op = "threads" -> s.n
Enabled(s, op) == op \in {"wait", "destroy"} => Quiet(s)
Effect(s, op) ==
  CASE op \in {"get_exc", "rethrow"} -> IF s.exc = <<>> THEN s ELSE [s EXCEPT !.exc = Tail(s.exc)]
    [] op = "clear_exc" -> [s EXCEPT !.exc = <<>>]
    [] op = "set_cb" -> [s EXCEPT !.cbset = TRUE]
    [] op = "unset_cb" -> [s EXCEPT !.cbset = FALSE]
    [] OTHER -> s

Internal(s) ==
  {[s EXCEPT !.calls = s.calls \ {i}, !.q = Append(s.q, i)] : i \in s.calls} \cup
  (IF s.q # <<>> /\ InFlight(s) < s.n THEN {[s EXCEPT !.q = Tail(s.q), !.taken = s.taken \cup {Head(s.q)}]} ELSE {}) \cup
  {[s EXCEPT !.thr = (s.thr \ {t}) \cup {[t EXCEPT !.cap = TRUE]}, !.exc = Append(s.exc, t.i)] : t \in {u \in s.thr : ~u.cap}} \cup
  {[s EXCEPT !.thr = (s.thr \ {t}) \cup {[t EXCEPT !.cb = IF s.cbset THEN "due" ELSE "yes"]}] : t \in {u \in s.thr : u.cb = "no"}} \cup
  {[s EXCEPT !.thr = s.thr \ {t}, !.fin = s.fin \cup {t.i}] : t \in {u \in s.thr : u.cap /\ u.cb = "yes"}} \cup
  {[s EXCEPT !.fin = s.fin \ {i}, !.done = s.done \cup {i}] : i \in s.fin} \cup
  {LET t == Effect(s, o.op) IN [t EXCEPT !.ops = (s.ops \ {o}) \cup {[o EXCEPT !.lin = TRUE, !.val = Result(s, o.op)]}]
     : o \in {p \in s.ops : ~p.lin /\ Enabled(s, p.op)}}

\* (a submission has taken effect by the time enqueue returns)
Visible(s, e) ==
  CASE e.op = "submit" -> {[s EXCEPT !.calls = s.calls \cup {e.i}]}
    [] e.op = "submitted" -> IF e.i \notin s.calls THEN {s} ELSE {}
    [] e.op = "start" -> IF e.i \in s.taken THEN {[s EXCEPT !.taken = s.taken \ {e.i}, !.run = s.run \cup {e.i}]} ELSE {}
    [] e.op = "end" -> IF e.i \notin s.run THEN {}
                       ELSE IF e.throws THEN {[s EXCEPT !.run = s.run \ {e.i}, !.thr = s.thr \cup {[i |-> e.i, cap |-> FALSE, cb |-> "no"]}]}
                       ELSE {[s EXCEPT !.run = s.run \ {e.i}, !.fin = s.fin \cup {e.i}]}
    [] e.op = "callback" -> {[s EXCEPT !.thr = (s.thr \ {t}) \cup {[t EXCEPT !.cb = "in"]}] : t \in {u \in s.thr : u.i = e.i /\ u.cb = "due"}}
    [] e.op = "callbackend" -> {[s EXCEPT !.thr = (s.thr \ {t}) \cup {[t EXCEPT !.cb = "yes"]}] : t \in {u \in s.thr : u.i = e.i /\ u.cb = "in"}}
    [] e.op = "call" -> {[s EXCEPT !.ops = s.ops \cup {[c |-> e.c, op |-> e.f, lin |-> FALSE, val |-> "none"]}]}
    [] e.op = "ret" -> {[s EXCEPT !.ops = s.ops \ {o}, !.gone = (o.op = "destroy")] : o \in {p \in s.ops : p.c = e.c /\ p.lin /\ p.val = e.val}}
    [] OTHER -> {}       \* deadlock, livelock, race, terminate: never
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Internal(s) : s \in S} IN IF T = S THEN S ELSE Closure(T)
=============================================================================
