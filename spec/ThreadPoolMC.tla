---------------------------- MODULE ThreadPoolMC ----------------------------
(***************************************************************************)
(* The pool's algorithm - one mutex, a work condition, a completion         *)
(* condition, an in-flight counter decremented outside the mutex, a stop    *)
(* flag - for every interleaving, with spurious wake-ups.  Every behaviour  *)
(* is one of the abstract pool (Refines), waits return only when quiet,     *)
(* and everything terminates.                                               *)
(***************************************************************************)
EXTENDS ThreadPool, TLC
CONSTANTS NW, NT, NSub, Throwing, Spurious
Workers == 1..NW
Tasks == 1..NT
Subs == 1..NSub
VARIABLES q, inflight, stop, wpc, cur, spc, sleepW, sleepD, mpc, exc, done, spur, woke
vars == <<q, inflight, stop, wpc, cur, spc, sleepW, sleepD, mpc, exc, done, spur, woke>>
\* submitter k submits the tasks i with i % NSub = k - 1, in increasing order; main waits twice, then destroys
Mine(k) == {i \in Tasks : i % NSub = k - 1}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Init == /\ q = <<>> /\ inflight = 0 /\ stop = FALSE /\ wpc = [w \in Workers |-> "top"] /\ cur = [w \in Workers |-> 0]
        /\ spc = [k \in Subs |-> [left |-> Mine(k), sig |-> FALSE]]
        /\ sleepW = {} /\ sleepD = FALSE /\ mpc = "wait" /\ exc = <<>> /\ done = <<>> /\ spur = 0 /\ woke = FALSE
SubDone == \A k \in Subs : spc[k].left = {} /\ ~spc[k].sig
Submit(k) == /\ ~spc[k].sig /\ spc[k].left # {}
             /\ q' = Append(q, Least(spc[k].left))
             /\ spc' = [spc EXCEPT ![k] = [left |-> @.left \ {Least(@.left)}, sig |-> TRUE]]
             /\ UNCHANGED <<inflight, stop, wpc, cur, sleepW, sleepD, mpc, exc, done, spur, woke>>
Signal(k) == /\ spc[k].sig /\ spc' = [spc EXCEPT ![k].sig = FALSE]
             /\ (IF sleepW = {} THEN UNCHANGED <<sleepW, wpc>>
                 ELSE \E w \in sleepW : sleepW' = sleepW \ {w} /\ wpc' = [wpc EXCEPT ![w] = "top"])
             /\ UNCHANGED <<q, inflight, stop, cur, sleepD, mpc, exc, done, spur, woke>>
Top(w) == /\ wpc[w] = "top"
          /\ IF q # <<>> THEN /\ cur' = [cur EXCEPT ![w] = Head(q)] /\ q' = Tail(q) /\ inflight' = inflight + 1
                              /\ wpc' = [wpc EXCEPT ![w] = "run"] /\ UNCHANGED sleepW
             ELSE IF stop THEN wpc' = [wpc EXCEPT ![w] = "exit"] /\ UNCHANGED <<q, inflight, cur, sleepW>>
             ELSE sleepW' = sleepW \cup {w} /\ wpc' = [wpc EXCEPT ![w] = "sleep"] /\ UNCHANGED <<q, inflight, cur>>
          /\ UNCHANGED <<stop, spc, sleepD, mpc, exc, done, spur, woke>>
Run(w) == /\ wpc[w] = "run"
          /\ wpc' = [wpc EXCEPT ![w] = IF cur[w] \in Throwing THEN "capture" ELSE "dec"]
          /\ done' = Append(done, cur[w])
          /\ UNCHANGED <<q, inflight, stop, cur, spc, sleepW, sleepD, mpc, exc, spur, woke>>
Capture(w) == /\ wpc[w] = "capture" /\ exc' = Append(exc, cur[w]) /\ wpc' = [wpc EXCEPT ![w] = "dec"]
              /\ UNCHANGED <<q, inflight, stop, cur, spc, sleepW, sleepD, mpc, done, spur, woke>>
Dec(w) == /\ wpc[w] = "dec" /\ inflight' = inflight - 1 /\ cur' = [cur EXCEPT ![w] = 0]
          /\ wpc' = [wpc EXCEPT ![w] = IF inflight = 1 THEN "note" ELSE "top"]
          /\ UNCHANGED <<q, stop, spc, sleepW, sleepD, mpc, exc, done, spur, woke>>
Note(w) == /\ wpc[w] = "note" /\ wpc' = [wpc EXCEPT ![w] = "top"]
           /\ (IF q = <<>> /\ sleepD THEN sleepD' = FALSE /\ woke' = TRUE ELSE UNCHANGED <<sleepD, woke>>)
           /\ UNCHANGED <<q, inflight, stop, cur, spc, sleepW, mpc, exc, done, spur>>
Wait == /\ mpc \in {"wait", "wait2"} /\ ~sleepD
        /\ (mpc = "wait2" => SubDone)
        /\ IF q = <<>> /\ inflight = 0 THEN mpc' = (IF mpc = "wait" THEN "wait2" ELSE "destroy") /\ UNCHANGED sleepD
           ELSE sleepD' = TRUE /\ UNCHANGED mpc
        /\ UNCHANGED <<q, inflight, stop, wpc, cur, spc, sleepW, exc, done, spur, woke>>
Destroy == /\ mpc = "destroy" /\ stop' = TRUE /\ mpc' = "notify"
           /\ UNCHANGED <<q, inflight, wpc, cur, spc, sleepW, sleepD, exc, done, spur, woke>>
NotifyAll == /\ mpc = "notify" /\ mpc' = "join" /\ sleepW' = {} /\ wpc' = [w \in Workers |-> IF w \in sleepW THEN "top" ELSE wpc[w]]
             /\ UNCHANGED <<q, inflight, stop, cur, spc, sleepD, exc, done, spur, woke>>
Join == /\ mpc = "join" /\ \A w \in Workers : wpc[w] = "exit" /\ mpc' = "end"
        /\ UNCHANGED <<q, inflight, stop, wpc, cur, spc, sleepW, sleepD, exc, done, spur, woke>>
Spur == /\ spur < Spurious /\ spur' = spur + 1
        /\ \/ \E w \in sleepW : sleepW' = sleepW \ {w} /\ wpc' = [wpc EXCEPT ![w] = "top"] /\ UNCHANGED sleepD
           \/ sleepD /\ sleepD' = FALSE /\ UNCHANGED <<sleepW, wpc>>
        /\ UNCHANGED <<q, inflight, stop, cur, spc, mpc, exc, done, woke>>
Step == \/ \E k \in Subs : Submit(k) \/ Signal(k)
        \/ \E w \in Workers : Top(w) \/ Run(w) \/ Capture(w) \/ Dec(w) \/ Note(w)
        \/ Wait \/ Destroy \/ NotifyAll \/ Join
Next == Step \/ Spur
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

\* the abstract pool
SetOf(pcs) == {cur[w] : w \in {v \in Workers : wpc[v] \in pcs}}
Abs == [n |-> NW, calls |-> {}, q |-> q, taken |-> SetOf({"run"}), run |-> {},
        thr |-> {[i |-> t, cap |-> FALSE, cb |-> "yes"] : t \in SetOf({"capture"})}, fin |-> SetOf({"dec"}),
        done |-> {done[i] : i \in 1..Len(done)} \ (SetOf({"capture", "dec"})), exc |-> exc, cbset |-> FALSE, ops |-> {}, gone |-> mpc = "end"]
AbsNew(s) == {[s EXCEPT !.q = Append(s.q, i)] : i \in Tasks \ (s.done \cup {s.q[j] : j \in 1..Len(s.q)} \cup s.taken \cup s.fin \cup {t.i : t \in s.thr})}
AbsRun(s) == {[s EXCEPT !.taken = s.taken \ {i}, !.fin = s.fin \cup {i}] : i \in s.taken}
             \cup {[s EXCEPT !.taken = s.taken \ {i}, !.thr = s.thr \cup {[i |-> i, cap |-> FALSE, cb |-> "yes"]}] : i \in s.taken}
\* capturing and counting as finished are two steps of the abstract pool
Two(s) == UNION {Internal(t) : t \in Internal(s)}
Refines == [][Abs' \in {Abs} \cup AbsNew(Abs) \cup AbsRun(Abs) \cup Internal(Abs) \cup Two(Abs) \cup (IF Quiet(Abs) THEN {[Abs EXCEPT !.gone = TRUE]} ELSE {})]_vars
Counter == inflight = InFlight(Abs)
Once == \A i, j \in 1..Len(done) : i # j => done[i] # done[j]
WaitTruth == mpc \in {"destroy", "notify", "join", "end"} => Len(done) = NT /\ q = <<>> /\ inflight = 0
Captured == mpc = "end" => {exc[i] : i \in 1..Len(exc)} = Throwing /\ Len(exc) = Cardinality(Throwing)
Ends == <>(mpc = "end")
=============================================================================
