--------------------------- MODULE SavedFileTrace ---------------------------
(* Validates saves: a save with valid arguments to a writable place leaves the   *)
(* complete file; anything else is a failed result.                               *)
EXTENDS SavedFile, TraceFile
VARIABLES h, l, st, dead
\* a curve without a title may leave its line out
Files(e) == LET x == Expected(e.k, e.c) IN IF "title" \in DOMAIN e.c /\ e.c.title = <<>> /\ e.k \in {"curve", "curvepts", "vals", "valspts", "xy", "ode2", "ode3"} THEN {x, <<x[1]>> \o SubSeq(x, 3, Len(x))} ELSE {x}
Save(e) ==
  /\ Chk("no exception", e.throw = "")
  /\ IF ~Valid(e.k, e.c) THEN Chk("invalid arguments are refused", e.err \in (IF e.where = "nodir" THEN {"PARAM", "OPEN"} ELSE {"PARAM"}))
     ELSE CASE e.where = "nodir" -> Chk("unopenable file", e.err = "OPEN")
            [] e.where = "noname" -> Chk("no file name", e.err = "PARAM")
            [] e.where \in {"full", "broken"} -> Chk("failed write", e.err = "WRITE")
            [] OTHER -> Chk("saved", e.err = "" /\ e.nl) /\ Chk("complete file", \E y \in Files(e) : Complete(y, e.lines))
Ok(s, e) == Save(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
