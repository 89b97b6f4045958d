---------------------------- MODULE KDTreeTrace ----------------------------
(* Validates recorded histories of one spatial index object.  The state is  *)
(* the point sequence it holds.                                             *)
EXTENDS KDTree, TraceFile
VARIABLES h, l, st, dead
\* a depth-d binary tree with n points in leaves
StatsOk(P, s, leaf) ==
  /\ s.n = Len(P)
  /\ IF Len(P) = 0 THEN s.nodes = 0 /\ s.leaves = 0
     ELSE /\ s.nodes = 2 * s.leaves - 1          \* every inner node has two children
          /\ s.leaves <= Len(P)
          /\ s.leaves * (IF leaf > 1 THEN leaf ELSE 1) >= Len(P)
          /\ s.depth < s.nodes
Ok(P, e) ==
  CASE e.op = "build" -> /\ Chk("size", e.size = Len(e.pts) /\ e.empty = (e.pts = <<>>))
                         /\ Chk("stats", StatsOk(e.pts, e.stats, e.leaf))
                         /\ Chk("point", e.back = e.pts)
    [] e.op = "clear" -> Chk("cleared", e.size = 0 /\ e.empty)
    [] e.op = "move" -> Chk("moved", e.size = Len(P) /\ e.empty = (P = <<>>) /\ e.back = P)
    [] e.op = "nearest" -> IF P = <<>> THEN Chk("nothing to find", ~e.found)
                           ELSE Chk("found", e.found /\ e.status = 0) /\ Chk("nearest", NearestOk(P, e.q, e.i, e.d, e.k))
    [] e.op = "knn" -> IF P = <<>> THEN Chk("nothing to find", e.i = <<>> /\ e.d = <<>>)
                       ELSE /\ Chk("k nearest", KNearestOk(P, e.q, e.n, e.i, e.d, e.k))
                            /\ Chk("status", (e.status = 0) = (e.n > 0))
    [] e.op = "radius" -> IF P = <<>> THEN Chk("nothing to find", e.i = <<>> /\ e.d = <<>>)
                          ELSE IF RLt(e.r, 0) THEN Chk("negative radius refused", e.i = <<>> /\ e.status # 0)
                          ELSE Chk("in radius", e.status = 0 /\ RadiusOk(P, e.q, e.r, e.i, e.d, e.k))
    [] e.op = "box" -> Chk("in box", BoxOk(P, e.lo, e.hi, e.i))
    [] OTHER -> FALSE
Upd(P, e) == CASE e.op = "build" -> e.pts
               [] e.op = "clear" -> <<>>
               [] OTHER -> P
INSTANCE TraceRun WITH St0 <- <<>>, Resume <- FALSE
=============================================================================
