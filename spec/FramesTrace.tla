----------------------------- MODULE FramesTrace -----------------------------
(* Validates recorded histories of reference frames.                          *)
EXTENDS Frames, TraceFile
VARIABLES h, l, st, dead
New(s, e) == CASE e.op = "new" -> Create(s, e.i, e.mot, e.p)
               [] e.op = "setparent" -> SetPar(s, e.i, e.j)
               [] e.op = "addchild" -> AddKid(s, e.i, e.j)
               [] e.op = "removechild" -> DropKid(s, e.i, e.j)
               [] e.op = "destroy" -> Destroy(s, e.i)
               [] OTHER -> s
Links(s, o) ==
  /\ Chk("every live frame observed", {o[n].i : n \in 1..Len(o)} = Live(s))
  /\ \A n \in 1..Len(o) : /\ Chk("parent", o[n].p = s.par[o[n].i])
                          /\ Chk("children, each once", {o[n].c[m] : m \in 1..Len(o[n].c)} = Kids(s, o[n].i) /\ Len(o[n].c) = Cardinality(Kids(s, o[n].i)))
RECURSIVE Chain(_, _, _, _, _)
\* position after each transform from frame i to the root
Chain(s, i, p, t, acc) == IF i = 0 THEN acc ELSE LET q == InParent(s.mot[i], p, t) IN Chain(s, s.par[i], q, t, Append(acc, q))
RECURSIVE Steps(_, _, _)
Steps(s, i, e) == IF i = 0 THEN <<>> ELSE <<i>> \o Steps(s, s.par[i], e)
Pos(s, e) ==
  LET fr == Steps(s, e.i, e)
  IN /\ Chk("chain of parents", e.via = fr)
     \* every step is the transform of its frame, applied to what the step before returned
     /\ \A n \in 1..Len(fr) : LET p == IF n = 1 THEN e.pos ELSE e.res[n - 1] IN
          Chk("transform of a frame", SameV(e.res[n], InParent(s.mot[fr[n]], p, e.t), Size(s.mot[fr[n]], p, e.t)))
     /\ Chk("origin", SameV(e.org, Origin(s.mot[e.i], e.t), Size(s.mot[e.i], O, e.t)))
Ok(s, e) ==
  IF e.op = "pos" THEN Pos(s, e)
  ELSE /\ Chk("accepted or refused", CASE e.op = "setparent" -> e.res = MaySet(s, e.i, e.j)
                                      [] e.op = "addchild" -> e.res = MayAdd(s, e.i, e.j)
                                      [] e.op = "removechild" -> e.res = MayDrop(s, e.i, e.j)
                                      [] OTHER -> TRUE)
       /\ Links(New(s, e), e.obs)
K3(v) == <<RKeep(v[1]), RKeep(v[2]), RKeep(v[3])>>
Upd(s, e) == New(s, e)
INSTANCE TraceRun WITH St0 <- Empty, Resume <- FALSE
=============================================================================
