----------------------------- MODULE StructMatMC -----------------------------
(* Explores the structured matrices on small values (StructMatMC.cfg) and      *)
(* writes long call sequences for the replay (StructMatGen.cfg).               *)
EXTENDS StructMat, TLC, Json
CONSTANTS Gen, MaxLen
VARIABLES cls, s, hist, pend
vars == <<cls, s, hist, pend>>
E0 == [op |-> "", t |-> 1, a |-> 1, b |-> 1, i |-> 0, j |-> 0, k |-> 0, l |-> 0, x |-> 0]
Slots == IF Gen THEN 1..3 ELSE 1..2
N == IF Gen THEN {2, 3, 4} ELSE {3}
X == IF Gen THEN {-2, 3} ELSE {2}
Lim == IF Gen THEN 20000 ELSE 16
Small(st) == \A t \in 1..3 : \A z \in 1..Len(st[t].L) : \A p \in 1..st[t].L[z].r, q \in 1..st[t].L[z].c : RLe(RAbs(st[t].L[z].d[p][q][1]), Lim)
Short(e) == <<e.op, e.t, e.a, e.b, e.i, e.j, e.k, e.l, e.x>>
Do(e) == LET R == SStep(cls, s, e) IN /\ Small(R.s) /\ s' = R.s /\ pend' = "" /\ UNCHANGED cls /\ hist' = IF Gen THEN Append(hist, Short(e)) ELSE hist
OpsOf(c) == CASE c = "sym" -> {"new", "newval", "newlist", "ident", "diag", "fromfull", "lower", "upper", "move", "set", "atset", "resize", "setval", "scaleeqel"}
              [] c = "tri" -> {"new", "newlist", "set", "trans"}
              [] c = "band" -> {"new", "set", "trans"}
              [] c = "cube" -> {"new", "newval", "resize", "resizeval", "move", "set", "fillall", "fill", "apply", "addsc", "addsceq", "scaleeqel", "addeqel"}
Cand(o) ==
  CASE o \in {"copy", "swap", "neg", "addeq", "subeq", "move", "trans"} -> {[E0 EXCEPT !.op = o, !.t = t, !.a = a] : t \in Slots, a \in Slots}
    [] o \in {"add", "subt"} -> {[E0 EXCEPT !.op = o, !.t = t, !.a = a, !.b = b] : t \in Slots, a \in Slots, b \in Slots}
    [] o \in {"scale", "lscale", "scaleeq", "apply", "addsc", "addsceq", "fill", "fillall", "setval"} -> {[E0 EXCEPT !.op = o, !.t = t, !.a = a, !.x = x] : t \in Slots, a \in Slots, x \in X}
    [] cls = "cube" -> {[E0 EXCEPT !.op = o, !.t = t, !.i = i, !.j = j, !.l = n, !.x = x] : t \in Slots, i \in 1..2, j \in 1..2, n \in 0..2, x \in X}
    [] cls = "band" /\ o = "new" -> {[E0 EXCEPT !.op = o, !.t = t, !.i = i, !.j = j, !.l = n, !.x = x] : t \in Slots, i \in 0..2, j \in 0..1, n \in N, x \in X}
    [] o \in {"set", "atset", "scaleeqel"} -> {[E0 EXCEPT !.op = o, !.t = t, !.i = i, !.j = j, !.x = x] : t \in Slots, i \in 0..2, j \in 0..3, x \in X}
    [] o \in {"fromfull", "lower", "upper"} -> {[E0 EXCEPT !.op = o, !.t = t, !.i = i, !.j = j, !.x = x] : t \in Slots, i \in 2..3, j \in 2..3, x \in X}
    [] OTHER -> {[E0 EXCEPT !.op = o, !.t = t, !.l = n, !.x = x, !.k = k] : t \in Slots, n \in N, x \in X, k \in IF o = "newlist" THEN {6, 7} ELSE {0, 1}}
Fits(e) == LET T == s[e.t] IN
  CASE cls = "sym" /\ e.op \in {"set", "scaleeqel"} -> In(e.i, T.L[1].r) /\ In(e.j, T.L[1].r)
    [] cls \in {"tri", "band"} /\ e.op = "set" -> In(e.i, T.L[1].r) /\ In(e.j, T.L[1].r)
    [] cls \in {"tri", "band"} /\ e.op \in {"copy", "scale", "lscale", "trans", "neg"} -> s[e.a].L[1].r > 0 /\ (cls = "band" \/ e.op # "neg")
    [] cls \in {"tri", "band"} /\ e.op \in {"add", "subt"} -> s[e.a].L[1].r > 0 /\ s[e.b].L[1].r > 0
    [] cls = "tri" /\ e.op \in {"addeq", "subeq", "scaleeq", "swap", "neg"} -> FALSE
    [] cls = "band" /\ e.op \in {"addeq", "subeq", "swap"} -> s[e.a].L[1].r > 0 /\ s[e.t].L[1].r > 0
    [] cls = "band" /\ e.op = "scaleeq" -> s[e.t].L[1].r > 0
    [] cls = "cube" /\ e.op \in {"scaleeqel", "addeqel"} -> In(e.i, T.p[1]) /\ In(e.j, T.p[2]) /\ In(e.l, T.p[3])
    [] cls = "cube" /\ e.op \in {"neg", "lscale"} -> FALSE
    [] OTHER -> TRUE
AllOps(c) == OpsOf(c) \cup {"copy", "scale", "lscale", "scaleeq", "neg", "add", "subt", "addeq", "subeq", "swap"}
Init == /\ cls \in {"sym", "tri", "band", "cube"} /\ s = (IF cls = "cube" THEN <<B0, B0, B0>> ELSE IF cls = "band" THEN <<[S0 EXCEPT !.p = <<0, 0>>], [S0 EXCEPT !.p = <<0, 0>>], [S0 EXCEPT !.p = <<0, 0>>]>> ELSE <<S0, S0, S0>>)
        /\ pend = "" /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ IF pend = "" THEN pend' \in AllOps(cls) /\ UNCHANGED <<cls, s, hist>>
           ELSE (\E e \in Cand(pend) : Fits(e) /\ Do(e)) \/ (pend' = "" /\ UNCHANGED <<cls, s, hist>>)
NextMC == \E o \in AllOps(cls) : \E e \in Cand(o) : Fits(e) /\ Do(e)
Spec == Init /\ [][Next]_vars
SpecMC == Init /\ [][NextMC]_vars
Bound == TLCGet("level") <= MaxLen
Inv == \A t \in 1..3 : Structured(cls, s[t])
Emit == Len(hist) = MaxLen => PrintT("SCRIPT|" \o ToJson(<<<<cls>>>> \o hist))
=============================================================================
