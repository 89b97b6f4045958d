------------------------------ MODULE LinAlgMC ------------------------------
(* Explores the vector and matrix calls on small values (LinAlgMC.cfg), and   *)
(* writes long call sequences for the replay (LinAlgGen.cfg).                 *)
EXTENDS LinAlg, TLC, Json
CONSTANTS Gen, MaxLen
VARIABLES s, hist, pend
vars == <<s, hist, pend>>
\* when generating, a step first picks the call, then its arguments
Sel(S) == IF Gen THEN S \cap {pend} ELSE S
E0 == [op |-> "", t |-> 1, a |-> 1, b |-> 1, i |-> 0, j |-> 0, k |-> 0, l |-> 0, x |-> 0]
Slots == IF Gen THEN 1..3 ELSE 1..2
D == IF Gen THEN {0, 2, 3} ELSE 1..2
X == IF Gen THEN {-3} ELSE {-1}
Small(st) == \A t \in 1..3 : /\ \A p \in 1..st.M[t].r, q \in 1..st.M[t].c : RLe(RAbs(st.M[t].d[p][q][1]), IF Gen THEN 30000 ELSE 4) /\ RLe(RAbs(st.M[t].d[p][q][2]), IF Gen THEN 30000 ELSE 4)
                             /\ \A p \in 1..Len(st.V[t]) : RLe(RAbs(st.V[t][p][1]), IF Gen THEN 30000 ELSE 4)
                             /\ (~Gen => Len(st.V[t]) <= 2) /\ Len(st.V[t]) <= 6
Short(e) == <<e.op, e.t, e.a, e.b, e.i, e.j, e.k, e.l, e.x>>
Do(e) == LET R == Step(s, e) IN /\ Small(R.s) /\ s' = R.s /\ pend' = "" /\ hist' = IF Gen THEN Append(hist, Short(e)) ELSE hist
M1 == \E o \in Sel({"new", "newval", "newptr", "ident"}), t \in Slots, i \in D, j \in D, x \in X, k \in {0, 1} : Do([E0 EXCEPT !.op = o, !.t = t, !.i = i, !.j = j, !.k = k, !.x = x])
M2 == \E o \in Sel({"copy", "move", "swap", "addeq", "subeq", "neg", "trans"}), t \in Slots, a \in Slots : Do([E0 EXCEPT !.op = o, !.t = t, !.a = a])
M3 == \E o \in Sel({"add", "subt", "mul", "comm"}), t \in Slots, a \in Slots, b \in Slots : Do([E0 EXCEPT !.op = o, !.t = t, !.a = a, !.b = b])
M4 == \E o \in Sel({"atset", "resize"}), t \in Slots, i \in D, j \in D, x \in X, k \in {0, 1} : Do([E0 EXCEPT !.op = o, !.t = t, !.i = i, !.j = j, !.k = k, !.x = x])
M5 == \E o \in Sel({"sub", "blockset"}), t \in Slots, a \in Slots, i \in D, j \in {0, 1}, k \in {1, 2}, n \in {1, 2}, x \in X : Do([E0 EXCEPT !.op = o, !.t = t, !.a = a, !.i = i, !.j = j, !.k = k, !.l = n, !.x = x])
M6 == \E o \in Sel({"swaprows", "swapcols", "scaleeqel", "scaleel"}), t \in Slots, i \in 0..2, j \in 0..2 : /\ (o \in {"scaleeqel", "scaleel"} => (i < s.M[t].r /\ j < s.M[t].c)) /\ Do([E0 EXCEPT !.op = o, !.t = t, !.i = i, !.j = j])
M7 == \E o \in Sel({"rowset", "colset", "diag", "rowm", "colm"}), t \in Slots, a \in Slots, i \in D : Do([E0 EXCEPT !.op = o, !.t = t, !.a = a, !.i = i])
M8 == \E o \in Sel({"scale", "lower", "upper", "scaleeq", "transeq", "unit"}), t \in Slots, a \in Slots, x \in X, k \in {0, 1} : Do([E0 EXCEPT !.op = o, !.t = t, !.a = a, !.x = x, !.k = k])
V1 == \E o \in Sel({"vnew", "vfill", "vunit", "vpush", "vresize", "vscaleeq"}), t \in Slots, i \in D, n \in D, x \in X : Do([E0 EXCEPT !.op = o, !.t = t, !.i = i, !.l = n, !.x = x])
V2 == \E o \in Sel({"vcopy", "vmove", "vaddeq", "vsubeq", "vneg"}), t \in Slots, a \in Slots : Do([E0 EXCEPT !.op = o, !.t = t, !.a = a])
V3 == \E o \in Sel({"vadd", "vsub", "mv", "vm", "outer"}), t \in Slots, a \in Slots, b \in Slots : Do([E0 EXCEPT !.op = o, !.t = t, !.a = a, !.b = b])
V4 == \E o \in Sel({"vset", "verase", "vinsel", "veraseel", "vpushel", "vscaleeqel"}), t \in Slots, i \in 0..3, j \in 0..1, x \in X : /\ i < Len(s.V[t]) /\ j < Len(s.V[t]) /\ Do([E0 EXCEPT !.op = o, !.t = t, !.i = i, !.j = j, !.x = x])
V5 == \E o \in Sel({"rowv", "colv", "diagv"}), t \in Slots, a \in Slots, i \in D : Do([E0 EXCEPT !.op = o, !.t = t, !.a = a, !.i = i])
AllOps == {"add", "addeq", "atset", "blockset", "colm", "colset", "colv", "comm", "copy", "diag", "diagv", "ident", "lower", "move", "mul", "mv", "neg", "new", "newptr", "newval", "outer", "resize", "rowm", "rowset", "rowv", "scale", "scaleel", "scaleeq", "scaleeqel", "sub", "subeq", "subt", "swap", "swapcols", "swaprows", "trans", "transeq", "unit", "upper", "vadd", "vaddeq", "vcopy", "verase", "veraseel", "vfill", "vinsel", "vm", "vmove", "vneg", "vnew", "vpush", "vpushel", "vresize", "vscaleeq", "vscaleeqel", "vset", "vsub", "vsubeq", "vunit"}
Init == pend = "" /\ s = [cpx |-> FALSE, M |-> <<Empty, Empty, Empty>>, V |-> <<<<>>, <<>>, <<>>>>] /\ hist = <<>>
Args == M1 \/ M2 \/ M3 \/ M4 \/ M5 \/ M6 \/ M7 \/ M8 \/ V1 \/ V2 \/ V3 \/ V4 \/ V5
Next == /\ Len(hist) < MaxLen
        /\ IF pend = "" THEN pend' \in AllOps /\ UNCHANGED <<s, hist>>
           ELSE Args \/ (pend' = "" /\ UNCHANGED <<s, hist>>)
NextMC == M1 \/ M2 \/ M3 \/ M4 \/ M6 \/ M8 \/ V1 \/ V3 \/ V5
Spec == Init /\ [][Next]_vars
SpecMC == Init /\ [][NextMC]_vars
Bound == TLCGet("level") <= MaxLen
Inv == WellFormed(s) /\ \A a, b \in 1..2 : Laws(s.M[a], s.M[b], s.V[1])
Emit == Len(hist) = MaxLen => PrintT("SCRIPT|" \o ToJson(hist))
=============================================================================
