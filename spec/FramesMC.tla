------------------------------ MODULE FramesMC ------------------------------
(* The library's representation - a parent pointer and a child list per      *)
(* frame - refines the store, the tree stays acyclic, and the motions are     *)
(* rigid and compose.  With Depth the behaviours are printed as scripts.      *)
EXTENDS Frames, Json
CONSTANTS Max, Depth
VARIABLES fs, kids, hist, pend
vars == <<fs, kids, hist, pend>>
Init == fs = Empty /\ kids = <<>> /\ hist = <<>> /\ pend = ""
Log(x) == hist' = IF Depth = 0 THEN <<>> ELSE Append(hist, x)
Without(s, c) == SelectSeq(s, LAMBDA x : x # c)
Detach(k, c) == [i \in DOMAIN k |-> Without(k[i], c)]
Slots == 1..Max
New(i, p) == /\ i \notin Live(fs) /\ p \in Live(fs) \cup {0}
             /\ fs' = Create(fs, i, [k |-> "base"], p)
             /\ kids' = (i :> <<>>) @@ [j \in DOMAIN kids |-> IF j = p THEN Append(kids[j], i) ELSE kids[j]]
             /\ Log(<<"new", i, p>>)
SetP(i, j) == /\ i \in Live(fs) /\ j \in Live(fs) \cup {0} /\ fs' = SetPar(fs, i, j)
              /\ kids' = IF ~MaySet(fs, i, j) \/ fs.par[i] = j THEN kids
                         ELSE LET d == Detach(kids, i) IN IF j = 0 THEN d ELSE [d EXCEPT ![j] = Append(@, i)]
              /\ Log(<<"setparent", i, j>>)
Add(i, c) == /\ i \in Live(fs) /\ c \in Live(fs) \cup {0} /\ fs' = AddKid(fs, i, c)
             /\ kids' = IF ~MayAdd(fs, i, c) \/ fs.par[c] = i THEN kids ELSE [Detach(kids, c) EXCEPT ![i] = Append(@, c)]
             /\ Log(<<"addchild", i, c>>)
Drop(i, c) == /\ i \in Live(fs) /\ c \in Live(fs) \cup {0} /\ fs' = DropKid(fs, i, c)
              /\ kids' = IF MayDrop(fs, i, c) THEN [kids EXCEPT ![i] = Without(@, c)] ELSE kids
              /\ Log(<<"removechild", i, c>>)
Kill(i) == /\ i \in Live(fs) /\ fs' = Destroy(fs, i)
           /\ kids' = LET d == Detach(kids, i) IN [j \in DOMAIN d \ {i} |-> d[j]]
           /\ Log(<<"destroy", i, 0>>)
Ops == {"new", "set", "add", "drop", "kill"}
Step(o) == \E i \in Slots, j \in 0..Max : CASE o = "new" -> New(i, j) [] o = "set" -> SetP(i, j) [] o = "add" -> Add(i, j)
                                             [] o = "drop" -> Drop(i, j) [] o = "kill" -> j = 0 /\ Cardinality(Live(fs)) > 2 /\ Kill(i)
Next == IF Depth = 0 THEN pend' = "" /\ \E o \in Ops : Step(o)
        ELSE IF pend = "" THEN pend' \in (Ops \ {"kill"}) \cup (IF Len(hist) % 7 = 6 THEN {"kill"} ELSE {}) /\ UNCHANGED <<fs, kids, hist>>
        ELSE pend' = "" /\ (Step(pend) \/ (~ENABLED Step(pend) /\ UNCHANGED <<fs, kids, hist>>))
Spec == Init /\ [][Next]_vars
Acyclic == \A i \in Live(fs) : fs.par[i] # 0 => i \notin Above(fs, fs.par[i])
OneParent == \A i \in Live(fs) : fs.par[i] \in (Live(fs) \cup {0}) \ {i}
Refines == DOMAIN kids = Live(fs) /\ \A i \in Live(fs) : /\ {kids[i][n] : n \in 1..Len(kids[i])} = Kids(fs, i)
                                                         /\ Len(kids[i]) = Cardinality(Kids(fs, i))
Emit == (Depth > 0 /\ Len(hist) = Depth /\ pend = "") => PrintT("SCRIPT|" \o ToJson(hist))
Bounded == Depth = 0 \/ Len(hist) <= Depth
\* laws of the motions
Pts == {<<1, 0, 0>>, <<0, 2, 1>>, <<-1, 1, 3>>}
Rots == {[k |-> "rotating", axis |-> a, period |-> 8] : a \in {<<0, 0, 1>>, <<1, 2, 2>>, <<0, -1, 0>>}}
Close3(a, b) == SameV(a, b, "1e-20")
ASSUME \A m \in Rots, p \in Pts :
   /\ Close3(InParent(m, p, 0), p) /\ Close3(InParent(m, p, 8), p) /\ Close3(InParent(m, m.axis, 3), m.axis)
   /\ Close3(InParent(m, InParent(m, p, 1), 2), InParent(m, p, 3))
   /\ Within(VDot(InParent(m, p, 1), InParent(m, p, 1)), VDot(p, p), "1e-30")
ASSUME Close3(InParent([k |-> "rotating", axis |-> <<0, 0, 1>>, period |-> 4], <<1, 0, 5>>, 1), <<0, 1, 5>>)
ASSUME Close3(Geo(5, <<90, 33, 1>>), <<0, 0, 6>>) /\ Close3(Geo(5, <<0, 90, 0>>), <<0, 5, 0>>)
ASSUME LET m == [k |-> "orbit", radius |-> 3, angle |-> 0, period |-> 4] IN Close3(Origin(m, 1), <<0, 3, 0>>) /\ Close3(InParent(m, <<1, 1, 1>>, 2), <<-2, 1, 1>>)
=============================================================================
