---------------------------- MODULE SavedFileMC ----------------------------
(* A reader that knows the formats but not the object goes through the complete *)
(* file line by line: it stops exactly at its end, having seen as many records    *)
(* as the header says, from the first to the last parameter of the range.          *)
EXTENDS SavedFile, TLC
CONSTANTS NMax
F1 == <<"+", <<"*", <<"x", 1>>, <<"x", 1>>>>, <<"c", 1>>>>
F2 == <<"-", <<"x", 1>>, <<"*", <<"c", 2>>, <<"x", 2>>>>>>
Range1s == {<<0, 1>>, <<-1, 3>>}
T == <<"a", "title">>
Cases ==
  {<<k, [a |-> <<r[1]>>, b |-> <<r[2]>>, n |-> <<n>>, p |-> 15, fs |-> <<F1>>, title |-> T, legend |-> <<<<"f">>>>, type |-> "C"]>> : k \in {"real", "eq", "multi", "curve"}, r \in Range1s, n \in 2..NMax}
\cup {<<k, [a |-> <<r[1], 0>>, b |-> <<r[2], 2>>, n |-> <<n, m>>, fs |-> <<F2>>, title |-> T, thr |-> "none", type |-> "V"]>> : k \in {"surf", "sf2"}, r \in Range1s, n, m \in 2..3}
\cup {<<"sim", [balls |-> b, dt |-> "1/2", every |-> e, dims |-> <<1, 2>>, pos |-> [j \in 1..b |-> [i \in 1..n |-> <<i, j>>]], colors |-> [j \in 1..b |-> "red"], radii |-> [j \in 1..b |-> 1], ballw |-> [j \in 1..b |-> "Ball"], title |-> T]>> : b \in 1..2, e \in 1..4, n \in 0..NMax}
\cup {<<"lines", [d |-> 2, ls |-> [k \in 1..n |-> [j \in 1..m * (k % 2) |-> <<j, k>>]], title |-> T]>> : n \in 1..3, m \in 0..2}
VARIABLES k, c, pos, need, seen, first, last
vars == <<k, c, pos, need, seen, first, last>>
file == Expected(k, c)
Init == \E x \in Cases : k = x[1] /\ c = x[2] /\ pos = 1 /\ need = <<"head">> /\ seen = 0 /\ first = 0 /\ last = 0
L == file[pos]
IsW(w) == L # <<>> /\ "s" \in DOMAIN L[1] /\ L[1].s = w
\* need: what the reader expects next: the header; n records of one line; frames of b balls; n lines of points
Count == {"NumPoints:", "NumPointsU:", "NumPointsX:"}
Next ==
  /\ pos <= Len(file) /\ pos' = pos + 1 /\ UNCHANGED <<k, c>>
  /\ CASE need[1] = "head" /\ pos = 1 -> UNCHANGED <<need, seen, first, last>>
       [] need[1] = "head" /\ \E w \in Count : IsW(w) -> need' = (IF IsW("NumPoints:") THEN <<"rec", RToInt(L[2].n)>> ELSE <<"grid", RToInt(L[2].n)>>) /\ UNCHANGED <<seen, first, last>>
       [] need[1] = "grid" /\ (IsW("NumPointsW:") \/ IsW("NumPointsY:")) -> need' = <<"rec", need[2] * RToInt(L[2].n)>> /\ UNCHANGED <<seen, first, last>>
       [] need[1] = "grid" -> UNCHANGED <<need, seen, first, last>>
       [] need[1] = "rec" -> need' = <<"rec", need[2] - 1>> /\ seen' = seen + 1 /\ last' = pos /\ first' = IF seen = 0 THEN pos ELSE first
       [] need[1] = "head" /\ IsW("NumSteps:") -> need' = <<"frame", L[2].n, 0>> /\ UNCHANGED <<seen, first, last>>
       [] need[1] = "frame" /\ need[3] = 0 -> IsW("Step") /\ need' = <<"frame", need[2] - 1, c.balls>> /\ seen' = seen + 1 /\ UNCHANGED <<first, last>>
       [] need[1] = "frame" -> need' = <<"frame", need[2], need[3] - 1>> /\ UNCHANGED <<seen, first, last>>
       [] need[1] = "head" /\ IsW("NUM_LINES:") -> need' = <<"line", L[2].n>> /\ UNCHANGED <<seen, first, last>>
       [] need[1] = "line" -> IsW("LINE") /\ need' = <<"size", need[2]>> /\ UNCHANGED <<seen, first, last>>
       [] need[1] = "size" -> need' = <<IF L[1].n = 0 THEN "line" ELSE "point", need[2] - 1, L[1].n>> /\ seen' = seen + 1 /\ UNCHANGED <<first, last>>
       [] need[1] = "point" -> need' = (IF need[3] = 1 THEN <<"line", need[2]>> ELSE <<"point", need[2], need[3] - 1>>) /\ UNCHANGED <<seen, first, last>>
       [] OTHER -> UNCHANGED <<need, seen, first, last>>
Spec == Init /\ [][Next]_vars
AtEnd == pos > Len(file)
Arrives == AtEnd => /\ need[1] \in {"rec", "frame", "line"} /\ need[2] = 0 /\ (need[1] = "frame" => need[3] = 0)
NotEarly == (~AtEnd /\ need[1] \in {"rec", "line"}) => need[2] > 0
EndsOfRange == (AtEnd /\ k \in {"real", "multi", "curve", "surf", "sf2"}) => REq(file[first][1].n, c.a[1]) /\ REq(file[last][1].n, c.b[1])
Progress == ~AtEnd => ENABLED Next
Whole == Complete(file, [i \in DOMAIN file |-> [j \in DOMAIN file[i] |-> IF "s" \in DOMAIN file[i][j] THEN file[i][j].s ELSE file[i][j].n]])
AllValid == Valid(k, c)
=============================================================================
