------------------------------ MODULE TableMC ------------------------------
(* A table built by adding, clearing and re-formatting: in every format, what is *)
(* written reads back as the rows added since the last clear, whatever the texts. *)
(* With Depth the histories are printed as scripts.                               *)
EXTENDS Table, TLC, Json
CONSTANTS Depth, Alpha, MaxLen, MaxRows
Cells == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
VARIABLES rows, ops, hist
vars == <<rows, ops, hist>>
Hdr == <<<<97, 124>>, <<98, 38>>>>
Init == rows = <<>> /\ ops = 0 /\ hist = <<>>
Log(x) == hist' = IF Depth = 0 THEN <<>> ELSE Append(hist, x)
Tick == ops' = IF Depth = 0 THEN 0 ELSE ops + 1
Add(a, b) == Len(rows) < MaxRows /\ rows' = Append(rows, <<a, b>>) /\ Log(<<"add", 2, Len(rows)>>)
AddWrong(n) == Depth > 0 /\ rows' = rows /\ Log(<<"add", n, 0>>)
Clear == rows # <<>> /\ rows' = <<>> /\ Log(<<"clear", 0, 0>>)
Format(c, v) == Depth > 0 /\ rows' = rows /\ Log(<<"fmt", c, v>>)
Style(v) == Depth > 0 /\ rows' = rows /\ Log(<<"style", v, 0>>)
Export(f) == Depth > 0 /\ rows' = rows /\ Log(<<"exp", f, 0>>)
Next == Tick /\ (\/ \E a, b \in (IF Depth > 0 THEN {<<97>>} ELSE Cells) : Add(a, b)
                 \/ \E n \in {1, 3} : AddWrong(n)
                 \/ Clear
                 \/ \E c \in 0..3, v \in 1..6 : Format(c, v)
                 \/ \E v \in 1..8 : Style(v)
                 \/ \E f \in 1..6 : Export(f))
Spec == Init /\ [][Next]_vars
All == <<Hdr>> \o rows
Fmts == {"csv", "tsv", "md", "tex", "html"}
\* "<" is left out of Markdown texts: a written <br> is a line break there
ReadsBack == \A f \in Fmts : Reads(f, Write(f, All), All)
Refuses == Depth > 0 \/ ~Reads("csv", Write("csv", All), Append(All, Hdr))
Emit == (Depth > 0 /\ Len(hist) = Depth) => PrintT("SCRIPT|" \o ToJson(hist))
Bounded == Depth = 0 \/ Len(hist) <= Depth
C1 == [name |-> B("x"), w |-> -1, al |-> "center"]  C2 == [name |-> B("yy"), w |-> 4, al |-> "left"]
ASSUME Console(<<C1, C2>>, <<<<B("abcd"), B("1")>>>>, [b |-> "simple", head |-> TRUE, sep |-> FALSE], FALSE) =
  B("+------+------+") \o <<LF>> \o B("|  x   | yy   |") \o <<LF>> \o B("+------+------+") \o <<LF>> \o B("| abcd | 1    |") \o <<LF>> \o B("+------+------+") \o <<LF>>
ASSUME Shows(B("3.14"), "3.14159", "general", 3) /\ ~Shows(B("3.15"), "3.14159", "general", 3) /\ ~Shows(B("3.140"), "3.14159", "general", 4)
ASSUME Shows(B("1e+06"), 1000000, "general", 6) /\ Shows(B("100000"), 100000, "general", 6) /\ ~Shows(B("1000000"), 1000000, "general", 6) /\ Shows(B("0.0001"), "1/10000", "general", 6) /\ Shows(B("1e-05"), "1/100000", "general", 6)
ASSUME Shows(B("-2.50e+00"), "-5/2", "sci", 2) /\ Shows(B("-2"), "-5/2", "fixed", 0) /\ Shows(B("0.000"), 0, "fixed", 3) /\ ~Shows(B("2.50"), "-5/2", "fixed", 2)
ASSUME IntShown(255, "hex") = B("ff") /\ IntShown(-120, "general") = B("-120")
=============================================================================
