---------------------------- MODULE ArrayFileMC ----------------------------
(***************************************************************************)
(* A writer saves a small array in one of the formats; a fault then cuts or *)
(* alters the file.  Reading an intact file gives the array; a cut binary   *)
(* file is always refused; a damaged header is refused unless it is intact  *)
(* in effect; damaged or cut text is refused unless it still holds exactly  *)
(* the declared elements.                                                   *)
(***************************************************************************)
EXTENDS ArrayFile, TLC
CONSTANTS Dims, Vals, Junk
VARIABLES fmt, dims, data, file, state
vars == <<fmt, dims, data, file, state>>
Count(d) == IF Len(d) = 2 THEN d[1] * d[2] ELSE d[1]
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<sep>> \o Join(Tail(ss), sep)
Dec(n) == <<48 + n>>
WriteText(d, x) == Join([i \in 1..Len(d) |-> Dec(d[i])], SP) \o <<LF>> \o Join(x, SP) \o <<LF>>
WriteCsv(d, x) == Cat([i \in 1..d[1] |-> Join(SubSeq(x, (i - 1) * d[2] + 1, i * d[2]), 44) \o <<LF>>])
Init == /\ fmt \in {"matrix", "vector", "complex", "text", "csv"} /\ dims \in {d \in Dims : Len(d) = (IF fmt \in {"matrix", "csv"} THEN 2 ELSE IF fmt = "text" THEN Len(d) ELSE 1)}
        /\ data \in [1..(Count(dims) * (IF fmt = "complex" THEN 2 ELSE 1)) -> {v \in Vals : fmt \in {"text", "csv"} \/ Len(v) = 2}] /\ state = "saved"
        /\ file = CASE fmt = "text" -> WriteText(dims, data) [] fmt = "csv" -> WriteCsv(dims, data) [] OTHER -> EncodeBin(fmt, dims, 2, Cat(data))
Fault == /\ state = "saved" /\ UNCHANGED <<fmt, dims, data>>
         /\ \/ \E n \in 0..(Len(file) - 1) : file' = SubSeq(file, 1, n) /\ state' = "cut"
            \/ \E i \in 1..Len(file), b \in Junk : b # file[i] /\ file' = [file EXCEPT ![i] = b] /\ state' = (IF fmt \in {"text", "csv"} \/ i <= HeaderLen(fmt) THEN "damaged" ELSE "bits")
            \/ \E b \in Junk : file' = Append(file, b) /\ state' = "longer"
Spec == Init /\ [][Fault]_vars
Read == CASE fmt = "text" -> DecodeText(Len(dims), "int", file) [] fmt = "csv" -> DecodeCsv("int", file) [] OTHER -> DecodeBin(fmt, 2, file)
Want == IF fmt \in {"text", "csv"} THEN data ELSE Cat(data)
Intact == state = "saved" => Read.ok /\ Read.dims = dims /\ Read.data = Want
Binary == fmt \notin {"text", "csv"}
CutRefused == state \in {"cut", "longer"} /\ Binary => ~Read.ok
Damaged == state = "damaged" /\ Binary => (Read.ok => fmt = "matrix" /\ (Count(Read.dims) = Count(dims)) /\ Read.data = Want)
BitsKept == state = "bits" => Read.ok /\ Read.dims = dims
\* whatever is read from text, the file holds exactly that many element texts
TextWhole == (~Binary /\ Read.ok) => Len(Read.data) = Count(Read.dims)
CsvCut == state = "cut" /\ fmt = "csv" /\ Read.ok => /\ Read.dims[1] <= dims[1]
            /\ \A i \in 1..(Len(Read.data) - 1) : Read.data[i] = data[i]
TextCut == state = "cut" /\ fmt = "text" /\ Read.ok => Read.dims = dims /\ \A i \in 1..(Len(data) - 1) : Read.data[i] = data[i]
ValsA == { <<49>>, <<45, 50>>, <<48, 55>> }
ValsB == { <<49, 50>>, <<45, 50>>, <<48, 55>>, <<51, 51>> }
DimsA == { <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3>> }
=============================================================================
