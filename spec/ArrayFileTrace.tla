--------------------------- MODULE ArrayFileTrace ---------------------------
(* Validates recorded saves and loads of vectors and matrices.              *)
EXTENDS ArrayFile, TraceFile
VARIABLES h, l, st, dead
Bits(k) == CASE k = "double" -> 53 [] k = "complex" -> 53 [] k = "float" -> 24 [] OTHER -> 0
Tiny(k) == IF k = "float" THEN 150 ELSE 1075
Values(e, T) == Len(e.v) = Len(T) /\ \A i \in 1..Len(T) : Reads(e.v[i], e.neg[i], T[i], Bits(e.kind), Tiny(e.kind))
AllFinite(e) == \A i \in 1..Len(e.v) : RIsNum(e.v[i])
TextOf(e) == IF e.fmt = "csv" THEN DecodeCsv(e.kind, e.file) ELSE DecodeText(Len(e.dims), e.kind, e.file)
Nothing(e) == Len(e.dims) = 2 /\ e.dims[1] * e.dims[2] = 0
Ok(s, e) ==
  CASE e.op = "savebin" -> Chk("saved", e.ok /\ e.file = EncodeBin(e.file_kind, e.dims, e.es, e.data))
    [] e.op = "loadbin" -> LET R == DecodeBin(e.file_kind, e.es, e.file) IN
         /\ Chk("refused exactly when not readable", e.ok = R.ok)
         /\ e.ok => Chk("loaded bits", e.dims = R.dims /\ e.data = R.data)
    \* a file of the other precision's bytes, or of a real part only
    [] e.op = "loadreal" -> LET R == DecodeBin("complex", e.es, e.file) IN
         /\ Chk("refused exactly when not readable", e.ok = R.ok)
         /\ e.ok => Chk("real parts", e.dims = R.dims /\ e.data = SubSeq(R.data, 1, Len(R.data) \div 2))
    [] e.op = "savetext" -> IF Nothing(e) \/ ~AllFinite(e) THEN TRUE
                            ELSE LET R == TextOf(e) IN Chk("saved", e.ok /\ R.ok) /\ Chk("shape", R.dims = e.dims) /\ Chk("text reads back", Values(e, R.data))
    [] e.op = "loadtext" -> LET R == IF e.fmt = "csv" THEN DecodeCsv(e.kind, e.file) ELSE DecodeText(e.nd, e.kind, e.file) IN
         /\ Chk("refused exactly when not readable", e.ok = R.ok)
         /\ e.ok => Chk("loaded values", e.dims = R.dims /\ Values(e, R.data))
    \* save and load again: the same object
    [] e.op = "roundtrip" -> Chk("loads what was saved", e.ok /\ e.after = e.before)
    [] e.op = "cannot" -> Chk("failure reported", ~e.ok)
    [] OTHER -> FALSE
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
