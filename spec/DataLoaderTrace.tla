-------------------------- MODULE DataLoaderTrace --------------------------
(* Validates recorded loads: the document's bytes against what was loaded.  *)
EXTENDS DataLoader, TraceFile
VARIABLES h, l, st, dead
Failed(e) == e.err # ""
CsvOk(e) ==
  LET R == CsvRead(e.doc, e.d) IN
  IF ~R.ok THEN Chk("malformed document reported", Failed(e))
  ELSE IF R.stray THEN Chk("stray quote: as read, or reported", Failed(e) \/ TableOk(e.names, e.rows, e.cols, CsvTable(R.recs, e.hdr), e.infer))
  ELSE IF e.strict /\ Uneven(R.recs, e.hdr) # {} THEN Chk("uneven rows refused", Failed(e))
  ELSE /\ Chk("well-formed document loads", ~Failed(e))
       /\ Chk("every cell preserved", TableOk(e.names, e.rows, e.cols, CsvTable(R.recs, e.hdr), e.infer))
       /\ Chk("warning per uneven row", e.warn => e.nwarn = Cardinality(Uneven(R.recs, e.hdr)))
JsonOk(e) ==
  LET R == JsonRead(e.doc) IN
  IF ~R.ok THEN Chk("malformed document reported", Failed(e))
  ELSE IF Failed(e) THEN Chk("well-formed document loads", R.soft)
  ELSE Chk("every cell preserved", TableOk(e.names, e.rows, e.cols, JsonTable(R.v), TRUE))
Ok(s, e) ==
  CASE e.op = "csv" -> CsvOk(e)
    [] e.op = "json" -> JsonOk(e)
    [] e.op = "missing-file" -> Chk("unreadable file reported", Failed(e) /\ e.rows = 0 /\ e.cols = <<>>)
    [] e.op = "filter" -> LET keep == [i \in 1..Len(e.text) |-> e.text[i] = e.want] IN
                          Chk("filtered rows", FilteredOk(e.before, e.after, keep) /\ e.rows = Cardinality({i \in 1..Len(keep) : keep[i]}))
    [] e.op = "select" -> Chk("selected columns", e.after = [i \in 1..Len(e.pick) |-> e.before[e.pick[i] + 1]] /\ e.rows = e.brows)
    [] e.op = "head" -> LET n == IF e.n < e.rows THEN e.n ELSE e.rows
                            Row(i) == [c \in 1..Len(e.texts) |-> e.texts[c][i]]
                        IN Chk("head and tail", /\ e.head = <<e.names>> \o [i \in 1..n |-> Row(i)]
                                                /\ e.tail = <<e.names>> \o [i \in 1..n |-> Row(e.rows - n + i)])
    [] OTHER -> FALSE
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
