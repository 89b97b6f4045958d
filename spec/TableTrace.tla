----------------------------- MODULE TableTrace -----------------------------
(* Validates histories of tables: the model holds the columns, the style and the *)
(* rows added since the last clear; every document produced reads back as those.  *)
EXTENDS Table, TraceFile
VARIABLES h, l, st, dead
Refusal == {"VectorDimensionError"}
FileErr == {"FileIOError"}
Texts(e, s) == Len(e.T) = Len(s.rows) /\ \A r \in DOMAIN s.rows : Len(e.T[r]) = Len(s.cols) /\ \A c \in DOMAIN s.cols : CellShown(s.rows[r][c], e.T[r][c], IF e.f = "con" THEN s.cols[c] ELSE PlainCol)
Names(s) == <<>> \o [c \in DOMAIN s.cols |-> s.cols[c].name]
IsConsole(o, cols, T, sty) == o = Console(cols, T, sty, FALSE) \/ (~sty.head /\ o = Console(cols, T, sty, TRUE))
Export(s, e) ==
  /\ Chk("exported", e.err = "") /\ Chk("stream state restored", e.kept) /\ Chk("the same text again", e.str)
  /\ Chk("texts of the cells", Texts(e, s))
  /\ IF e.f = "con" THEN Chk("console form", IsConsole(e.out, s.cols, e.T, s.sty))
     ELSE Chk("the document reads back as the rows added", Reads(e.f, e.out, <<Names(s)>> \o e.T))
Vec(e) ==
  LET sty == [b |-> e.b, head |-> e.head, sep |-> e.sep] IN
  /\ Chk("printed", e.err = "") /\ Chk("stream state restored", e.kept) /\ Chk("the same text again", e.str)
  /\ Chk("texts of the entries", \A r \in DOMAIN e.T : \A c \in DOMAIN e.cols : CellShown(e.V[r][c], e.T[r][c], e.cols[c]))
  /\ Chk("console form", IsConsole(e.out, e.cols, e.T, sty) \/ (e.sep /\ IsConsole(e.out, e.cols, e.T, [sty EXCEPT !.sep = FALSE])))
Wrap(f, x) == CASE f = "csv" -> <<97, 44>> \o x \o <<44, 97, LF>>
                [] f = "html" -> RowOpen \o B("<td>a</td><td>") \o x \o B("</td><td>a</td>") \o RowClose
                [] f = "tex" -> TBegin \o B("ccc}a&") \o x \o B("&a") \o <<BSL, BSL>> \o TEnd
Escapes(e) ==
  /\ Chk("needs quoting", e.need = Quoted(e.t, 44)) /\ Chk("unescape inverts escape", e.back = e.t)
  /\ \A f \in {"csv", "html", "tex"} : Chk("escaped text reads back", Reads(f, Wrap(f, e[f]), <<<<<<97>>, e.t, <<97>>>>>>))
Ok(s, e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "add" -> Chk("a row of the wrong length is refused", e.err = (IF Len(e.cells) = Len(s.cols) THEN "" ELSE "VectorDimensionError"))
                       /\ Chk("counts", e.r = Len(s.rows) + (IF e.err = "" THEN 1 ELSE 0) /\ e.c = Len(s.cols) - 1)
    [] e.op = "clear" -> Chk("empty", e.r = 0)
    [] e.op \in {"fmt", "style"} -> TRUE
    [] e.op = "exp" -> Export(s, e)
    [] e.op = "file" -> Chk("the file holds the document", e.err = "" /\ e.same) /\ Chk("a failed write is reported", e.nodir \in FileErr /\ (e.empty \/ e.full \in FileErr))
    [] e.op = "vec" -> Vec(e)
    [] e.op = "esc" -> Escapes(e)
    [] e.op = "utf" -> Chk("repetition", e.rep = Times(e.t, e.n)) /\ Chk("single character", e.one = (Shown(e.t) = 1))
Upd(s, e) ==
  CASE e.op = "new" -> [cols |-> e.cols, rows |-> <<>>, sty |-> [b |-> "simple", head |-> TRUE, sep |-> FALSE]]
    [] e.op = "add" -> IF Len(e.cells) = Len(s.cols) THEN [s EXCEPT !.rows = Append(@, e.cells)] ELSE s
    [] e.op = "clear" -> [s EXCEPT !.rows = <<>>]
    [] e.op = "fmt" -> IF e.c + 1 <= Len(s.cols) THEN [s EXCEPT !.cols[e.c + 1] = e.col] ELSE s
    [] e.op = "style" -> [s EXCEPT !.sty = [b |-> e.b, head |-> e.head, sep |-> e.sep]]
    [] OTHER -> s
INSTANCE TraceRun WITH St0 <- [cols |-> <<>>, rows |-> <<>>, sty |-> 0], Resume <- TRUE
=============================================================================
