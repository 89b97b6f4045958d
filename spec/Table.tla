------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Tables printed and exported.  A table is a header and rows of cells; a    *)
(* cell shows a text (a sequence of bytes).  For every export format there   *)
(* is a reader - the standard reader of that format - and the document       *)
(* exported must read back as exactly the header and the rows.  The console  *)
(* form is given line by line from the widths and alignments of the columns. *)
(***************************************************************************)
EXTENDS DataLoader
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
ByteOf == [c \in {SubSeq(ASCII, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = c]
B(s) == <<>> \o [i \in 1..Len(s) |-> ByteOf[SubSeq(s, i, i)]]
Starts(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
RECURSIVE SplitLF(_, _, _, _)
SplitLF(s, i, from, acc) == IF i > Len(s) THEN (IF from > Len(s) THEN acc ELSE Append(acc, SubSeq(s, from, Len(s)))) ELSE IF s[i] = LF THEN SplitLF(s, i + 1, i + 1, Append(acc, SubSeq(s, from, i - 1))) ELSE SplitLF(s, i + 1, from, acc)
LinesOf(s) == SplitLF(s, 1, 1, <<>>)
NoRead == <<<<<<-1>>>>>>
(* ---------------- readers: a document to its rows, the header first ---------------- *)
ReadSep(doc, d) == LET r == CsvRun(CsvInit, doc, 1, d) IN IF doc = <<>> \/ doc[Len(doc)] # LF \/ r.q # "none" \/ r.stray THEN NoRead ELSE r.recs
\* Markdown: cells between unescaped pipes, a backslash takes the next punctuation literally, <br> is a line break
Punct(c) == c \in (33..47) \cup (58..64) \cup (91..96) \cup (123..126)
BR == B("<br>")
RECURSIVE MdCells(_, _, _, _)
MdCells(s, i, f, acc) ==
  IF i > Len(s) THEN (IF Trim(f) = <<>> THEN acc ELSE NoRead[1])
  ELSE IF s[i] = BSL /\ i < Len(s) /\ Punct(s[i + 1]) THEN MdCells(s, i + 2, Append(f, s[i + 1]), acc)
  ELSE IF s[i] = 124 THEN MdCells(s, i + 1, <<>>, Append(acc, Trim(f)))
  ELSE IF Starts(s, i, BR) THEN MdCells(s, i + 4, Append(f, LF), acc)
  ELSE MdCells(s, i + 1, Append(f, s[i]), acc)
MdRow(s) == IF s = <<>> \/ s[1] # 124 THEN NoRead[1] ELSE MdCells(s, 2, <<>>, <<>>)
MdRule(s, n) == \A r \in {MdRow(s)} : Len(r) = n /\ \A k \in 1..n : Len(r[k]) >= 1 /\ \A j \in DOMAIN r[k] : r[k][j] = 45 \/ (r[k][j] = 58 /\ j \in {1, Len(r[k])})
ReadMd(doc) == LET ls == LinesOf(doc) IN IF Len(ls) < 2 \/ ~MdRule(ls[2], Len(MdRow(ls[1]))) THEN NoRead ELSE <<MdRow(ls[1])>> \o [k \in 1..Len(ls) - 2 |-> MdRow(ls[k + 2])]
\* LaTeX: a tabular body; special characters only escaped
TexWords == <<<<B("\\textasciitilde{}"), 126>>, <<B("\\textasciicircum{}"), 94>>, <<B("\\textbackslash{}"), BSL>>>>
TexSpecial == {38, 37, 36, 35, 95, 123, 125}
THline == B("\\hline")  TEnd == B("\\end{tabular}")
RECURSIVE TexBody(_, _, _, _, _)
TexBody(s, i, f, row, rows) ==
  IF i > Len(s) THEN NoRead
  ELSE IF Starts(s, i, TEnd) THEN (IF row = <<>> /\ Trim(f) = <<>> /\ Trim(SubSeq(s, i + Len(TEnd), Len(s))) = <<>> THEN rows ELSE NoRead)
  ELSE IF Starts(s, i, THline) THEN (IF row = <<>> /\ Trim(f) = <<>> THEN TexBody(s, i + Len(THline), <<>>, row, rows) ELSE NoRead)
  ELSE IF s[i] = BSL /\ i < Len(s) /\ s[i + 1] = BSL THEN TexBody(s, i + 2, <<>>, <<>>, Append(rows, Append(row, f)))
  ELSE IF s[i] = BSL /\ i < Len(s) /\ s[i + 1] \in TexSpecial THEN TexBody(s, i + 2, Append(f, s[i + 1]), row, rows)
  ELSE IF s[i] = BSL THEN (IF \E k \in 1..3 : Starts(s, i, TexWords[k][1]) THEN LET k == CHOOSE j \in 1..3 : Starts(s, i, TexWords[j][1]) IN TexBody(s, i + Len(TexWords[k][1]), Append(f, TexWords[k][2]), row, rows) ELSE NoRead)
  ELSE IF s[i] = 38 THEN TexBody(s, i + 1, <<>>, Append(row, f), rows)
  ELSE IF s[i] \in TexSpecial \cup {126, 94} THEN NoRead
  ELSE TexBody(s, i + 1, Append(f, s[i]), row, rows)
TBegin == B("\\begin{tabular}{")
RECURSIVE CloseBrace(_, _)
CloseBrace(s, i) == IF i > Len(s) \/ s[i] = 125 THEN i ELSE CloseBrace(s, i + 1)
\* the number of columns the tabular declares
TexCols(doc) == Cardinality({i \in Len(TBegin) + 1..CloseBrace(doc, Len(TBegin) + 1) - 1 : doc[i] \in {99, 108, 114}})
ReadTex(doc) == IF ~Starts(doc, 1, TBegin) THEN NoRead ELSE LET r == TexBody(doc, CloseBrace(doc, Len(TBegin) + 1) + 1, <<>>, <<>>, <<>>) IN IF \A k \in DOMAIN r : Len(r[k]) = TexCols(doc) THEN r ELSE NoRead
\* HTML: the text of the th and td elements of each tr
Ents == <<<<B("&amp;"), 38>>, <<B("&lt;"), 60>>, <<B("&gt;"), 62>>, <<B("&quot;"), 34>>, <<B("&#39;"), 39>>, <<B("&apos;"), 39>>>>
RECURSIVE TagEnd(_, _)
TagEnd(s, i) == IF i > Len(s) \/ s[i] = 62 THEN i ELSE TagEnd(s, i + 1)
CellOpen == {B("<th"), B("<td")}  CellClose == {B("</th>"), B("</td>")}
RowOpen == B("<tr>")  RowClose == B("</tr>")
Other == {B("<table"), B("</table>"), B("<thead>"), B("</thead>"), B("<tbody>"), B("</tbody>")}
Opens(s, i) == \E p \in CellOpen : Starts(s, i, p) /\ i + 3 <= Len(s) /\ s[i + 3] \in {62, SP}
RECURSIVE HtmlRun(_, _, _, _, _, _)
\* in: inside a cell
HtmlRun(s, i, in, f, row, rows) ==
  IF i > Len(s) THEN (IF in \/ row # <<>> THEN NoRead ELSE rows)
  ELSE IF in THEN
    (IF s[i] = 60 THEN (IF \E p \in CellClose : Starts(s, i, p) THEN HtmlRun(s, i + 5, FALSE, <<>>, Append(row, f), rows) ELSE NoRead)
     ELSE IF s[i] = 38 THEN (IF \E k \in DOMAIN Ents : Starts(s, i, Ents[k][1]) THEN LET k == CHOOSE j \in DOMAIN Ents : Starts(s, i, Ents[j][1]) IN HtmlRun(s, i + Len(Ents[k][1]), TRUE, Append(f, Ents[k][2]), row, rows) ELSE NoRead)
     ELSE HtmlRun(s, i + 1, TRUE, Append(f, s[i]), row, rows))
  ELSE IF Starts(s, i, RowOpen) THEN HtmlRun(s, i + 4, FALSE, <<>>, <<>>, rows)
  ELSE IF Starts(s, i, RowClose) THEN HtmlRun(s, i + 5, FALSE, <<>>, <<>>, Append(rows, row))
  ELSE IF Opens(s, i) THEN HtmlRun(s, TagEnd(s, i) + 1, TRUE, <<>>, row, rows)
  ELSE IF \E p \in Other : Starts(s, i, p) THEN HtmlRun(s, TagEnd(s, i) + 1, FALSE, <<>>, row, rows)
  ELSE IF White(s[i]) THEN HtmlRun(s, i + 1, FALSE, <<>>, row, rows)
  ELSE NoRead
ReadHtml(doc) == HtmlRun(doc, 1, FALSE, <<>>, <<>>, <<>>)
Read(f, doc) == CASE f = "csv" -> ReadSep(doc, 44) [] f = "tsv" -> ReadSep(doc, TAB) [] f = "md" -> ReadMd(doc) [] f = "tex" -> ReadTex(doc) [] f = "html" -> ReadHtml(doc)
(* ---------------- what of a text a format can carry ---------------- *)
RECURSIVE BreaksLF(_, _, _)
BreaksLF(s, i, acc) == IF i > Len(s) THEN acc ELSE IF s[i] = CR THEN BreaksLF(s, IF i < Len(s) /\ s[i + 1] = LF THEN i + 2 ELSE i + 1, Append(acc, LF)) ELSE BreaksLF(s, i + 1, Append(acc, s[i]))
RECURSIVE Squeeze(_, _, _)
Squeeze(s, i, acc) == IF i > Len(s) THEN acc ELSE IF White(s[i]) THEN Squeeze(s, i + 1, IF acc # <<>> /\ acc[Len(acc)] = SP THEN acc ELSE Append(acc, SP)) ELSE Squeeze(s, i + 1, Append(acc, s[i]))
Carried(f, c) == CASE f \in {"csv", "tsv"} -> c
                   [] f = "html" -> BreaksLF(c, 1, <<>>)
                   [] f = "md" -> Trim(BreaksLF(c, 1, <<>>))
                   [] f = "tex" -> Trim(Squeeze(c, 1, <<>>))
CarriedRow(f, r) == <<>> \o [k \in DOMAIN r |-> Carried(f, r[k])]
\* the document of format f reads as these rows
Reads(f, doc, rows) == LET r == Read(f, doc) IN Len(r) = Len(rows) /\ \A k \in DOMAIN r : CarriedRow(f, r[k]) = CarriedRow(f, rows[k])
(* ---------------- console form ---------------- *)
Box(cp) == <<226, 148 + ((cp - 9472) \div 64), 128 + ((cp - 9472) % 64)>>
\* vertical, horizontal; top, separator and bottom rules: left, cross, right
Rnd == [v |-> Box(9474), h |-> Box(9472), t |-> <<Box(9581), Box(9516), Box(9582)>>, m |-> <<Box(9500), Box(9532), Box(9508)>>, b |-> <<Box(9584), Box(9524), Box(9583)>>]
Dbl == [v |-> Box(9553), h |-> Box(9552), t |-> <<Box(9556), Box(9574), Box(9559)>>, m |-> <<Box(9568), Box(9580), Box(9571)>>, b |-> <<Box(9562), Box(9577), Box(9565)>>]
Bld == [v |-> Box(9475), h |-> Box(9473), t |-> <<Box(9487), Box(9523), Box(9491)>>, m |-> <<Box(9507), Box(9547), Box(9515)>>, b |-> <<Box(9495), Box(9531), Box(9499)>>]
One(x) == <<<<x>>, <<x>>, <<x>>>>
Chars == [simple |-> [v |-> <<124>>, h |-> <<45>>, t |-> One(43), m |-> One(43), b |-> One(43)], markdown |-> [v |-> <<124>>, h |-> <<45>>, t |-> One(124), m |-> One(124), b |-> One(124)],
          rounded |-> Rnd, double |-> Dbl, bold |-> Bld]
\* characters shown: bytes that do not continue a UTF-8 sequence
Shown(s) == Cardinality({i \in DOMAIN s : ~(s[i] \in 128..191)})
Blanks(n) == <<>> \o [i \in 1..n |-> SP]
Pad(s, w, al) == LET n == IF Shown(s) >= w THEN 0 ELSE w - Shown(s) IN CASE al = "left" -> s \o Blanks(n) [] al = "right" -> Blanks(n) \o s [] al = "center" -> Blanks(n \div 2) \o s \o Blanks(n - (n \div 2))
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
RECURSIVE MaxOf(_, _, _)
MaxOf(s, i, m) == IF i > Len(s) THEN m ELSE MaxOf(s, i + 1, IF s[i] > m THEN s[i] ELSE m)
\* w = -1: as wide as the widest of the name and the texts
Width(col, texts) == IF col.w # -1 THEN col.w ELSE MaxOf(<<>> \o [k \in DOMAIN texts |-> Shown(texts[k])], 1, Shown(col.name))
Ws(cols, T) == <<>> \o [c \in DOMAIN cols |-> Width(cols[c], <<>> \o [r \in DOMAIN T |-> T[r][c]])]
Line(cols, ws, cells, sty) ==
  LET p == [c \in DOMAIN cols |-> Pad(cells[c], ws[c], cols[c].al)] n == Len(cols) V == Chars[sty.b].v
  IN IF sty.b = "none" THEN Cat(<<>> \o [c \in 1..n |-> IF c = 1 THEN p[c] ELSE <<SP, SP>> \o p[c]], 1) \o <<LF>>
     ELSE Cat(<<>> \o [c \in 1..n |-> V \o <<SP>> \o p[c] \o <<SP>>], 1) \o V \o <<LF>>
Times(h, n) == Cat(<<>> \o [i \in 1..n |-> h], 1)
Rule(ws, h, q) == q[1] \o Cat(<<>> \o [c \in DOMAIN ws |-> IF c = 1 THEN Times(h, ws[c] + 2) ELSE q[2] \o Times(h, ws[c] + 2)], 1) \o q[3] \o <<LF>>
\* top: whether a table without a header has its upper rule
Console(cols, T, sty, top) ==
  LET ws == Ws(cols, T) bd == sty.b # "none" ch == Chars[sty.b]
      names == [c \in DOMAIN cols |-> cols[c].name]
      R(q) == IF bd THEN Rule(ws, ch.h, q) ELSE <<>>
      hd == IF sty.head THEN R(ch.t) \o Line(cols, ws, names, sty) \o R(ch.m) ELSE IF top THEN R(ch.t) ELSE <<>>
      body == Cat(<<>> \o [r \in DOMAIN T |-> Line(cols, ws, T[r], sty) \o (IF bd /\ sty.sep /\ r < Len(T) THEN R(ch.m) ELSE <<>>)], 1)
  IN hd \o body \o (IF bd THEN R(ch.b) ELSE <<>>)
(* ---------------- numbers shown ---------------- *)
RECURSIVE Digs(_, _)
Digs(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN Digs(s, i + 1) ELSE i
RECURSIVE ValD(_, _, _)
ValD(d, i, acc) == IF i > Len(d) THEN acc ELSE ValD(d, i + 1, RAdd(RMul(acc, 10), d[i] - 48))
\* [ok, neg, int, frac, e (seq of digits of the exponent), eneg]
Parse(t) ==
  LET neg == t # <<>> /\ t[1] = 45 a == IF neg THEN 2 ELSE 1 b == Digs(t, a)
      dot == b <= Len(t) /\ t[b] = 46 c == IF dot THEN Digs(t, b + 1) ELSE b
      ex == c <= Len(t) /\ t[c] = 101 es == ex /\ c + 1 <= Len(t) /\ t[c + 1] \in {43, 45} d == IF es THEN Digs(t, c + 2) ELSE c
  IN [ok |-> b > a /\ (dot => c > b + 1) /\ (ex => es /\ d >= c + 4) /\ d = Len(t) + 1, neg |-> neg, int |-> SubSeq(t, a, b - 1), frac |-> IF dot THEN SubSeq(t, b + 1, c - 1) ELSE <<>>,
      sci |-> ex, e |-> IF es THEN RToInt(ValD(SubSeq(t, c + 2, d - 1), 1, 0)) * (IF t[c + 1] = 45 THEN -1 ELSE 1) ELSE 0]
P10(k) == IF k >= 0 THEN RPow(10, k) ELSE RDiv(1, RPow(10, -k))
ValOf(p) == LET m == RMul(ValD(p.int \o p.frac, 1, 0), P10(p.e - Len(p.frac))) IN IF p.neg THEN RNeg(m) ELSE m
\* position of the leading digit
RECURSIVE LeadZ(_, _)
LeadZ(d, i) == IF i > Len(d) \/ d[i] # 48 THEN i - 1 ELSE LeadZ(d, i + 1)
Lead(p) == Len(p.int) - 1 - LeadZ(p.int \o p.frac, 1) + p.e
Half(k) == RDiv(P10(k), 2)
Strict(p) == Len(p.int) = 1 \/ p.int[1] # 48
Shows(t, v, fm, prec) ==
  IF ~RIsNum(v) THEN t \in {B("nan"), B("-nan"), B("inf"), B("-inf")} /\ (v = "nan") = (t \in {B("nan"), B("-nan")}) /\ (v = "inf" => t = B("inf")) /\ (v = "-inf" => t = B("-inf"))
  ELSE LET p == Parse(t) q == IF prec = 0 THEN 1 ELSE prec IN
  /\ p.ok /\ Strict(p)
  /\ (RLt(v, 0) => p.neg) /\ (RGt(v, 0) => ~p.neg)
  /\ CASE fm = "fixed" -> ~p.sci /\ Len(p.frac) = prec /\ RLe(RAbs(RSub(ValOf(p), v)), Half(-prec))
       [] fm = "sci" -> p.sci /\ Len(p.frac) = prec /\ Len(p.int) = 1 /\ (REq(v, 0) \/ p.int[1] # 48) /\ RLe(RAbs(RSub(ValOf(p), v)), Half(p.e - prec))
       [] OTHER -> IF REq(v, 0) THEN t \in {B("0"), B("-0")}
                   ELSE LET L == Lead(p) IN RLe(RAbs(RSub(ValOf(p), v)), Half(L - q + 1)) /\ (p.frac # <<>> => p.frac[Len(p.frac)] # 48) /\ L - (p.e - Len(p.frac)) + 1 <= (IF p.sci \/ p.frac # <<>> THEN q ELSE L + 1)
                        /\ (p.sci <=> (L < -4 \/ L >= q)) /\ (p.sci => Len(p.int) = 1)
RECURSIVE Radix(_, _)
Radix(n, b) == IF n < b THEN <<n>> ELSE Append(Radix(n \div b, b), n % b)
HexD(d) == IF d < 10 THEN 48 + d ELSE 87 + d
IntShown(n, fm) == LET m == IF n < 0 THEN -n ELSE n b == IF fm = "hex" THEN 16 ELSE 10 IN (IF n < 0 THEN <<45>> ELSE <<>>) \o [i \in 1..Len(Radix(m, b)) |-> HexD(Radix(m, b)[i])]
\* the text of a cell in a column: a string as it is, a number by the column's format
CellShown(c, t, col) == CASE c.k = "s" -> t = c.t [] c.k = "i" -> t = IntShown(c.v, col.f) [] c.k = "d" -> Shows(t, c.v, col.f, col.p)
PlainCol == [f |-> "general", p |-> 6]
(* ---------------- reference writers ---------------- *)
Quoted(c, d) == \E i \in DOMAIN c : c[i] \in {d, QT, LF, CR}
RECURSIVE DblQ(_, _)
DblQ(c, i) == IF i > Len(c) THEN <<>> ELSE (IF c[i] = QT THEN <<QT, QT>> ELSE <<c[i]>>) \o DblQ(c, i + 1)
RECURSIVE Esc(_, _, _)
EscOne(f, x) == CASE f = "md" -> IF x \in {124, BSL} THEN <<BSL, x>> ELSE IF x = LF THEN BR ELSE <<x>>
                  [] f = "tex" -> IF x \in TexSpecial THEN <<BSL, x>> ELSE IF \E k \in 1..3 : TexWords[k][2] = x THEN TexWords[CHOOSE k \in 1..3 : TexWords[k][2] = x][1] ELSE <<x>>
                  [] f = "html" -> IF \E k \in 1..4 : Ents[k][2] = x THEN Ents[CHOOSE k \in 1..4 : Ents[k][2] = x][1] ELSE <<x>>
Esc(f, c, i) == IF i > Len(c) THEN <<>> ELSE EscOne(f, c[i]) \o Esc(f, c, i + 1)
Put(f, c) == IF f \in {"csv", "tsv"} THEN (IF Quoted(c, IF f = "csv" THEN 44 ELSE TAB) THEN <<QT>> \o DblQ(c, 1) \o <<QT>> ELSE c) ELSE Esc(f, c, 1)
Row(f, r) == LET n == Len(r) P == [k \in 1..n |-> Put(f, r[k])] IN
  CASE f \in {"csv", "tsv"} -> Cat(<<>> \o [k \in 1..n |-> IF k = 1 THEN P[k] ELSE <<IF f = "csv" THEN 44 ELSE TAB>> \o P[k]], 1) \o <<LF>>
    [] f = "md" -> Cat(<<>> \o [k \in 1..n |-> <<124, SP>> \o P[k] \o <<SP>>], 1) \o <<124, LF>>
    [] f = "tex" -> Cat(<<>> \o [k \in 1..n |-> IF k = 1 THEN P[k] ELSE <<SP, 38, SP>> \o P[k]], 1) \o <<SP, BSL, BSL, LF>>
    [] f = "html" -> RowOpen \o Cat(<<>> \o [k \in 1..n |-> B("<td>") \o P[k] \o B("</td>")], 1) \o RowClose
Write(f, rows) ==
  LET b2 == IF Len(rows) = 1 THEN <<>> ELSE Cat(<<>> \o [k \in 1..Len(rows) - 1 |-> Row(f, rows[k + 1])], 1) n == Len(rows[1]) IN
  CASE f \in {"csv", "tsv"} -> Row(f, rows[1]) \o b2
    [] f = "md" -> Row(f, rows[1]) \o <<124>> \o Times(<<45, 45, 124>>, n) \o <<LF>> \o b2
    [] f = "tex" -> TBegin \o Times(<<99>>, n) \o <<125, LF>> \o THline \o <<LF>> \o Row(f, rows[1]) \o THline \o <<LF>> \o b2 \o THline \o <<LF>> \o TEnd \o <<LF>>
    [] f = "html" -> B("<table>") \o Row(f, rows[1]) \o b2 \o B("</table>")
=============================================================================
