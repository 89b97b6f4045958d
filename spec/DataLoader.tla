----------------------------- MODULE DataLoader -----------------------------
(***************************************************************************)
(* Loading of delimited (CSV, TSV) and JSON documents.  A document is a     *)
(* sequence of byte values.  The delimited reader is a state machine over   *)
(* the bytes (CsvStep); the JSON reader follows the grammar of RFC 8259 for *)
(* an array of flat objects.  Both give a table: column names and, per row  *)
(* and column, the text written there.  A cell is missing when its text is  *)
(* a missing-value marker; a column has the first type of the list that all *)
(* its other cells fit; and the loaded column holds those values.           *)
(***************************************************************************)
EXTENDS Rat, Integers, FiniteSets
QT == 34  LF == 10  CR == 13  SP == 32  TAB == 9  BSL == 92
White(c) == c \in {SP, TAB, CR, LF}
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ White(s[1]) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ White(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
NoBOM(s) == IF Len(s) >= 3 /\ s[1] = 239 /\ s[2] = 187 /\ s[3] = 191 THEN SubSeq(s, 4, Len(s)) ELSE s

(* ---------------- the delimited reader ---------------- *)
\* f: field so far; rec: fields so far; recs: records; q: quoting state
\* seen: the record has a delimiter or a quote; closed: this field had a closed quote; stray: a quote in mid-field
CsvInit == [f |-> <<>>, rec |-> <<>>, recs |-> <<>>, q |-> "none", seen |-> FALSE, closed |-> FALSE, stray |-> FALSE]
EndRecord(s) ==
  LET blank == ~s.seen /\ Trim(s.f) = <<>>
  IN [s EXCEPT !.f = <<>>, !.rec = <<>>, !.recs = IF blank THEN @ ELSE Append(@, Append(s.rec, s.f)), !.q = "none", !.seen = FALSE, !.closed = FALSE]
CsvPlain(s, c, d) ==
  CASE c = QT -> [s EXCEPT !.q = "in", !.seen = TRUE, !.stray = @ \/ s.closed \/ Trim(s.f) # <<>>]
    [] c = d  -> [s EXCEPT !.f = <<>>, !.rec = Append(@, s.f), !.seen = TRUE, !.q = "none", !.closed = FALSE]
    [] c = LF -> EndRecord(s)
    [] OTHER  -> [s EXCEPT !.f = Append(@, c), !.q = "none", !.stray = @ \/ (s.closed /\ ~White(c))]
CsvStep(s, c, d) ==
  CASE s.q = "in" /\ c = QT   -> [s EXCEPT !.q = "maybe"]
    [] s.q = "in"             -> [s EXCEPT !.f = Append(@, c)]
    [] s.q = "maybe" /\ c = QT -> [s EXCEPT !.f = Append(@, QT), !.q = "in"]
    [] s.q = "maybe"          -> CsvPlain([s EXCEPT !.q = "none", !.closed = TRUE], c, d)
    [] OTHER                  -> CsvPlain(s, c, d)
RECURSIVE CsvRun(_, _, _, _)
CsvRun(s, doc, i, d) == IF i > Len(doc) THEN s ELSE CsvRun(CsvStep(s, doc[i], d), doc, i + 1, d)
\* [ok, recs, stray]: ok is false when the document ends inside quotes or has no record
CsvRead(doc, d) ==
  LET s == CsvRun(CsvInit, NoBOM(doc), 1, d)
      e == EndRecord(s)
  IN [ok |-> s.q # "in" /\ e.recs # <<>>, recs |-> e.recs, stray |-> s.stray]
ColName(k) == <<67, 111, 108, 117, 109, 110>> \o (IF k < 10 THEN <<48 + k>> ELSE <<48 + (k \div 10), 48 + (k % 10)>>)
CsvTable(recs, hdr) ==
  LET n == Len(recs[1])
      body == IF hdr THEN Tail(recs) ELSE recs
  IN [names |-> [c \in 1..n |-> IF hdr /\ Trim(recs[1][c]) # <<>> THEN Trim(recs[1][c]) ELSE ColName(c - 1)],
      cells |-> [r \in 1..Len(body) |-> [c \in 1..n |-> IF c <= Len(body[r]) THEN body[r][c] ELSE <<>>]]]
Uneven(recs, hdr) == {r \in (IF hdr THEN 2 ELSE 1)..Len(recs) : Len(recs[r]) # Len(recs[1])}

(* ---------------- the JSON reader ---------------- *)
RECURSIVE JWs(_, _)
JWs(s, p) == IF p <= Len(s) /\ White(s[p]) THEN JWs(s, p + 1) ELSE p
Ch(s, p) == IF p <= Len(s) THEN s[p] ELSE 0 - 1
Bad == [ok |-> FALSE, p |-> 0, v |-> <<>>, soft |-> FALSE]
Digit(c) == c \in 48..57
Hex(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 0 - 1
Hex4(s, p) == IF \E i \in 0..3 : Hex(Ch(s, p + i)) < 0 THEN 0 - 1
              ELSE ((Hex(s[p]) * 16 + Hex(s[p + 1])) * 16 + Hex(s[p + 2])) * 16 + Hex(s[p + 3])
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + u \div 64, 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + u \div 4096, 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + u \div 262144, 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
EscOf(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> 0 - 1
\* inside a string, from position p, with acc read so far; soft: an unescaped control character occurred
RECURSIVE JStrIn(_, _, _, _)
JStrIn(s, p, acc, soft) ==
  LET c == Ch(s, p) IN
  IF c < 0 THEN Bad
  ELSE IF c = QT THEN [ok |-> TRUE, p |-> p + 1, v |-> acc, soft |-> soft]
  ELSE IF c # BSL THEN JStrIn(s, p + 1, Append(acc, c), soft \/ c < 32)
  ELSE IF Ch(s, p + 1) # 117 THEN (IF EscOf(Ch(s, p + 1)) < 0 THEN Bad ELSE JStrIn(s, p + 2, Append(acc, EscOf(s[p + 1])), soft))
  ELSE LET u == Hex4(s, p + 2) IN
       IF u < 0 \/ u \in 56320..57343 THEN Bad
       ELSE IF u \in 55296..56319
       THEN LET w == IF Ch(s, p + 6) = BSL /\ Ch(s, p + 7) = 117 THEN Hex4(s, p + 8) ELSE 0 - 1
            IN IF w \in 56320..57343 THEN JStrIn(s, p + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (w - 56320)), soft) ELSE Bad
       ELSE JStrIn(s, p + 6, acc \o Utf8(u), soft)
JStr(s, p) == IF Ch(s, p) # QT THEN Bad ELSE JStrIn(s, p + 1, <<>>, FALSE)
RECURSIVE Digits(_, _)
Digits(s, p) == IF Digit(Ch(s, p)) THEN Digits(s, p + 1) ELSE p
JNum(s, p) ==
  LET a == IF Ch(s, p) = 45 THEN p + 1 ELSE p
      b == IF Ch(s, a) = 48 THEN a + 1 ELSE Digits(s, a)
      c == IF Ch(s, b) = 46 THEN Digits(s, b + 1) ELSE b
      e == IF Ch(s, c) \in {69, 101} THEN (IF Ch(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      f == IF e = c THEN c ELSE Digits(s, e)
  IN IF b = a \/ (c # b /\ c = b + 1) \/ (e # c /\ f = e) \/ Digit(Ch(s, f)) THEN Bad
     ELSE [ok |-> TRUE, p |-> f, v |-> SubSeq(s, p, f - 1), soft |-> FALSE]
JWord(s, p, w, v) == IF p + Len(w) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(w) - 1) = w THEN [ok |-> TRUE, p |-> p + Len(w), v |-> v, soft |-> FALSE] ELSE Bad
TrueW == <<116, 114, 117, 101>>
FalseW == <<102, 97, 108, 115, 101>>
NullW == <<110, 117, 108, 108>>
JScalar(s, p) ==
  LET c == Ch(s, p) IN
  CASE c = QT -> JStr(s, p)
    [] c = 45 \/ Digit(c) -> JNum(s, p)
    [] c = 116 -> JWord(s, p, TrueW, TrueW)
    [] c = 102 -> JWord(s, p, FalseW, FalseW)
    [] c = 110 -> JWord(s, p, NullW, <<>>)
    [] OTHER -> Bad                             \* nested values are not supported
\* members of an object from position p (after white space); acc: pairs <<key, text>>
RECURSIVE JMembers(_, _, _, _)
JMembers(s, p, acc, soft) ==
  LET k == JStr(s, p) IN
  IF ~k.ok THEN Bad
  ELSE LET q == JWs(s, k.p) IN
  IF Ch(s, q) # 58 THEN Bad
  ELSE LET v == JScalar(s, JWs(s, q + 1)) IN
  IF ~v.ok \/ (\E i \in 1..Len(acc) : acc[i][1] = k.v) THEN Bad
  ELSE LET r == JWs(s, v.p)
           acc2 == Append(acc, <<k.v, v.v>>)
           sf == soft \/ k.soft \/ v.soft
       IN IF Ch(s, r) = 125 THEN [ok |-> TRUE, p |-> r + 1, v |-> acc2, soft |-> sf]
          ELSE IF Ch(s, r) = 44 THEN JMembers(s, JWs(s, r + 1), acc2, sf) ELSE Bad
JObj(s, p) ==
  IF Ch(s, p) # 123 THEN Bad
  ELSE LET q == JWs(s, p + 1) IN IF Ch(s, q) = 125 THEN [ok |-> TRUE, p |-> q + 1, v |-> <<>>, soft |-> FALSE] ELSE JMembers(s, q, <<>>, FALSE)
RECURSIVE JRows(_, _, _, _)
JRows(s, p, acc, soft) ==
  LET o == JObj(s, p) IN
  IF ~o.ok THEN Bad
  ELSE LET r == JWs(s, o.p)
           acc2 == Append(acc, o.v)
       IN IF Ch(s, r) = 93 THEN [ok |-> TRUE, p |-> r + 1, v |-> acc2, soft |-> soft \/ o.soft]
          ELSE IF Ch(s, r) = 44 THEN JRows(s, JWs(s, r + 1), acc2, soft \/ o.soft) ELSE Bad
\* [ok, v: rows of pairs, soft]
JsonRead(doc) ==
  LET s == NoBOM(doc)
      p == JWs(s, 1)
      q == JWs(s, p + 1)
      r == IF Ch(s, p) # 91 THEN Bad ELSE IF Ch(s, q) = 93 THEN [ok |-> TRUE, p |-> q + 1, v |-> <<>>, soft |-> FALSE] ELSE JRows(s, q, <<>>, FALSE)
  IN IF r.ok /\ JWs(s, r.p) = Len(s) + 1 THEN r ELSE Bad
RECURSIVE KeyOrder(_, _)
KeyOrder(rows, acc) ==
  IF rows = <<>> THEN acc
  ELSE IF Head(rows) = <<>> THEN KeyOrder(Tail(rows), acc)
  ELSE LET k == Head(rows)[1][1] IN
       KeyOrder(<<Tail(Head(rows))>> \o Tail(rows), IF \E i \in 1..Len(acc) : acc[i] = k THEN acc ELSE Append(acc, k))
Lookup(pairs, k) == IF \E i \in 1..Len(pairs) : pairs[i][1] = k THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = k][2] ELSE <<>>
JsonTable(rows) ==
  LET names == KeyOrder(rows, <<>>)
  IN [names |-> names, cells |-> [r \in 1..Len(rows) |-> [c \in 1..Len(names) |-> Lookup(rows[r], names[c])]]]

(* ---------------- cell values ---------------- *)
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Markers == { <<>>, <<110,97>>, <<110,47,97>>, <<110,97,110>>, NullW, <<110,111,110,101>>, <<46>>, <<63>>, <<45>> }
Missing(t) == Lower(Trim(t)) \in Markers
Yes == { TrueW, <<121,101,115>>, <<116>>, <<121>> }
No == { FalseW, <<110,111>>, <<102>>, <<110>> }
AllDigits(s) == \A i \in 1..Len(s) : Digit(s[i])
Unsign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Neg(s) == s # <<>> /\ s[1] = 45
IntText(s) == Unsign(s) # <<>> /\ AllDigits(Unsign(s))
RECURSIVE NatVal(_, _)
NatVal(s, acc) == IF s = <<>> THEN acc ELSE NatVal(Tail(s), RAdd(RMul(acc, 10), Head(s) - 48))
IntVal(s) == IF Neg(s) THEN RNeg(NatVal(Unsign(s), 0)) ELSE NatVal(Unsign(s), 0)
\* mantissa and exponent parts of a real literal
ExpPos(s) == IF \E i \in 1..Len(s) : s[i] \in {69, 101} THEN CHOOSE i \in 1..Len(s) : s[i] \in {69, 101} /\ \A j \in 1..(i-1) : s[j] \notin {69, 101} ELSE 0
Mant(s) == IF ExpPos(s) = 0 THEN s ELSE SubSeq(s, 1, ExpPos(s) - 1)
Expo(s) == IF ExpPos(s) = 0 THEN <<48>> ELSE SubSeq(s, ExpPos(s) + 1, Len(s))
DotPos(s) == IF \E i \in 1..Len(s) : s[i] = 46 THEN CHOOSE i \in 1..Len(s) : s[i] = 46 ELSE 0
IPart(m) == IF DotPos(m) = 0 THEN m ELSE SubSeq(m, 1, DotPos(m) - 1)
FPart(m) == IF DotPos(m) = 0 THEN <<>> ELSE SubSeq(m, DotPos(m) + 1, Len(m))
RealText(s) == LET m == Unsign(Mant(s)) IN /\ IntText(Expo(s)) /\ Len(Expo(s)) < 6 /\ AllDigits(IPart(m)) /\ AllDigits(FPart(m)) /\ Len(IPart(m)) + Len(FPart(m)) > 0
RealVal(s) ==
  LET m == Unsign(Mant(s))
      a == NatVal(IPart(m) \o FPart(m), 0)
      x == RToInt(IntVal(Expo(s))) - Len(FPart(m))
      v == IF x >= 0 THEN RMul(a, RPow(10, x)) ELSE RDiv(a, RPow(10, 0 - x))
  IN IF Neg(s) THEN RNeg(v) ELSE v
FitsInt(s) == IntText(s) /\ RLe(RAbs(RAdd(IntVal(s), RDiv(1, 2))), RSub(RPow(2, 31), RDiv(1, 2)))
MaxReal == RSub(RPow(2, 1024), RPow(2, 970))
FitsReal(s) == RealText(s) /\ RLt(RAbs(RealVal(s)), MaxReal)
\* x is the double nearest to v
RoundsTo(x, v) == RLe(RAbs(RSub(x, v)), RAdd(RMul(RAbs(x), RDiv(1, RPow(2, 53))), RDiv(1, RPow(2, 1075))))
IsDigitsAt(s, a, n) == a + n - 1 <= Len(s) /\ \A i \in a..(a + n - 1) : Digit(s[i])
DateText(s) == \E a, b \in {1, 2} : Len(s) = 6 + a + b /\ IsDigitsAt(s, 1, 4) /\ s[5] \in {45, 47} /\ IsDigitsAt(s, 6, a) /\ s[6 + a] \in {45, 47} /\ IsDigitsAt(s, 7 + a, b)
\* hour:minute, optionally :second; then n more
HMS(s) == \E a \in {1, 2} : /\ IsDigitsAt(s, 1, a) /\ Ch(s, a + 1) = 58 /\ IsDigitsAt(s, a + 2, 2)
                            /\ (Len(s) = a + 3 \/ (Len(s) = a + 6 /\ s[a + 4] = 58 /\ IsDigitsAt(s, a + 5, 2)))
TimeText(s) == HMS(s) \/ \E k \in 1..(Len(s) - 1) : s[k] = 46 /\ HMS(SubSeq(s, 1, k - 1)) /\ IsDigitsAt(s, k + 1, Len(s) - k)
SepPos(s) == IF \E i \in 1..Len(s) : s[i] \in {84, 32} THEN CHOOSE i \in 1..Len(s) : s[i] \in {84, 32} /\ \A j \in 1..(i-1) : s[j] \notin {84, 32} ELSE 0
DateTimeText(s) == SepPos(s) > 0 /\ DateText(SubSeq(s, 1, SepPos(s) - 1)) /\ HMS(SubSeq(s, SepPos(s) + 1, Len(s)))
Fits(t, s) == CASE t = "DateTime" -> DateTimeText(s)
                [] t = "Date" -> DateText(s)
                [] t = "Time" -> TimeText(s)
                [] t = "Bool" -> Lower(s) \in Yes \cup No
                [] t = "Int" -> FitsInt(s)
                [] t = "Real" -> FitsReal(s)
                [] OTHER -> TRUE
TypeOrder == <<"DateTime", "Date", "Time", "Bool", "Int", "Real", "String">>
\* the first type that every present cell fits
TypeOf(texts) ==
  LET P == {i \in 1..Len(texts) : ~Missing(texts[i])}
  IN IF P = {} THEN "String"
     ELSE TypeOrder[CHOOSE k \in 1..7 : /\ \A i \in P : Fits(TypeOrder[k], Trim(texts[i]))
                                        /\ \A j \in 1..(k - 1) : \E i \in P : ~Fits(TypeOrder[j], Trim(texts[i]))]
ValueOk(t, s, v) ==
  CASE t = "Int" -> REq(v, IntVal(s))
    [] t = "Real" -> RoundsTo(v, RealVal(s))
    [] t = "Bool" -> v = (Lower(s) \in Yes)
    [] t = "DateTime" -> v = <<SubSeq(s, 1, SepPos(s) - 1), SubSeq(s, SepPos(s) + 1, Len(s))>>
    [] OTHER -> v = s
\* a loaded column [t, size, miss, v] holds the texts written
ColumnOk(col, texts, infer) ==
  /\ col.t = (IF infer THEN TypeOf(texts) ELSE "String")
  /\ col.size = Len(texts) /\ Len(col.miss) = Len(texts) /\ Len(col.v) = Len(texts)
  /\ \A i \in 1..Len(texts) : /\ col.miss[i] = Missing(texts[i])
                              /\ ~col.miss[i] => ValueOk(col.t, Trim(texts[i]), col.v[i])
TableOk(names, nrows, cols, T, infer) ==
  /\ names = T.names /\ Len(cols) = Len(T.names) /\ nrows = Len(T.cells)
  /\ \A c \in 1..Len(cols) : ColumnOk(cols[c], [r \in 1..nrows |-> T.cells[r][c]], infer)

(* ---------------- row filtering and column selection ---------------- *)
RECURSIVE Pick(_, _, _)
Pick(s, keep, i) == IF i > Len(s) THEN <<>> ELSE (IF keep[i] THEN <<s[i]>> ELSE <<>>) \o Pick(s, keep, i + 1)
FilteredOk(a, b, keep) ==
  /\ Len(a) = Len(b)
  /\ \A c \in 1..Len(a) : /\ b[c].t = a[c].t /\ b[c].name = a[c].name
                          /\ b[c].miss = Pick(a[c].miss, keep, 1) /\ b[c].v = Pick(a[c].v, keep, 1) /\ b[c].size = Len(b[c].v)
=============================================================================
