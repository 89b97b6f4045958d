---------------------------- MODULE DataLoaderMC ----------------------------
(***************************************************************************)
(* A writer chooses a table and writes it byte by byte, quoting each cell   *)
(* as it likes where it may; the delimited reader follows in lock step.     *)
(* When the document ends the reader has the table.  Before that, a cut     *)
(* document is either refused or a prefix of the table whose last record    *)
(* alone may be incomplete.  For JSON: the document of every small table    *)
(* reads back as that table and each of its proper prefixes is malformed.   *)
(***************************************************************************)
EXTENDS DataLoader, TLC, Json
CONSTANTS CellSet, NR, NC
VARIABLES nr, nc, tab, doc, rd, canon, fin
vars == <<nr, nc, tab, doc, rd, canon, fin>>
D == 44
Special(x) == \E i \in 1..Len(x) : x[i] \in {QT, D, LF, CR}
RECURSIVE Dbl(_)
Dbl(x) == IF x = <<>> THEN <<>> ELSE (IF x[1] = QT THEN <<QT, QT>> ELSE <<x[1]>>) \o Dbl(Tail(x))
Forms(x) == {<<QT>> \o Dbl(x) \o <<QT>>} \cup (IF Special(x) THEN {} ELSE {x})
Init == nr \in 1..NR /\ nc \in 1..NC /\ tab = << <<>> >> /\ doc = <<>> /\ rd = CsvInit /\ canon = TRUE /\ fin = FALSE
Ends == {<<LF>>, <<CR, LF>>}
r == Len(tab)
Full == Len(tab[r]) + 1 = nc             \* the next cell ends its row
Write == /\ ~fin
         /\ \E x \in CellSet : \E w \in Forms(x), nl \in IF Full THEN Ends \cup (IF r = nr THEN {<<>>} ELSE {}) ELSE {<<D>>} :
              /\ ~(nc = 1 /\ w = <<>>)          \* an empty line is not a record
              /\ LET s == w \o nl IN doc' = doc \o s /\ rd' = CsvRun(rd, s, 1, D)
              /\ tab' = LET t == [tab EXCEPT ![r] = Append(@, x)] IN IF Full /\ r < nr THEN Append(t, <<>>) ELSE t
              /\ canon' = (canon /\ w # <<>> /\ w[1] = QT /\ nl # <<CR, LF>> /\ nl # <<>>)
              /\ fin' = (Full /\ r = nr)
         /\ UNCHANGED <<nr, nc>>
Spec == Init /\ [][Write]_vars
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Trim(a[i][j]) = Trim(b[i][j])
ReadBack == fin => LET R == CsvRead(doc, D) IN R.ok /\ ~R.stray /\ Same(R.recs, tab)
LockStep == rd = CsvRun(CsvInit, doc, 1, D)
\* a cut document loses only whole trailing records, never shifts one
Cut == fin => \A k \in 0..Len(doc) :
         LET R == CsvRead(SubSeq(doc, 1, k), D) IN
         R.ok => /\ Len(R.recs) <= Len(tab)
                 /\ \A i \in 1..(Len(R.recs) - 1) : Same(<<R.recs[i]>>, <<tab[i]>>)
(* JSON *)
Esc(x) == IF x = <<>> THEN <<>> ELSE IF x[1] = QT THEN <<BSL, QT>> ELSE IF x[1] = LF THEN <<BSL, 110>> ELSE <<x[1]>>
RECURSIVE EscAll(_)
EscAll(x) == IF x = <<>> THEN <<>> ELSE Esc(x) \o EscAll(Tail(x))
JS(x) == <<QT>> \o EscAll(x) \o <<QT>>
RECURSIVE JoinC(_)
JoinC(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<D>> \o JoinC(Tail(ss))
\* empty cells alternate between null and an absent key
Pairs(row, i) == SelectSeq([k \in 1..Len(row) |-> <<JS(<<97 + k>>) \o <<58>> \o (IF row[k] = <<>> THEN NullW ELSE JS(row[k])), row[k] = <<>> /\ (i + k) % 2 = 0>>], LAMBDA z : ~z[2])
JRow(row, i) == <<123>> \o JoinC([k \in 1..Len(Pairs(row, i)) |-> Pairs(row, i)[k][1]]) \o <<125>>
JDoc == <<91>> \o JoinC([i \in 1..Len(tab) |-> JRow(tab[i], i)]) \o <<93>>
JsonBack == (fin /\ canon) =>
  LET R == JsonRead(JDoc)
      T == JsonTable(R.v)
      Col(k) == CHOOSE j \in 1..Len(T.names) : T.names[j] = <<97 + k>>
  IN /\ R.ok /\ ~R.soft /\ Len(T.cells) = Len(tab)
     /\ \A i \in 1..Len(tab), k \in 1..Len(tab[1]) :
          IF \E j \in 1..Len(T.names) : T.names[j] = <<97 + k>> THEN T.cells[i][Col(k)] = tab[i][k] ELSE tab[i][k] = <<>>
     /\ \A n \in 0..(Len(JDoc) - 1) : ~JsonRead(SubSeq(JDoc, 1, n)).ok
CellsA == { <<>>, <<97>>, <<97, D, 49>>, <<QT>>, <<97, LF, 98>>, <<49>> }
CellsB == { <<>>, <<97>>, <<D>>, <<QT, D, QT>>, <<97, LF, 98>>, <<49, 46, 53>>, <<QT, QT>>, <<CR, LF, 97>>, <<97, SP, 97>> }
\* behaviours for the harness: documents over typed cells
Emit == fin => PrintT("SCRIPT|" \o ToJson(<< [tab EXCEPT ![r] = SubSeq(@, 1, Len(@) - 1)], doc >>))
CellsG == { <<>>, <<97>>, <<98, D, 99>>, <<QT, 100, QT>>, <<101, LF, 102>>, <<49>>, <<45, 55>>, <<48, 48, 51>>, <<50, 46, 53>>, <<49, 101, 51>>, <<78, 65>>, <<45>>, TrueW, <<78, 111>>, <<121>>,
            <<50,48,50,52,45,48,49,45,51,49>>, <<49,50,58,51,48>>, <<50,48,50,52,47,49,47,50,84,51,58,48,52,58,48,53>>, <<50,49,52,55,52,56,51,54,52,56>>, <<45,50,49,52,55,52,56,51,54,52,56>>,
            <<SP, 120, SP, 121, SP>>, <<49, SP>>, <<TAB>>, <<49, 101, 57, 57, 57>>, <<46, 53>>, <<195, 169>> }
=============================================================================
