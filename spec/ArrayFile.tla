------------------------------ MODULE ArrayFile ------------------------------
(***************************************************************************)
(* Vector and matrix files, as byte sequences.  Binary files: a header of   *)
(* little-endian 32-bit words and then exactly the declared elements.  Text *)
(* files: white-space separated numbers, the first being the dimensions,    *)
(* then exactly that many elements; CSV: one line of comma separated        *)
(* numbers per row.  Reading anything else is a failure.                    *)
(***************************************************************************)
EXTENDS DataLoader
Fail == [ok |-> FALSE, dims |-> <<>>, data |-> <<>>]
(* ---- binary ---- *)
RECURSIVE Bytes(_, _)
Bytes(w, n) == IF n = 0 THEN <<>> ELSE <<w % 256>> \o Bytes(w \div 256, n - 1)
Word(s, p) == RAdd(RAdd(s[p], RMul(256, s[p + 1])), RAdd(RMul(65536, s[p + 2]), RMul(16777216, s[p + 3])))
\* magic numbers, least significant byte first
Magic(kind) == CASE kind = "matrix" -> <<77, 76, 77, 77>> [] kind = "vector" -> <<86, 76, 77, 77>> [] kind = "complex" -> <<67, 76, 77, 77>>
HeaderLen(kind) == IF kind = "matrix" THEN 24 ELSE 16
\* dims: <<rows, cols>> or <<n>>; es: the element size written in the file
EncodeBin(kind, dims, es, data) ==
  Magic(kind) \o Bytes(1, 4) \o (IF kind = "matrix" THEN Bytes(dims[1], 4) \o Bytes(dims[2], 4) \o Bytes(es, 4) \o Bytes(0, 4)
                                 ELSE Bytes(dims[1], 4) \o Bytes(es, 4)) \o data
DecodeBin(kind, es, f) ==
  LET H == HeaderLen(kind)
      per == IF kind = "complex" THEN 2 * es ELSE es
  IN IF Len(f) < H \/ SubSeq(f, 1, 4) # Magic(kind) \/ SubSeq(f, 5, 8) # Bytes(1, 4) THEN Fail
     ELSE IF kind = "matrix"
     THEN LET r == Word(f, 9)
              c == Word(f, 13)
          IN IF SubSeq(f, 17, 20) # Bytes(es, 4) \/ RLt(r, 1) \/ RLt(c, 1) \/ RGt(r, 100000) \/ RGt(c, 100000) \/ ~REq(RMul(RMul(r, c), per), Len(f) - H) THEN Fail
             ELSE [ok |-> TRUE, dims |-> <<RToInt(r), RToInt(c)>>, data |-> SubSeq(f, H + 1, Len(f))]
     ELSE IF SubSeq(f, 13, 16) # Bytes(es, 4) \/ ~REq(RMul(Word(f, 9), per), Len(f) - H) THEN Fail
          ELSE [ok |-> TRUE, dims |-> <<RToInt(Word(f, 9))>>, data |-> SubSeq(f, H + 1, Len(f))]
(* ---- text ---- *)
Space(c) == c \in 9..13 \/ c = 32
\* split into maximal runs of non-separators
RECURSIVE Toks(_, _, _, _)
Toks(f, p, cur, acc) ==
  IF p > Len(f) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF Space(f[p]) THEN Toks(f, p + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE Toks(f, p + 1, Append(cur, f[p]), acc)
Tokens(f) == Toks(f, 1, <<>>, <<>>)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(f, sep, cur, acc) ==
  IF f = <<>> THEN Append(acc, cur)
  ELSE IF Head(f) = sep THEN SplitAt(Tail(f), sep, <<>>, Append(acc, cur))
  ELSE SplitAt(Tail(f), sep, Append(cur, Head(f)), acc)
CountText(s) == IntText(s) /\ ~Neg(s) /\ RLe(IntVal(s), 100000)
NumText(kind, s) == CASE kind = "int" -> FitsInt(s)
                      [] kind = "complex" -> /\ Len(s) > 4 /\ s[1] = 40 /\ s[Len(s)] = 41
                                             /\ LET P == SplitAt(SubSeq(s, 2, Len(s) - 1), 44, <<>>, <<>>) IN Len(P) = 2 /\ FitsReal(P[1]) /\ FitsReal(P[2])
                      [] kind = "float" -> FitsReal(s) /\ RLt(RAbs(RealVal(s)), "0x1.ffffffp+127")
                      [] OTHER -> FitsReal(s)
\* the element texts: a complex one is two numbers
Parts(kind, s) == IF kind = "complex" THEN SplitAt(SubSeq(s, 2, Len(s) - 1), 44, <<>>, <<>>) ELSE <<s>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
DecodeText(nd, kind, f) ==
  LET T == Tokens(f) IN
  IF Len(T) < nd \/ (\E i \in 1..nd : ~CountText(T[i])) THEN Fail
  ELSE LET dims == [i \in 1..nd |-> RToInt(IntVal(T[i]))]
           E == SubSeq(T, nd + 1, Len(T))
       IN IF (nd = 2 /\ (dims[1] < 1 \/ dims[2] < 1)) \/ ~REq(IF nd = 2 THEN RMul(dims[1], dims[2]) ELSE dims[1], Len(E)) \/ (\E i \in 1..Len(E) : ~NumText(kind, E[i])) THEN Fail
          ELSE [ok |-> TRUE, dims |-> dims, data |-> Cat([i \in 1..Len(E) |-> Parts(kind, E[i])])]
\* the lines; a trailing comma and empty lines are ignored
DropEmpty(c) == IF Len(c) > 0 /\ c[Len(c)] = <<>> THEN SubSeq(c, 1, Len(c) - 1) ELSE c
DecodeCsv(kind, f) ==
  LET L == SplitAt(f, 10, <<>>, <<>>)
      R == SelectSeq([i \in 1..Len(L) |-> DropEmpty(SplitAt(L[i], 44, <<>>, <<>>))], LAMBDA x : x # <<>>)
  IN IF R = <<>> \/ (\E i \in 1..Len(R) : Len(R[i]) # Len(R[1]) \/ \E j \in 1..Len(R[i]) : ~NumText(kind, Trim(R[i][j]))) THEN Fail
     ELSE [ok |-> TRUE, dims |-> <<Len(R), Len(R[1])>>, data |-> Cat([i \in 1..Len(R) |-> [j \in 1..Len(R[i]) |-> Trim(R[i][j])]])]
\* the value x (with sign bit s) is what its text says, in a floating type of p significant bits (0: an integer)
Reads(x, s, t, p, tiny) ==
  LET v == RealVal(t) IN
  /\ s = Neg(t) \/ (p = 0 /\ REq(v, 0))
  /\ IF p = 0 THEN REq(x, v) ELSE RLe(RAbs(RSub(x, v)), RAdd(RMul(RAbs(x), RDiv(1, RPow(2, p))), RDiv(1, RPow(2, tiny))))
=============================================================================
