------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Dense vectors and matrices as values.  A state holds three matrices and  *)
(* three vectors; a scalar is <<re, im>>, a vector a sequence of scalars, a *)
(* matrix a record [r, c, d] with d its sequence of rows.  Step gives, for  *)
(* every call, either the documented refusal (and nothing changes) or the   *)
(* one state that linear algebra assigns, all operands being read before    *)
(* anything is written, whatever aliases what.                              *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
C0 == <<0, 0>>
C1 == <<1, 0>>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CNeg(a) == <<RNeg(a[1]), RNeg(a[2])>>
CConj(a) == <<a[1], RNeg(a[2])>>
CDivR(a, x) == <<RDiv(a[1], x), RDiv(a[2], x)>>
CDiv(a, b) == CDivR(CMul(a, CConj(b)), RAdd(RMul(b[1], b[1]), RMul(b[2], b[2])))
CNorm2(a) == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
CAbs(a) == IF REq(a[2], 0) THEN RAbs(a[1]) ELSE RSqrt(CNorm2(a))
CEq(a, b) == REq(a[1], b[1]) /\ REq(a[2], b[2])
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN C0 ELSE CAdd(Head(s), CSum(Tail(s)))
\* vectors
VEq(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : CEq(v[i], w[i])
VMap(v, F(_)) == [i \in 1..Len(v) |-> F(v[i])]
VAdd(v, w) == [i \in 1..Len(v) |-> CAdd(v[i], w[i])]
VSub(v, w) == [i \in 1..Len(v) |-> CSub(v[i], w[i])]
Dot(v, w) == CSum([i \in 1..Len(v) |-> CMul(v[i], w[i])])
\* matrices
Mk(r, c, F(_, _)) == [r |-> r, c |-> c, d |-> [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]]
Empty == [r |-> 0, c |-> 0, d |-> <<>>]
MkD(r, c, F(_, _)) == IF r = 0 \/ c = 0 THEN Empty ELSE Mk(r, c, F)
MEq(A, B) == A.r = B.r /\ A.c = B.c /\ \A i \in 1..A.r : VEq(A.d[i], B.d[i])
Row(A, i) == A.d[i]
Col(A, j) == [i \in 1..A.r |-> A.d[i][j]]
MMap(A, F(_)) == Mk(A.r, A.c, LAMBDA i, j : F(A.d[i][j]))
MAdd(A, B) == Mk(A.r, A.c, LAMBDA i, j : CAdd(A.d[i][j], B.d[i][j]))
MSub(A, B) == Mk(A.r, A.c, LAMBDA i, j : CSub(A.d[i][j], B.d[i][j]))
MMul(A, B) == MkD(A.r, B.c, LAMBDA i, j : Dot(Row(A, i), Col(B, j)))
MTrans(A) == MkD(A.c, A.r, LAMBDA i, j : A.d[j][i])
MIdent(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN C1 ELSE C0)
MVec(A, v) == [i \in 1..A.r |-> Dot(Row(A, i), v)]
VMat(v, A) == [j \in 1..A.c |-> Dot(v, Col(A, j))]
Set(A, i, j, x) == Mk(A.r, A.c, LAMBDA p, q : IF p = i /\ q = j THEN x ELSE A.d[p][q])
Square(A) == A.r = A.c
SameShape(A, B) == A.r = B.r /\ A.c = B.c
Trace0(A) == CSum([i \in 1..A.r |-> A.d[i][i]])
\* deterministic fill values, so that a call can be described by a few integers
Fill(s, k, x) == <<((k * 7 + x * 3) % 11) - 5, IF s.cpx THEN ((k * 5 + x) % 7) - 3 ELSE 0>>
Sc(s, x) == <<x, IF s.cpx THEN ((x * x) % 3) - 1 ELSE 0>>
In(i, n) == i >= 0 /\ i < n
(* ---- the calls: indices in events count from 0 ---- *)
No(s, err) == [err |-> err, s |-> s]
Keep(v) == [i \in 1..Len(v) |-> <<RKeep(v[i][1]), RKeep(v[i][2])>>]
PutM(s, t, A) == [err |-> {}, s |-> [s EXCEPT !.M[t] = [r |-> A.r, c |-> A.c, d |-> [i \in 1..A.r |-> Keep(A.d[i])]]]]
PutV(s, t, v) == [err |-> {}, s |-> [s EXCEPT !.V[t] = Keep(v)]]
Dim == {"MatrixDimensionError"}
Acc == {"MatrixAccessBoundsError"}
VDim == {"VectorDimensionError"}
Without(v, F(_)) == SelectSeq(v, LAMBDA x : ~F(x))
InsertAt(v, p, x) == SubSeq(v, 1, p) \o <<x>> \o SubSeq(v, p + 1, Len(v))
Step(s, e) ==
  LET A == s.M[e.a]
      B == s.M[e.b]
      T == s.M[e.t]
      va == s.V[e.a]
      vb == s.V[e.b]
      vt == s.V[e.t]
      x == Sc(s, e.x)
      i == e.i
      j == e.j
      k == e.k
      n == e.l
      V0 == [p \in 1..n |-> Fill(s, IF j = 1 THEN (p - 1) % 2 ELSE p - 1, e.x)]
  IN
  CASE e.op \in {"new", "newval", "newptr", "newlist", "newvv"} /\ (i < 0 \/ j < 0) -> No(s, Dim)
    [] e.op = "new" -> PutM(s, e.t, MkD(i, j, LAMBDA p, q : C0))
    [] e.op = "newval" -> PutM(s, e.t, MkD(i, j, LAMBDA p, q : x))
    [] e.op = "newptr" -> PutM(s, e.t, MkD(i, j, LAMBDA p, q : Fill(s, IF k = 1 THEN (p - 1) * j + q - 1 ELSE (q - 1) * i + p - 1, e.x)))
    \* a list of n values
    [] e.op = "newlist" -> IF i > 0 /\ j > 0 /\ k = 1 /\ n # i * j THEN No(s, Dim)
                           ELSE PutM(s, e.t, MkD(i, j, LAMBDA p, q : LET z == (p - 1) * j + q - 1 IN IF z < n THEN Fill(s, z, e.x) ELSE C0))
    \* nested rows, the last one shorter when k = 1
    [] e.op = "newvv" -> IF k = 1 /\ i > 1 /\ j > 0 THEN No(s, Dim) ELSE PutM(s, e.t, MkD(i, IF k = 1 /\ i = 1 /\ j > 0 THEN j - 1 ELSE j, LAMBDA p, q : Fill(s, (p - 1) * j + q - 1, e.x)))
    [] e.op = "ident" -> IF i <= 0 THEN No(s, Dim) ELSE PutM(s, e.t, MIdent(i))
    [] e.op = "diag" -> IF va = <<>> THEN No(s, Dim) ELSE PutM(s, e.t, Mk(Len(va), Len(va), LAMBDA p, q : IF p = q THEN va[p] ELSE C0))
    [] e.op = "copy" -> PutM(s, e.t, A)
    [] e.op = "move" -> IF e.t = e.a THEN [err |-> {}, s |-> s] ELSE [err |-> {}, s |-> [s EXCEPT !.M[e.t] = A, !.M[e.a] = Empty]]
    [] e.op = "swap" -> [err |-> {}, s |-> [s EXCEPT !.M[e.t] = A, !.M[e.a] = T]]
    [] e.op = "atset" -> IF ~(In(i, T.r) /\ In(j, T.c)) THEN No(s, Acc) ELSE PutM(s, e.t, Set(T, i + 1, j + 1, x))
    [] e.op = "set" -> PutM(s, e.t, Set(T, i + 1, j + 1, x))
    [] e.op = "elset" -> PutM(s, e.t, Set(T, i + 1, j + 1, A.d[k + 1][n + 1]))
    [] e.op = "resize" -> IF i = T.r /\ j = T.c THEN [err |-> {}, s |-> s] ELSE IF i <= 0 \/ j <= 0 THEN No(s, Dim)
                          ELSE PutM(s, e.t, Mk(i, j, LAMBDA p, q : IF k = 1 /\ p <= T.r /\ q <= T.c THEN T.d[p][q] ELSE C0))
    [] e.op = "sub" -> IF ~(In(i, A.r) /\ In(j, A.c)) \/ k <= 0 \/ n <= 0 \/ i + k > A.r \/ j + n > A.c THEN No(s, Dim)
                       ELSE PutM(s, e.t, Mk(k, n, LAMBDA p, q : A.d[i + p][j + q]))
    [] e.op = "blockset" -> IF i < 0 \/ j < 0 \/ k <= 0 \/ n <= 0 \/ i + k > T.r \/ j + n > T.c THEN No(s, Dim)
                       ELSE PutM(s, e.t, Mk(T.r, T.c, LAMBDA p, q : IF p \in (i+1)..(i+k) /\ q \in (j+1)..(j+n) THEN x ELSE T.d[p][q]))
    [] e.op = "rowset" -> IF ~In(i, T.r) THEN No(s, Acc) ELSE IF Len(va) # T.c THEN No(s, Dim) ELSE PutM(s, e.t, Mk(T.r, T.c, LAMBDA p, q : IF p = i + 1 THEN va[q] ELSE T.d[p][q]))
    [] e.op = "colset" -> IF ~In(i, T.c) THEN No(s, Acc) ELSE IF Len(va) # T.r THEN No(s, Dim) ELSE PutM(s, e.t, Mk(T.r, T.c, LAMBDA p, q : IF q = i + 1 THEN va[p] ELSE T.d[p][q]))
    [] e.op = "rowfill" -> IF ~In(i, T.r) THEN No(s, Acc) ELSE PutM(s, e.t, Mk(T.r, T.c, LAMBDA p, q : IF p = i + 1 THEN x ELSE T.d[p][q]))
    [] e.op = "colfill" -> IF ~In(i, T.c) THEN No(s, Acc) ELSE PutM(s, e.t, Mk(T.r, T.c, LAMBDA p, q : IF q = i + 1 THEN x ELSE T.d[p][q]))
    [] e.op = "swaprows" -> IF ~(In(i, T.r) /\ In(j, T.r)) THEN No(s, Dim) ELSE PutM(s, e.t, Mk(T.r, T.c, LAMBDA p, q : T.d[IF p = i + 1 THEN j + 1 ELSE IF p = j + 1 THEN i + 1 ELSE p][q]))
    [] e.op = "swapcols" -> IF ~(In(i, T.c) /\ In(j, T.c)) THEN No(s, Dim) ELSE PutM(s, e.t, Mk(T.r, T.c, LAMBDA p, q : T.d[p][IF q = i + 1 THEN j + 1 ELSE IF q = j + 1 THEN i + 1 ELSE q]))
    [] e.op = "add" -> IF ~SameShape(A, B) THEN No(s, Dim) ELSE PutM(s, e.t, MAdd(A, B))
    [] e.op = "subt" -> IF ~SameShape(A, B) THEN No(s, Dim) ELSE PutM(s, e.t, MSub(A, B))
    [] e.op = "addeq" -> IF ~SameShape(T, A) THEN No(s, Dim) ELSE PutM(s, e.t, MAdd(T, A))
    [] e.op = "subeq" -> IF ~SameShape(T, A) THEN No(s, Dim) ELSE PutM(s, e.t, MSub(T, A))
    [] e.op = "mul" -> IF A.c # B.r THEN No(s, Dim) ELSE PutM(s, e.t, MMul(A, B))
    [] e.op \in {"scale", "lscale"} -> PutM(s, e.t, MMap(A, LAMBDA y : CMul(x, y)))
    [] e.op = "scaleeq" -> PutM(s, e.t, MMap(T, LAMBDA y : CMul(x, y)))
    [] e.op = "scaleeqel" -> PutM(s, e.t, MMap(T, LAMBDA y : CMul(T.d[i + 1][j + 1], y)))
    [] e.op = "scaleel" -> PutM(s, e.t, MMap(T, LAMBDA y : CMul(T.d[i + 1][j + 1], y)))
    [] e.op = "diveqel" -> PutM(s, e.t, MMap(T, LAMBDA y : CDiv(y, T.d[i + 1][j + 1])))
    [] e.op = "div" -> PutM(s, e.t, MMap(A, LAMBDA y : CDivR(y, e.x)))
    [] e.op = "diveq" -> PutM(s, e.t, MMap(T, LAMBDA y : CDivR(y, e.x)))
    [] e.op = "neg" -> PutM(s, e.t, MMap(A, CNeg))
    [] e.op = "trans" -> PutM(s, e.t, MTrans(A))
    [] e.op = "transeq" -> IF ~Square(T) THEN No(s, Dim) ELSE PutM(s, e.t, MTrans(T))
    [] e.op = "unit" -> IF ~Square(T) THEN No(s, Dim) ELSE PutM(s, e.t, IF T.r = 0 THEN Empty ELSE MIdent(T.r))
    [] e.op = "lower" -> IF ~Square(A) THEN No(s, Dim) ELSE PutM(s, e.t, Mk(A.r, A.c, LAMBDA p, q : IF q < p \/ (k = 1 /\ q = p) THEN A.d[p][q] ELSE C0))
    [] e.op = "upper" -> IF ~Square(A) THEN No(s, Dim) ELSE PutM(s, e.t, Mk(A.r, A.c, LAMBDA p, q : IF q > p \/ (k = 1 /\ q = p) THEN A.d[p][q] ELSE C0))
    [] e.op = "comm" -> IF A.c # B.r \/ B.c # A.r \/ A.r # B.c \/ ~(Square(A) /\ Square(B)) THEN No(s, Dim) ELSE PutM(s, e.t, MSub(MMul(A, B), MMul(B, A)))
    [] e.op = "acomm" -> IF A.c # B.r \/ B.c # A.r \/ ~(Square(A) /\ Square(B)) THEN No(s, Dim) ELSE PutM(s, e.t, MAdd(MMul(A, B), MMul(B, A)))
    [] e.op = "rowm" -> PutM(s, e.t, MkD(1, Len(va), LAMBDA p, q : va[q]))
    [] e.op = "colm" -> PutM(s, e.t, MkD(Len(va), 1, LAMBDA p, q : va[p]))
    [] e.op = "outer" -> PutM(s, e.t, MkD(Len(va), Len(vb), LAMBDA p, q : CMul(va[p], vb[q])))
    \* vectors
    [] e.op = "vnew" -> IF n < 0 THEN No(s, {"VectorInitializationError"}) ELSE PutV(s, e.t, [p \in 1..n |-> C0])
    [] e.op = "vnewval" -> IF n < 0 THEN No(s, {"VectorInitializationError"}) ELSE PutV(s, e.t, [p \in 1..n |-> x])
    [] e.op = "vfill" -> PutV(s, e.t, V0)
    [] e.op = "vunit" -> IF ~In(i, n) THEN No(s, VDim) ELSE PutV(s, e.t, [p \in 1..n |-> IF p = i + 1 THEN C1 ELSE C0])
    [] e.op = "vcopy" -> PutV(s, e.t, va)
    [] e.op = "vmove" -> IF e.t = e.a THEN [err |-> {}, s |-> s] ELSE [err |-> {}, s |-> [s EXCEPT !.V[e.t] = va, !.V[e.a] = <<>>]]
    [] e.op = "vset" -> PutV(s, e.t, [vt EXCEPT ![i + 1] = x])
    [] e.op = "vatset" -> IF ~In(i, Len(vt)) THEN No(s, VDim) ELSE PutV(s, e.t, [vt EXCEPT ![i + 1] = x])
    [] e.op = "vpush" -> PutV(s, e.t, Append(vt, x))
    [] e.op = "vpushel" -> PutV(s, e.t, Append(vt, vt[i + 1]))
    [] e.op = "vins" -> PutV(s, e.t, InsertAt(vt, i, x))
    [] e.op = "vinsel" -> PutV(s, e.t, InsertAt(vt, i, vt[j + 1]))
    [] e.op = "verase" -> PutV(s, e.t, SubSeq(vt, 1, i) \o SubSeq(vt, i + 2, Len(vt)))
    [] e.op = "verase2" -> PutV(s, e.t, SubSeq(vt, 1, i) \o SubSeq(vt, j + 1, Len(vt)))
    [] e.op = "veraseval" -> PutV(s, e.t, Without(vt, LAMBDA y : CEq(y, x)))
    [] e.op = "veraseel" -> PutV(s, e.t, Without(vt, LAMBDA y : CEq(y, vt[i + 1])))
    [] e.op = "vclear" -> PutV(s, e.t, <<>>)
    [] e.op = "vresize" -> PutV(s, e.t, [p \in 1..n |-> IF p <= Len(vt) THEN vt[p] ELSE C0])
    [] e.op = "vadd" -> IF Len(va) # Len(vb) THEN No(s, VDim) ELSE PutV(s, e.t, VAdd(va, vb))
    [] e.op = "vsub" -> IF Len(va) # Len(vb) THEN No(s, VDim) ELSE PutV(s, e.t, VSub(va, vb))
    [] e.op = "vaddeq" -> IF Len(vt) # Len(va) THEN No(s, VDim) ELSE PutV(s, e.t, VAdd(vt, va))
    [] e.op = "vsubeq" -> IF Len(vt) # Len(va) THEN No(s, VDim) ELSE PutV(s, e.t, VSub(vt, va))
    [] e.op = "vneg" -> PutV(s, e.t, VMap(va, CNeg))
    [] e.op \in {"vscale", "vlscale"} -> PutV(s, e.t, VMap(va, LAMBDA y : CMul(x, y)))
    [] e.op = "vscaleeq" -> PutV(s, e.t, VMap(vt, LAMBDA y : CMul(x, y)))
    [] e.op = "vscaleeqel" -> PutV(s, e.t, VMap(vt, LAMBDA y : CMul(vt[i + 1], y)))
    [] e.op = "vdiveqel" -> PutV(s, e.t, VMap(vt, LAMBDA y : CDiv(y, vt[i + 1])))
    [] e.op = "vdiv" -> PutV(s, e.t, VMap(va, LAMBDA y : CDivR(y, e.x)))
    [] e.op = "vdiveq" -> PutV(s, e.t, VMap(vt, LAMBDA y : CDivR(y, e.x)))
    [] e.op = "mv" -> IF A.c # Len(vb) THEN No(s, Dim) ELSE PutV(s, e.t, MVec(A, vb))
    [] e.op = "vm" -> IF A.r # Len(vb) THEN No(s, Dim) ELSE PutV(s, e.t, VMat(vb, A))
    [] e.op = "rowv" -> IF ~In(i, A.r) THEN No(s, Acc) ELSE PutV(s, e.t, Row(A, i + 1))
    [] e.op = "colv" -> IF ~In(i, A.c) THEN No(s, Acc) ELSE PutV(s, e.t, Col(A, i + 1))
    [] e.op = "diagv" -> IF ~Square(A) THEN No(s, Dim) ELSE PutV(s, e.t, [p \in 1..A.r |-> A.d[p][p]])
\* the order of vector and matrix arguments of a product is as written, both are mutually unchanged
WellFormed(s) ==
  /\ \A t \in 1..3 : LET A == s.M[t] IN Len(A.d) = A.r /\ (\A i \in 1..A.r : Len(A.d[i]) = A.c) /\ ((A.r = 0) <=> (A.c = 0))
\* laws the values obey
Laws(A, B, v) ==
  /\ MEq(MTrans(MTrans(A)), A)
  /\ SameShape(A, B) => MEq(MSub(MAdd(A, B), B), A) /\ MEq(MAdd(A, B), MAdd(B, A))
  /\ A.c = B.r => MEq(MTrans(MMul(A, B)), MMul(MTrans(B), MTrans(A)))
  /\ A.c = B.r /\ B.c = Len(v) => VEq(MVec(MMul(A, B), v), MVec(A, MVec(B, v)))
  /\ A.c = Len(v) => VEq(MVec(A, v), VMat(v, MTrans(A)))
  /\ A.c = B.r /\ B.c = A.r => CEq(Trace0(MMul(A, B)), Trace0(MMul(B, A)))
=============================================================================
