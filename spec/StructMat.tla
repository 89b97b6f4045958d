----------------------------- MODULE StructMat -----------------------------
(***************************************************************************)
(* Symmetric, tridiagonal, band-diagonal and three-index matrices as their  *)
(* dense expansion.  A slot holds [p, L]: the shape parameters and a        *)
(* sequence of dense matrices (one, or the slices of a three-index matrix). *)
(* Step gives for every call the documented refusal or the new slots and,   *)
(* for a call that returns something, the value it has to return.           *)
(***************************************************************************)
EXTENDS LinAlg
Fl(k, x) == <<((k * 7 + x * 3) % 11) - 5, 0>>
FM(i, j, x) == MkD(i, j, LAMBDA p, q : Fl((p - 1) * j + q - 1, x))
FV(n, x) == [p \in 1..n |-> Fl(p - 1, x)]
S0 == [p |-> <<>>, L |-> <<Empty>>]
B0 == [p |-> <<0, 0, 0>>, L |-> <<>>]
SEq(u, v) == u.p = v.p /\ Len(u.L) = Len(v.L) /\ \A z \in 1..Len(u.L) : MEq(u.L[z], v.L[z])
KeepM(A) == [r |-> A.r, c |-> A.c, d |-> [i \in 1..A.r |-> Keep(A.d[i])]]
R0 == <<>>                               \* nothing returned
Err(s, S) == [err |-> S, s |-> s, ret |-> R0]
Ret(s, v) == [err |-> {}, s |-> s, ret |-> v]
PutP(s, t, p, L) == [err |-> {}, s |-> [s EXCEPT ![t] = [p |-> p, L |-> [z \in 1..Len(L) |-> KeepM(L[z])]]], ret |-> R0]
Put(s, t, A) == PutP(s, t, s[t].p, <<A>>)
Nrm2(A) == RSqrt(RSum([i \in 1..A.r |-> RSum([j \in 1..A.c |-> CNorm2(A.d[i][j])])]))
Mx(S) == CHOOSE x \in S : \A y \in S : x >= y
RowSums(A) == [i \in 1..A.r |-> RSum([j \in 1..A.c |-> CAbs(A.d[i][j])])]
NInf(A) == IF A.r = 0 THEN 0 ELSE RMaxAbs(RowSums(A))
SymTri(A, low) == Mk(A.r, A.r, LAMBDA i, j : IF (i >= j) = low THEN A.d[i][j] ELSE A.d[j][i])
IsSym(A) == \A i, j \in 1..A.r : CEq(A.d[i][j], A.d[j][i])
\* order of the cells in a packed lower triangle
Pk(i, j) == IF i >= j THEN ((i - 1) * i) \div 2 + j - 1 ELSE ((j - 1) * j) \div 2 + i - 1
Det(A) == RDet([i \in 1..A.r |-> [j \in 1..A.c |-> A.d[i][j][1]]])
Map3(s, e, F(_)) == PutP(s, e.t, s[e.t].p, [z \in 1..Len(s[e.t].L) |-> MMap(s[e.t].L[z], F)])
Map3a(s, e, F(_)) == PutP(s, e.t, s[e.a].p, [z \in 1..Len(s[e.a].L) |-> MMap(s[e.a].L[z], F)])
Zip3(s, e, u, v, F(_, _)) == PutP(s, e.t, u.p, [z \in 1..Len(u.L) |-> Mk(u.L[z].r, u.L[z].c, LAMBDA i, j : F(u.L[z].d[i][j], v.L[z].d[i][j]))])
Common(s, e) ==
  CASE e.op = "copy" -> PutP(s, e.t, s[e.a].p, s[e.a].L)
    [] e.op = "swap" -> [err |-> {}, s |-> [s EXCEPT ![e.t] = s[e.a], ![e.a] = s[e.t]], ret |-> R0]
    [] e.op \in {"scale", "lscale"} -> Map3a(s, e, LAMBDA y : CMul(<<e.x, 0>>, y))
    [] e.op = "scaleeq" -> Map3(s, e, LAMBDA y : CMul(<<e.x, 0>>, y))
    [] e.op = "div" -> Map3a(s, e, LAMBDA y : CDivR(y, e.x))
    [] e.op = "diveq" -> Map3(s, e, LAMBDA y : CDivR(y, e.x))
    [] e.op = "neg" -> Map3a(s, e, CNeg)
    [] e.op \in {"add", "subt", "addeq", "subeq"} ->
         LET u == IF e.op \in {"add", "subt"} THEN s[e.a] ELSE s[e.t]
             v == IF e.op \in {"add", "subt"} THEN s[e.b] ELSE s[e.a]
         IN IF u.p # v.p \/ Len(u.L) # Len(v.L) \/ \E z \in 1..Len(u.L) : ~SameShape(u.L[z], v.L[z]) THEN Err(s, Dim)
            ELSE IF e.op \in {"add", "addeq"} THEN Zip3(s, e, u, v, CAdd) ELSE Zip3(s, e, u, v, CSub)
Two == {"copy", "swap", "scale", "lscale", "scaleeq", "div", "diveq", "neg", "add", "subt", "addeq", "subeq"}
Sym(s, e) ==
  LET A == s[e.a].L[1]
      B == s[e.b].L[1]
      T == s[e.t].L[1]
      i == e.i
      j == e.j
      n == e.l
      v == FV(n, e.x)
  IN
  CASE e.op \in {"new", "newval"} -> IF n < 0 THEN Err(s, Dim) ELSE Put(s, e.t, MkD(n, n, LAMBDA p, q : <<IF e.op = "new" THEN 0 ELSE e.x, 0>>))
    [] e.op = "newlist" -> IF e.k # (n * (n + 1)) \div 2 THEN Err(s, Dim) ELSE Put(s, e.t, MkD(n, n, LAMBDA p, q : Fl(Pk(p, q), e.x)))
    [] e.op = "ident" -> IF n < 0 THEN Err(s, Dim) ELSE Put(s, e.t, MkD(n, n, LAMBDA p, q : IF p = q THEN C1 ELSE C0))
    [] e.op = "diag" -> Put(s, e.t, MkD(n, n, LAMBDA p, q : IF p = q THEN v[p] ELSE C0))
    [] e.op \in {"lower", "upper", "fromfull"} -> IF i # j THEN Err(s, Dim) ELSE LET F == FM(i, j, e.x) IN
         Put(s, e.t, IF e.op = "fromfull" THEN Mk(F.r, F.r, LAMBDA p, q : CDivR(CAdd(F.d[p][q], F.d[q][p]), 2)) ELSE SymTri(F, e.op = "lower"))
    [] e.op = "move" -> IF e.t = e.a THEN Ret(s, R0) ELSE [err |-> {}, s |-> [s EXCEPT ![e.t] = s[e.a], ![e.a] = S0], ret |-> R0]
    [] e.op = "set" -> Put(s, e.t, Mk(T.r, T.r, LAMBDA p, q : IF {p, q} = {i + 1, j + 1} THEN <<e.x, 0>> ELSE T.d[p][q]))
    [] e.op = "atset" -> IF ~(In(i, T.r) /\ In(j, T.r)) THEN Err(s, Acc) ELSE Put(s, e.t, Mk(T.r, T.r, LAMBDA p, q : IF {p, q} = {i + 1, j + 1} THEN <<e.x, 0>> ELSE T.d[p][q]))
    [] e.op = "resize" -> IF n = T.r THEN Ret(s, R0) ELSE IF n < 0 THEN Err(s, Dim) ELSE Put(s, e.t, MkD(n, n, LAMBDA p, q : IF e.k = 1 /\ p <= T.r /\ q <= T.r THEN T.d[p][q] ELSE C0))
    [] e.op = "setval" -> Put(s, e.t, MMap(T, LAMBDA y : <<e.x, 0>>))
    [] e.op = "scaleeqel" -> Put(s, e.t, MMap(T, LAMBDA y : CMul(T.d[i + 1][j + 1], y)))
    [] e.op = "asmat" -> Ret(s, A)
    [] e.op = "mulsym" -> IF A.r # B.r THEN Err(s, Dim) ELSE Ret(s, MMul(A, B))
    [] e.op = "mulmat" -> LET F == FM(i, j, e.x) IN IF A.r # F.r THEN Err(s, Dim) ELSE Ret(s, MMul(A, F))
    [] e.op = "mv" -> IF A.r # n THEN Err(s, Dim) ELSE Ret(s, MVec(A, v))
    [] e.op = "vm" -> IF A.r # n THEN Err(s, Dim) ELSE Ret(s, VMat(v, A))
    [] e.op = "rowv" -> IF ~In(i, A.r) THEN Err(s, Acc) ELSE Ret(s, Row(A, i + 1))
    [] e.op = "colv" -> IF ~In(i, A.r) THEN Err(s, Acc) ELSE Ret(s, Col(A, i + 1))
    [] e.op = "diagv" -> Ret(s, [p \in 1..A.r |-> A.d[p][p]])
    [] e.op = "figs" -> Ret(s, <<Trace0(A), <<Nrm2(A), 0>>, <<NInf(A), 0>>, <<NInf(A), 0>>, <<A.r, 0>>, <<(A.r * (A.r + 1)) \div 2, 0>>>>)
    [] e.op = "cmp" -> Ret(s, SEq(s[e.a], s[e.b]))
Tri(s, e) ==
  LET A == s[e.a].L[1]
      B == s[e.b].L[1]
      T == s[e.t].L[1]
      i == e.i
      j == e.j
      n == e.l
      TD(lo(_), di(_), up(_)) == Mk(n, n, LAMBDA p, q : IF p = q THEN di(p) ELSE IF p = q + 1 THEN lo(p) ELSE IF q = p + 1 THEN up(p) ELSE C0)
      ld == {i - j} \subseteq {-1, 0, 1}
  IN
  CASE e.op = "new" -> IF n < 3 \/ e.k = 1 THEN Err(s, Dim) ELSE Put(s, e.t, TD(LAMBDA p : Fl(p, e.x), LAMBDA p : Fl(p + 20, e.x), LAMBDA p : Fl(p + 40, e.x)))
    [] e.op = "newlist" -> IF n < 2 \/ e.k # 3 * n - 2 THEN Err(s, Dim) ELSE Put(s, e.t, TD(LAMBDA p : Fl(3 * (p - 1) - 1, e.x), LAMBDA p : Fl(3 * (p - 1), e.x), LAMBDA p : Fl(3 * (p - 1) + 1, e.x)))
    [] e.op = "set" -> IF ~ld THEN Err(s, Acc) ELSE Put(s, e.t, Set(T, i + 1, j + 1, <<e.x, 0>>))
    [] e.op = "trans" -> Put(s, e.t, MTrans(A))
    [] e.op = "inv" -> Err(s, {"NotImplementedError"})
    [] e.op = "cmp" -> Ret(s, SEq(s[e.a], s[e.b]))
    [] e.op = "solve" -> Ret(s, FV(A.r, e.x))
    [] e.op = "solvebad" -> Err(s, VDim \cup Dim)
Band(s, e) ==
  LET sa == s[e.a]
      A == sa.L[1]
      T == s[e.t].L[1]
      i == e.i
      j == e.j
      n == e.l
      InB(p, P) == p[1] - p[2] <= P[1] /\ p[2] - p[1] <= P[2]
      k == e.i
  IN
  CASE e.op = "new" -> IF e.k # 0 THEN Err(s, Dim) ELSE PutP(s, e.t, <<i, j>>, <<MkD(n, n, LAMBDA p, q : IF InB(<<p, q>>, <<i, j>>) THEN Fl((p - 1) * (i + j + 1) + q - p + i, e.x) ELSE C0)>>)
    [] e.op = "set" -> IF ~InB(<<i, j>>, s[e.t].p) THEN Err(s, Acc) ELSE Put(s, e.t, Set(T, i + 1, j + 1, <<e.x, 0>>))
    [] e.op = "divzero" -> Err(s, {"DivisionByZeroError"})
    [] e.op = "mv" -> IF n # A.r THEN Err(s, {"ArgumentError"}) ELSE Ret(s, MVec(A, FV(n, e.x)))
    [] e.op = "full" -> Ret(s, A)
    [] e.op = "inband" -> Ret(s, InB(<<i, j>>, sa.p))
    [] e.op = "trans" -> PutP(s, e.t, <<sa.p[2], sa.p[1]>>, <<MTrans(A)>>)
    [] e.op = "figs" -> Ret(s, <<Trace0(A), <<Nrm2(A), 0>>, <<NInf(A), 0>>, <<A.r, 0>>, <<sa.p[1], 0>>, <<sa.p[2], 0>>>>)
    [] e.op = "cmp" -> Ret(s, SEq(sa, s[e.b]))
    [] e.op = "issym" -> Ret(s, sa.p[1] = sa.p[2] /\ IsSym(A))
    [] e.op = "diagv" -> Ret(s, [p \in 1..A.r |-> A.d[p][p]])
    \* diagonal k is counted below the main one
    [] e.op = "diagk" -> IF k > sa.p[1] \/ k < 0 - sa.p[2] \/ k >= A.r \/ k <= 0 - A.r THEN Err(s, {"IndexError"})
                         ELSE Ret(s, IF k >= 0 THEN [p \in 1..(A.r - k) |-> A.d[p + k][p]] ELSE [p \in 1..(A.r + k) |-> A.d[p][p - k]])
Cube(s, e) ==
  LET T == s[e.t]
      i == e.i
      j == e.j
      n == e.l
      In3 == In(i, T.p[1]) /\ In(j, T.p[2]) /\ In(n, T.p[3])
      C(F(_, _, _)) == PutP(s, e.t, <<i, j, n>>, [z \in 1..i |-> Mk(j, n, LAMBDA p, q : F(z, p, q))])
  IN
  CASE e.op \in {"new", "newval"} -> IF i <= 0 \/ j <= 0 \/ n <= 0 THEN Err(s, {"ArgumentError"}) ELSE C(LAMBDA z, p, q : <<IF e.op = "new" THEN 0 ELSE e.x, 0>>)
    [] e.op \in {"resize", "resizeval"} -> IF e.op = "resize" /\ T.p = <<i, j, n>> THEN Ret(s, R0) ELSE IF i <= 0 \/ j <= 0 \/ n <= 0 THEN PutP(s, e.t, <<0, 0, 0>>, <<>>)
                                            ELSE C(LAMBDA z, p, q : <<IF e.op = "resize" THEN 0 ELSE e.x, 0>>)
    [] e.op = "move" -> IF e.t = e.a THEN Ret(s, R0) ELSE [err |-> {}, s |-> [s EXCEPT ![e.t] = s[e.a], ![e.a] = B0], ret |-> R0]
    [] e.op \in {"set", "atset"} -> IF ~In3 THEN Err(s, {"IndexError"}) ELSE PutP(s, e.t, T.p, [T.L EXCEPT ![i + 1] = Set(T.L[i + 1], j + 1, n + 1, <<e.x, 0>>)])
    [] e.op = "fillall" -> PutP(s, e.t, T.p, [z \in 1..Len(T.L) |-> FM(T.p[2], T.p[3], e.x + z)])
    [] e.op = "fill" -> Map3(s, e, LAMBDA y : <<e.x, 0>>)
    [] e.op = "apply" -> Map3(s, e, LAMBDA y : CAdd(CAdd(y, y), <<e.x, 0>>))
    [] e.op = "addsc" -> Map3a(s, e, LAMBDA y : CAdd(y, <<e.x, 0>>))
    [] e.op = "addsceq" -> Map3(s, e, LAMBDA y : CAdd(y, <<e.x, 0>>))
    [] e.op = "scaleeqel" -> Map3(s, e, LAMBDA y : CMul(y, T.L[i + 1].d[j + 1][n + 1]))
    [] e.op = "addeqel" -> Map3(s, e, LAMBDA y : CAdd(y, T.L[i + 1].d[j + 1][n + 1]))
    [] e.op = "diveqel" -> Map3(s, e, LAMBDA y : CDiv(y, T.L[i + 1].d[j + 1][n + 1]))
    [] e.op = "cmp" -> Ret(s, SEq(s[e.a], s[e.b]))
    [] e.op = "figs" -> Ret(s, <<<<s[e.a].p[1] * s[e.a].p[2] * s[e.a].p[3], 0>>, <<IF s[e.a].L = <<>> THEN 1 ELSE 0, 0>>>>)
SStep(cls, s, e) == IF e.op \in Two THEN Common(s, e)
                    ELSE CASE cls = "sym" -> Sym(s, e) [] cls = "tri" -> Tri(s, e) [] cls = "band" -> Band(s, e) [] cls = "cube" -> Cube(s, e)
\* the structure each class promises
Structured(cls, v) ==
  CASE cls = "sym" -> IsSym(v.L[1])
    [] cls = "tri" -> \A i, j \in 1..v.L[1].r : (i > j + 1 \/ j > i + 1) => CEq(v.L[1].d[i][j], C0)
    [] cls = "band" -> \A i, j \in 1..v.L[1].r : (i - j > v.p[1] \/ j - i > v.p[2]) => CEq(v.L[1].d[i][j], C0)
    [] cls = "cube" -> Len(v.L) = v.p[1] /\ \A z \in 1..Len(v.L) : v.L[z].r = v.p[2] /\ v.L[z].c = v.p[3]
=============================================================================
