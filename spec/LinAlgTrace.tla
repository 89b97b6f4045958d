---------------------------- MODULE LinAlgTrace ----------------------------
(* Validates recorded call sequences on dense vectors and matrices.          *)
EXTENDS LinAlg, TraceFile
VARIABLES h, l, st, dead
None3 == <<Empty, Empty, Empty>>
\* the observed change lists exactly the slots whose contents differ
Obs(old, ch, t) == IF \E i \in 1..Len(ch) : ch[i][1] = t THEN ch[CHOOSE i \in 1..Len(ch) : ch[i][1] = t][2] ELSE old[t]
\* single precision elements are squared in single precision
Near3(s, x, y) == Close(x, y, IF s.flt THEN 1073741824 ELSE 64, RMax(1, RAbs(y)))
AllM(A, P(_, _)) == \A i \in 1..A.r : \A j \in 1..A.c : P(i, j)
MZ(x) == REq(x[1], 0) /\ REq(x[2], 0)
Elems(A) == [p \in 1..(A.r * A.c) |-> A.d[((p - 1) \div A.c) + 1][((p - 1) % A.c) + 1]]
MaxAbs(v) == IF v = <<>> THEN 0 ELSE RMaxAbs([i \in 1..Len(v) |-> CAbs(v[i])])
N1(v) == RSum([i \in 1..Len(v) |-> CAbs(v[i])])
N2(v) == RSqrt(RSum([i \in 1..Len(v) |-> CNorm2(v[i])]))
\* complex matrices: the conjugate counterpart
Skew(s, A) == Square(A) /\ AllM(A, LAMBDA i, j : MZ(CAdd(A.d[i][j], CConj(A.d[j][i]))))
Query(s, e) ==
  LET A == s.M[e.a]
      B == s.M[e.b]
      u == s.V[e.va]
      w == s.V[e.vb]
      same == MEq(A, B)
      vsame == Len(u) = Len(w) /\ VEq(u, w)
  IN /\ Chk("equality", e.eq = same /\ e.ne = ~same /\ e.iseq = same /\ e.areeq = same)
     /\ Chk("symmetric", e.sym = (Square(A) /\ AllM(A, LAMBDA i, j : CEq(A.d[i][j], A.d[j][i]))))
     /\ Chk("antisymmetric", e.anti = Skew(s, A))
     /\ Chk("diagonal", e.dia = AllM(A, LAMBDA i, j : i = j \/ MZ(A.d[i][j])))
     /\ Chk("identity", e.idn = (Square(A) /\ AllM(A, LAMBDA i, j : CEq(A.d[i][j], IF i = j THEN C1 ELSE C0))))
     /\ Chk("zero", e.zero = AllM(A, LAMBDA i, j : MZ(A.d[i][j])))
     /\ Chk("shape", e.sq = Square(A) /\ e.emp = (A.r = 0) /\ e.cnt = A.r * A.c)
     /\ Chk("dominant", e.dd = (Square(A) /\ \A i \in 1..A.r : RGe(RMul(CAbs(A.d[i][i]), RAdd(1, RDiv(1, 1000000000))), RSum([j \in 1..A.c |-> IF j = i THEN 0 ELSE CAbs(A.d[i][j])]))))
     /\ Chk("trace", IF Square(A) THEN e.traceE = "" /\ CEq(e.trace, Trace0(A)) ELSE e.traceE = "MatrixDimensionError")
     /\ Chk("at", IF In(e.i, A.r) /\ In(e.j, A.c) THEN e.atE = "" /\ CEq(e.at, A.d[e.i + 1][e.j + 1]) ELSE e.atE = "MatrixAccessBoundsError")
     /\ Chk("norms", Near3(s, e.n1, N1(Elems(A))) /\ Near3(s, e.n2, N2(Elems(A))) /\ Near3(s, e.ninf, MaxAbs(Elems(A))))
     /\ Chk("vector equality", IF Len(u) # Len(w) THEN e.veqE = "VectorDimensionError" /\ e.viseqE = "VectorDimensionError" ELSE e.veqE = "" /\ e.veq = vsame /\ e.viseqE = "" /\ e.viseq = vsame)
     /\ Chk("vector zero", e.vz = (\A i \in 1..Len(u) : MZ(u[i])) /\ e.vnz = e.vz)
     /\ Chk("vector at", IF In(e.i, Len(u)) THEN e.vatE = "" /\ CEq(e.vat, u[e.i + 1]) ELSE e.vatE = "VectorDimensionError")
     /\ Chk("vector norms", Near3(s, e.vn1, N1(u)) /\ Near3(s, e.vn2, N2(u)) /\ Near3(s, e.vninf, MaxAbs(u)))
     /\ Chk("scalar product", e.dotE = "none" \/ IF Len(u) # Len(w) THEN e.dotE = "VectorDimensionError" ELSE e.dotE = "" /\ CEq(e.dot, Dot(u, [i \in 1..Len(w) |-> CConj(w[i])])))
FQuery(s, e) ==
  LET A == s.M[e.a]
      B == s.M[e.b]
      u == s.V[e.a]
      w == s.V[e.b]
  IN /\ Chk("equality", e.eq = MEq(A, B) /\ e.ne = ~e.eq /\ e.iseq = e.eq /\ e.veq = VEq(u, w) /\ e.vne = ~e.veq)
     /\ Chk("trace", CEq(e.trace, Trace0(A)))
     /\ Chk("vector zero", e.vz = (\A i \in 1..Len(u) : MZ(u[i])))
     /\ Chk("vector norms", Near3(s, e.vn1, N1(u)) /\ Near3(s, e.vn2, N2(u)) /\ Near3(s, e.vninf, MaxAbs(u)))
Half(x) == CDivR(x, 2)
ErrIf(e, c) == IF c THEN e.err # "" ELSE e.err = ""
CClose(x, y) == CloseRel(x[1], y[1], 1) /\ CloseRel(x[2], y[2], 1)
VClose(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : CClose(v[i], w[i])
MClose(P, Q) == SameShape(P, Q) /\ \A i \in 1..P.r : VClose(P.d[i], Q.d[i])
Fun(e) ==
  LET A == e.A
      B == e.B
      bad == CASE e.f \in {"madd", "msub"} -> ~SameShape(A, B)
               [] e.f = "mmul" -> A.c # B.r
               [] e.f = "mv" -> A.c # Len(B)
               [] e.f = "vm" -> Len(A) # B.r
               [] e.f \in {"vadd", "vsub"} -> Len(A) # Len(B)
               [] e.f \in {"decomp", "herm", "orth"} -> ~Square(A)
               [] e.f = "vlist" -> Len(A) > B
               [] OTHER -> FALSE
  IN Chk("refusal " \o e.f, ErrIf(e, bad)) /\ (e.err = "" => Chk(e.f,
     CASE e.f = "madd" -> MEq(e.R, MAdd(A, B))
       [] e.f = "msub" -> MEq(e.R, MSub(A, B))
       [] e.f = "mmul" -> MEq(e.R, MMul(A, B))
       [] e.f = "smul" -> MEq(e.R, MMap(B, LAMBDA y : CMul(A, y)))
       [] e.f = "mv" -> VEq(e.R, MVec(A, B))
       [] e.f = "vm" -> VEq(e.R, VMat(A, B))
       [] e.f = "vadd" -> VEq(e.R, VAdd(A, B))
       [] e.f = "vsub" -> VEq(e.R, VSub(A, B))
       [] e.f = "vsmul" -> VEq(e.R, VMap(B, LAMBDA y : CMul(A, y)))
       [] e.f = "decomp" -> MEq(e.R[1], MMap(MAdd(A, MTrans(A)), Half)) /\ MEq(e.R[2], MMap(MSub(A, MTrans(A)), Half))
       [] e.f = "herm" -> e.R = AllM(A, LAMBDA i, j : CEq(A.d[i][j], CConj(A.d[j][i])))
       [] e.f = "realp" -> MEq(e.R, MMap(A, LAMBDA y : <<y[1], 0>>))
       [] e.f = "imagp" -> MEq(e.R, MMap(A, LAMBDA y : <<y[2], 0>>))
       [] e.f = "ctrans" -> MEq(e.R, MMap(MTrans(A), CConj))
       [] e.f = "trans" -> MEq(e.R, MTrans(A))
       [] e.f = "isreal" -> e.R = AllM(A, LAMBDA i, j : REq(A.d[i][j][2], 0))
       [] e.f = "same" -> MEq(e.R, A)
       [] e.f = "orth" -> e.R = MEq(MMul(A, MTrans(A)), MIdent(A.r))
       [] e.f = "rowsm" -> MEq(e.R, Mk(Len(A), Len(A[1]), LAMBDA i, j : A[i][j]))
       [] e.f = "colsm" -> MEq(e.R, Mk(Len(A[1]), Len(A), LAMBDA i, j : A[j][i]))
       [] e.f = "rowsel" -> VEq(e.R, Row(A, B + 1))
       [] e.f = "colsel" -> VEq(e.R, Col(A, B + 1))
       [] e.f = "sunit" -> MEq(e.R, Mk(B, B, LAMBDA i, j : IF i = j THEN A ELSE C0))
       [] e.f = "listnm" -> MEq(e.R, Mk(2, 3, LAMBDA i, j : IF (i - 1) * 3 + j <= Len(A) THEN A[(i - 1) * 3 + j] ELSE C0))
       [] e.f = "vlist" -> VEq(e.R, [i \in 1..B |-> IF i <= Len(A) THEN A[i] ELSE C0])
       [] e.f = "vdiv" -> VClose(e.R, VMap(A, LAMBDA y : CDivR(y, B[1])))
       [] e.f = "vscale" -> VClose(e.R, VMap(A, LAMBDA y : CMul(B, y)))
       [] e.f = "mdiv" -> MClose(e.R, MMap(A, LAMBDA y : CDivR(y, B[1])))
       [] e.f = "mscale" -> MClose(e.R, MMap(A, LAMBDA y : CMul(B, y)))))
Ok(s, e) ==
  CASE e.op = "type" -> TRUE
    [] e.op = "fun" -> Fun(e)
    [] e.op = "q" -> Query(s, e)
    [] e.op = "fq" -> FQuery(s, e)
    [] e.op = "all" -> Chk("nothing else changed", \A t \in 1..3 : MEq(e.M[t], s.M[t]) /\ VEq(e.V[t], s.V[t]))
    [] OTHER -> LET R == Step(s, e) IN
         /\ Chk("refusal", IF R.err = {} THEN e.err = "" ELSE e.err \in R.err)
         /\ Chk("values", \A t \in 1..3 : MEq(Obs(s.M, e.M, t), R.s.M[t]) /\ VEq(Obs(s.V, e.V, t), R.s.V[t]))
Upd(s, e) == IF e.op = "type" THEN [s EXCEPT !.cpx = e.cpx, !.flt = e.flt] ELSE IF e.op \in {"q", "fq", "all", "fun"} THEN s ELSE Step(s, e).s
INSTANCE TraceRun WITH St0 <- [cpx |-> FALSE, flt |-> FALSE, M |-> None3, V |-> <<<<>>, <<>>, <<>>>>], Resume <- FALSE
=============================================================================
