------------------------------ MODULE PolyTrace ------------------------------
(* Validates recorded polynomial operations and root solvers.                  *)
EXTENDS Poly, TraceFile
VARIABLES h, l, st, dead
St0 == <<>>
\* coefficient-wise closeness with the rounding scale w
NearP(r, x, w, k) == \A i \in 0..Max2(Len(r), Len(x)) : Close(Co(r, i), Co(x, i), k, Co(w, i))
MagAdd(p, q) == Add(Abs(p), Abs(q))
Reg(e, i) == e.regs[i]
P(s, i) == s[i]
DivOk(u, v, q, r) ==
  LET m == Mul(Abs(q), Abs(v)) t == RMul(8, Len(u) + 4)
  IN /\ Chk("degree of the remainder", Len(Trim(r)) <= Deg(v))
     /\ Chk("degree of the quotient", Len(Trim(q)) <= Max2(Deg(u) - Deg(v) + 1, 0))
     /\ Chk("u = q v + r", NearP(u, Add(Mul(q, v), r), Add(m, MagAdd(u, r)), t))
Frame(s, e, ts) == Chk("other polynomials untouched", \A i \in (1..3) \ ts : SeqREq(s[i], e.regs[i]))
Step(s, e) ==
  LET t == e.t r == e.regs[e.t] IN
  /\ Chk("finite", \A i \in 1..3 : AllNum(e.regs[i]))
  /\ IF e.op = "div" THEN LET u == s[e.x[1]] v == s[e.x[2]] IN
        IF Deg(v) < 0 THEN Chk("division by zero refused", e.err = "DivisionByZeroError") /\ Frame(s, e, {})
        ELSE Chk("no refusal", e.err = "") /\ Frame(s, e, {e.t, e.t2}) /\ DivOk(u, v, e.regs[e.t], e.regs[e.t2])
     ELSE /\ Chk("no refusal", e.err = "") /\ Frame(s, e, {t})
          /\ LET a == IF e.x = <<>> THEN <<>> ELSE s[e.x[1]] b == IF Len(e.x) < 2 THEN <<>> ELSE s[e.x[2]] c == e.c IN
             Chk("result", CASE e.op = "set" -> SeqREq(r, e.v)
               [] e.op = "add" -> NearP(r, Add(a, b), MagAdd(a, b), 2)
               [] e.op = "sub" -> NearP(r, Sub(a, b), MagAdd(a, b), 2)
               [] e.op = "mul" -> NearP(r, Mul(a, b), Mul(Abs(a), Abs(b)), Len(a) + Len(b) + 2) /\ Len(r) <= Max2(Len(a) + Len(b) - 1, 0)
               [] e.op = "neg" -> SeqREq(r, Scale(a, -1))
               [] e.op = "copy" -> SeqREq(r, a)
               [] e.op = "deriv" -> NearP(r, Deriv(a), Abs(Deriv(a)), 2) /\ Len(r) <= Max2(Len(a) - 1, 0)
               [] e.op = "integ" -> NearP(r, Integ(a), Abs(Integ(a)), 2)
               [] e.op \in {"smul", "lmul"} -> NearP(r, Scale(a, c), Abs(Scale(a, c)), 2)
               [] e.op = "sdiv" -> NearP(r, Scale(a, RDiv(1, c)), Abs(Scale(a, RDiv(1, c))), 2)
               [] e.op \in {"sadd", "ladd"} -> NearP(r, AddC(a, c), AddC(Abs(a), RAbs(c)), 2)
               [] e.op = "ssub" -> NearP(r, AddC(a, RNeg(c)), AddC(Abs(a), RAbs(c)), 2)
               [] e.op = "rsub" -> NearP(r, AddC(Scale(a, -1), c), AddC(Abs(a), RAbs(c)), 2)
               [] e.op = "reduce" -> SeqREq(r, Trim(s[t]))
               [] e.op = "degree" -> Len(r) = e.n + 1 /\ \A i \in 0..e.n : REq(Co(r, i), Co(s[t], i))
               [] e.op = "put" -> SeqREq(r, [s[t] EXCEPT ![e.n + 1] = c]))
PowSumAbs(p, x) == Eval(Abs(p), RAbs(x))
EvalOk(p, x, v) == Close(v, Eval(p, x), 4 * Len(p) + 2, PowSumAbs(p, x))
Queries(s, e) ==
  LET p == s[e.i] IN
  /\ Chk("degree", e.deg = Len(p) - 1 /\ e.isnull = (p = <<>>))
  /\ Chk("terms", REq(e.lead, IF p = <<>> THEN 0 ELSE Co(p, Len(p) - 1)) /\ REq(e.const, Co(p, 0)))
  /\ Chk("coefficients", SeqREq(e.co, p) /\ SeqREq(e.at, Mk(Len(p) + 4, LAMBDA k : IF k = 0 THEN 0 ELSE Co(p, k - 1))))
  /\ Chk("value", EvalOk(p, e.x, e.v) /\ REq(e.v, e.v2) /\ REq(e.v, e.v3))
  /\ Chk("derivatives", \A k \in 1..Len(e.pd) : EvalOk(DerivN(p, k - 1), e.x, e.pd[k]))
  /\ Chk("equality", e.eq = <<Same(p, s[1]), Same(p, s[2]), Same(p, s[3])>> /\ \A j \in 1..3 : e.ne[j] = ~e.eq[j])
  /\ Chk("tolerant equality", \A j \in 1..3 : LET m == RMaxAbs(Sub(p, s[j])) IN IF e.eqt[j] THEN RLe(m, RMul(e.eps, "1.000001")) ELSE RGe(m, RMul(e.eps, "0.999999")))
Fit(e) ==
  IF Len(e.x) # Len(e.y) \/ Len(e.x) = 0 \/ ~Distinct(e.x) THEN Chk("refused", e.err = "ArgumentError")
  ELSE /\ Chk("no refusal", e.err = "") /\ Chk("degree", Len(e.p) = Len(e.x))
       /\ Chk("passes through the points", LET m == RMaxAbs(e.y) IN \A i \in 1..Len(e.x) : Within(Eval(e.p, e.x[i]), e.y[i], RMul(e.tol, RAdd(m, PowSumAbs(e.p, e.x[i])))))
CMag(p, z) == Eval(Mk(Len(p), LAMBDA k : CUp(p[k + 1])), CUp(z))
CClose(a, b, t) == RLe(CUp(CSub(a, b)), t)
CTol(p, z) == RMul(RMul(20 * (Len(p) + 2), Eps), CMag(p, z))
CEv(e) == Chk("complex value", CClose(e.v, CEval(e.p, e.z), CTol(e.p, e.z)))
COp(e) == LET w == CMag(e.p, <<1, 0>>) u == CMag(e.q, <<1, 0>>) IN
  /\ Chk("complex sum", \A k \in 0..Max2(Len(e.p), Len(e.q)) : CClose(CCo(e.sum, k), CAdd(CCo(e.p, k), CCo(e.q, k)), RMul(RMul(4, Eps), RAdd(w, u))))
  /\ Chk("complex product", \A k \in 0..(Len(e.p) + Len(e.q)) : CClose(CCo(e.mul, k), CCo(CPMul(e.p, e.q), k), RMul(RMul(40, Eps), RMul(w, u))))
  /\ Chk("complex division", e.err = "" /\ Len(e.r) < Len(e.q) /\ LET s == CPAdd(CPMul(e.qt, e.q), e.r) IN \A k \in 0..Max2(Len(s), Len(e.p)) : CClose(CCo(s, k), CCo(e.p, k), RMul(RMul(200, Eps), RAdd(w, RMul(u, CMag(e.qt, <<1, 0>>))))))
\* p(A) for a square matrix
RECURSIVE MEval(_, _)
MEval(p, A) == LET n == Len(A) IN IF p = <<>> THEN [i \in 1..n |-> [j \in 1..n |-> 0]]
               ELSE LET T == RMatMul(A, MEval(Tail(p), A)) IN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RAdd(T[i][j], p[1]) ELSE T[i][j]]]
MAbs(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> RAbs(A[i][j])]]
MEv(e) == LET x == MEval(e.p, e.A) w == MEval(Abs(e.p), MAbs(e.A)) IN Chk("matrix value", \A i \in 1..Len(e.A) : \A j \in 1..Len(e.A) : Close(e.v[i][j], x[i][j], 10 * (Len(e.p) + 2), w[i][j]))
\* root solvers
Real0(z) == REq(z[2], 0)
Disc(p) == RSub(RMul(p[2], p[2]), RMul(4, RMul(p[1], p[3])))
Quad(e) ==
  LET p == e.p IN
  IF REq(p[3], 0) THEN (IF REq(p[2], 0) THEN Chk("no equation", e.n = 0) ELSE Chk("linear", e.n = 1 /\ Real0(e.z[1]) /\ Close(RMul(e.z[1][1], p[2]), RNeg(p[1]), 4, RAbs(p[1]))))
  ELSE /\ Chk("count", IF RGe(RAbs(Disc(p)), RMul("1e-13", RMul(p[2], p[2]))) /\ ~REq(Disc(p), 0) THEN e.n = (IF RGt(Disc(p), 0) THEN 2 ELSE 0) ELSE e.n \in {0, 2})
       /\ Chk("real iff counted", (e.n = 2) = (Real0(e.z[1]) /\ Real0(e.z[2])))
       /\ Chk("roots", LET s == RAdd(e.z[1][1], e.z[2][1]) m == RAdd(CUp(e.z[1]), CUp(e.z[2])) x == CMul(e.z[1], e.z[2]) IN
            /\ Within(s, RNeg(RDiv(p[2], p[3])), RMul("1e-14", m)) /\ REq(RAdd(e.z[1][2], e.z[2][2]), 0)
            /\ Within(x[1], RDiv(p[1], p[3]), RMul("1e-14", RMul(CUp(e.z[1]), CUp(e.z[2])))))
RealRoots(zs) == Cardinality({i \in 1..Len(zs) : Real0(zs[i])})
Closed(e) ==
  LET n == Deg(e.p) IN
  /\ Chk("finite", \A i \in 1..Len(e.z) : RIsNum(e.z[i][1]) /\ RIsNum(e.z[i][2]))
  /\ Chk("all roots", IF n < 1 THEN TRUE ELSE AllRoots(e.p, SubSeq(e.z, 1, n), e.tol))
  /\ Chk("number of real roots", e.known >= 0 => e.n = e.known)
\* an iterative solver may fail, but says so
Iter(e) ==
  IF e.err # "" THEN Chk("refusal", e.mayfail)
  ELSE LET n == Deg(e.p) IN
       IF n < 1 THEN Chk("no roots", e.z = <<>>)
       ELSE Chk("finite", \A i \in 1..Len(e.z) : RIsNum(e.z[i][1]) /\ RIsNum(e.z[i][2])) /\ Chk("number of roots", Len(e.z) = n) /\ Chk("all roots", AllRoots(e.p, e.z, e.tol))
CQuad(e) == Chk("complex quadratic", LET n == IF REq(CNorm2(e.p[3]), 0) THEN 1 ELSE 2 IN CAllRoots(SubSeq(e.p, 1, n + 1), SubSeq(e.z, 1, n), "1e-13"))
Ok(s, e) == CASE e.op = "init" -> TRUE [] e.op = "query" -> Queries(s, e) [] e.op = "fit" -> Fit(e) [] e.op = "ceval" -> CEv(e) [] e.op = "cop" -> COp(e) [] e.op = "meval" -> MEv(e)
              [] e.op = "quadratic" -> Quad(e) [] e.op = "closed" -> Closed(e) [] e.op = "roots" -> Iter(e) [] e.op = "cquad" -> CQuad(e) [] OTHER -> Step(s, e)
Upd(s, e) == IF Has(e, "regs") THEN <<>> \o [i \in 1..3 |-> <<>> \o [k \in 1..Len(e.regs[i]) |-> e.regs[i][k]]] ELSE s
INSTANCE TraceRun WITH Resume <- TRUE
=============================================================================
