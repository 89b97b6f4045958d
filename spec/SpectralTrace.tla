--------------------------- MODULE SpectralTrace ---------------------------
(* Validates recorded spectra, factorizations and subspaces.                  *)
EXTENDS Spectral, TraceFile
VARIABLES h, l, st, dead
Shape == {"MatrixDimensionError", "VectorDimensionError"}
Square(A) == Rows(A) = Cols(A)
T == "2e-13"
Nums(M) == \A i \in 1..Rows(M) : AllNum(M[i])
Sym(e) ==
  IF ~Square(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE /\ Chk("no refusal", e.err = "")
       /\ Chk("converges", e.conv \/ e.lim)
       /\ (e.conv => /\ Chk("finite", AllNum(e.w) /\ Nums(e.V))
                     /\ Chk("pairs", Rows(e.A) = 0 \/ SymEigen(e.A, e.w, e.V, T))
                     /\ Chk("spectrum", Rows(e.A) = 0 \/ Spectrum(e.A, [i \in 1..Len(e.w) |-> <<e.w[i], 0>>], T)))
\* members of a pair stand together, the one with positive imaginary part first
Gen(e) ==
  IF ~Square(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE LET n == Rows(e.A)
           F == RMul(T, 4)
           first(j) == e.pair[j] /\ RGt(e.z[j][2], 0)
       IN /\ Chk("no refusal", e.err = "")
          /\ Chk("converges", e.conv \/ e.lim)
          /\ (e.conv => /\ Chk("shape", Len(e.z) = n /\ Len(e.pair) = n /\ Rows(e.V) = n /\ Cols(e.V) = n)
                        /\ Chk("finite", Nums(e.z) /\ Nums(e.V))
                        /\ Chk("conjugates", \A j \in 1..n : IF ~e.pair[j] THEN REq(e.z[j][2], 0)
                               ELSE IF first(j) THEN j < n /\ e.pair[j + 1] /\ Within(e.z[j + 1][1], e.z[j][1], 0) /\ REq(e.z[j + 1][2], RNeg(e.z[j][2]))
                               ELSE j > 1 /\ first(j - 1))
                        /\ Chk("pairs", \A j \in 1..n : IF ~e.pair[j] THEN RealPair(e.A, Col(e.V, j), e.z[j][1], F)
                               ELSE ~first(j) \/ ComplexPair(e.A, Col(e.V, j), Col(e.V, j + 1), e.z[j][1], e.z[j][2], F))
                        /\ Chk("spectrum", n = 0 \/ Spectrum(e.A, e.z, F))
                        /\ Chk("reported residual", RLe(e.res, RMul(RMul(F, 10), NormM(e.A))) /\ RGe(e.res, 0)))
UnitLower(A) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : j < i - 1 => RLe(RAbs(A[i][j]), RMul(T, NormM(A)))
Hess(e) == Chk("Hessenberg", e.err = "" /\ UnitLower(e.H)) /\ Chk("orthogonal", Orthonormal(e.Q)) /\ Chk("similar", SameM(RMatMul(RMatMul(e.Q, e.H), Tr(e.Q)), e.A, NormM(e.A)))
Sub(e) ==
  LET r == RRank(e.A) m == Rows(e.A) n == Cols(e.A) d == IF m < n THEN m ELSE n
      sm == e.w[d]
  IN /\ Chk("no refusal", e.err = "")
     /\ Chk("singular values", Len(e.w) = n /\ SeqREq(e.w, e.w2) /\ SVDof(e.A, e.U, e.w, e.W))
     /\ Chk("rank", e.rank = r /\ e.rank2 = r /\ e.rank3 = r /\ e.rankg = r /\ e.nullity = n - r)
     /\ Chk("bases", BasisOfColumns(e.col, e.A, r) /\ BasisOfColumns(e.row, Tr(e.A), r) /\ BasisOfKernel(e.ker, e.A, r) /\ BasisOfKernel(e.left, Tr(e.A), r))
     /\ Chk("one by one", e.same)
     /\ Chk("condition", \A c \in {e.c1, e.c2} : IF r < d THEN ~RIsNum(c) \/ RGe(c, "1e13") ELSE RIsNum(c) /\ CloseRel(c, RDiv(e.w[1], sm), 4))
     /\ Chk("pseudo-inverse", Nums(e.P) /\ (r = 0 \/ IsPseudoInverse(e.A, e.P, RDiv(e.w[1], e.w[r]))) /\ (r > 0 \/ ZeroM(e.P)))
Def(e) ==
  LET d == Definiteness(e.A)
  IN IF ~Square(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
     ELSE /\ Chk("class", e.cls = d \/ (ZeroM(e.A) /\ e.cls \in {"PSD", "NSD"}))
          /\ Chk("predicates", e.is = <<d = "PD", d \in {"PD", "PSD"}, d = "ND", d \in {"ND", "NSD"} \/ ZeroM(e.A), d = "IND">>)
Fad(e) ==
  IF ~Square(e.A) THEN Chk("refusal of misshaped data", e.err \in Shape)
  ELSE LET cs == CharPoly(e.A) n == Rows(e.A) s == RAdd(1, NormM(e.A)) D == RDet(e.A)
       IN /\ Chk("characteristic polynomial", Len(e.c) = n + 1 /\ \A k \in 1..(n + 1) : Within(e.c[n + 2 - k], cs[k], RMul("1e-12", RPow(s, k))))
          /\ Chk("determinant", Within(e.det, D, RMul("1e-12", RPow(s, n))) /\ IsDet(e.A, e.det2))
          /\ Chk("inverse", REq(D, 0) \/ \A i \in 1..n : \A j \in 1..n : Within(RMatMul(e.A, e.X)[i][j], IF i = j THEN 1 ELSE 0, RMul(RMul("1e-12", RPow(s, n)), RDiv(1, RAbs(D)))))
Below(A, b) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : j < i - b => REq(A[i][j], 0)
\* integer entries: the default tolerance decides nothing
Pred(e) ==
  LET A == e.A sq == Square(A) IN
  /\ Chk("refusals", e.err = "")
  /\ Chk("structure", e.hess = Below(A, 1) /\ e.up = Below(A, 0) /\ e.lo = Below(Tr(A), 0) /\ e.dg = (Below(A, 0) /\ Below(Tr(A), 0)))
  /\ Chk("symmetry", e.sym = (sq /\ Symmetric(A)) /\ e.skew = (sq /\ \A i, j \in 1..Rows(A) : REq(A[i][j], RNeg(A[j][i]))))
  /\ Chk("norms", REq(e.n1, NormM(Tr(A))) /\ REq(e.ni, NormM(A)) /\ CloseRel(e.nf, NormF(A), 8))
  /\ Chk("nilpotent", IF sq THEN e.nil = (IF Nilpotent(A) THEN "T" ELSE "F") /\ e.uni = (IF Unipotent(A) THEN "T" ELSE "F") ELSE e.nil \in Shape /\ e.uni \in Shape)
  /\ Chk("trace", ~sq \/ REq(e.tr, TraceOf(A)))
  /\ Chk("transform", ~sq \/ MatREq(e.QAQ, RMatMul(RMatMul(Tr(e.Q), A), e.Q)))
Two(e) ==
  LET s == RMax(RMax(RAbs(e.m[1]), RAbs(e.m[2])), RMax(RAbs(e.m[3]), RAbs(e.m[4])))
      q == RAdd(RMul(RSub(e.m[1], e.m[4]), RSub(e.m[1], e.m[4])), RMul(4, RMul(e.m[2], e.m[3])))
      A == <<<<e.m[1], e.m[2]>>, <<e.m[3], e.m[4]>>>>
  IN /\ Chk("complex iff negative discriminant", RLe(RAbs(q), RMul("1e-14", RMul(s, s))) \/ e.cx = RLt(q, 0))
     /\ Chk("spectrum", Spectrum(A, <<<<e.z[1], e.z[2]>>, <<e.z[3], e.z[4]>>>>, T))
Ok(s, e) == CASE e.op = "sym" -> Sym(e) [] e.op = "gen" -> Gen(e) [] e.op = "hess" -> Hess(e) [] e.op = "sub" -> Sub(e)
              [] e.op = "def" -> Def(e) [] e.op = "fad" -> Fad(e) [] e.op = "pred" -> Pred(e) [] e.op = "two" -> Two(e)
Upd(s, e) == s
St0 == 0
INSTANCE TraceRun WITH Resume <- TRUE
=============================================================================
