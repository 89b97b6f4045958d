----------------------------- MODULE SpectralMC -----------------------------
(* Similarity keeps the characteristic polynomial, congruence the inertia.     *)
(* Starting from diagonal and Jordan matrices with a known answer, all short   *)
(* sequences of elementary transformations; the exact operators must keep that  *)
(* answer and the acceptance relations must take it and refuse a perturbed one. *)
EXTENDS Spectral, TLC
CONSTANTS N, Vals, Steps
V3 == {-1, 0, 2}
V4 == {-2, -1, 0, 3}
VARIABLES A, D, X, k, sym
vars == <<A, D, X, k, sym>>
\* X keeps the transformation: A X = X D for similarity, A = X D Xt for congruence
Diags == {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN d[i] ELSE IF j = i + 1 /\ jb /\ d[i] = d[j] THEN 1 ELSE 0]] : d \in [1..N -> Vals], jb \in BOOLEAN}
Fix(M) == <<>> \o [i \in 1..Rows(M) |-> <<>> \o [j \in 1..Cols(M) |-> RKeep(M[i][j])]]
Elem(i, j, c) == [a \in 1..N |-> [b \in 1..N |-> IF a = b THEN 1 ELSE IF a = i /\ b = j THEN c ELSE 0]]
Init == /\ D \in Diags /\ A = Fix(D) /\ X = Fix(Id(N)) /\ k = 0 /\ sym \in BOOLEAN
        /\ (sym => Symmetric(D))
Similar(i, j, c) == LET E == Elem(i, j, c) IN A' = Fix(RMatMul(RMatMul(E, A), Elem(i, j, 0 - c))) /\ X' = Fix(RMatMul(E, X))
Congruent(i, j, c) == LET E == Elem(i, j, c) IN A' = Fix(RMatMul(RMatMul(E, A), Tr(E))) /\ X' = Fix(RMatMul(E, X))
Next == /\ k < Steps /\ k' = k + 1 /\ UNCHANGED <<D, sym>>
        /\ \E i, j \in 1..N : \E c \in {-1, 1, 2} : i # j /\ (IF sym THEN Congruent(i, j, c) ELSE Similar(i, j, c))
Spec == Init /\ [][Next]_vars
Dg == [i \in 1..N |-> <<D[i][i], 0>>]
Count(P(_)) == Cardinality({i \in 1..N : P(D[i][i])})
SamePoly == ~sym => SeqREq(CharPoly(A), CharPoly(D)) /\ \A x \in {-3, 1, 5} : REq(Horner(CharPoly(A), x), CharAt(A, x))
SameSums == ~sym => /\ Spectrum(A, Dg, "1e-13")
                    /\ ~Spectrum(A, [Dg EXCEPT ![1] = <<RAdd(@[1], "1/100000"), 0>>], "1e-13")
                    /\ (N > 1 /\ D[1][1] # D[2][2] => ~Spectrum(A, [Dg EXCEPT ![1] = Dg[2]], "1e-13"))
                    /\ (Nilpotent(A) = (\A i \in 1..N : D[i][i] = 0)) /\ (Unipotent(A) = (\A i \in 1..N : D[i][i] = 1))
SameInertia == sym => Inertia(A) = <<Count(LAMBDA x : x > 0), Count(LAMBDA x : x = 0), Count(LAMBDA x : x < 0)>> /\ (PosDef(A) = (Definiteness(A) = "PD"))
SameRank == RRank(A) = RRank(D)
\* an eigenvector of D for its first diagonal entry is e_1: X e_1 for A
Pairs == ~sym => LET v == Col(X, 1) n2 == SumSq(v) u == VScal(RDiv(1, RSqrt(n2)), v)
                 IN RealPair(A, u, D[1][1], "1e-13") /\ (D[1][1] # 0 \/ ~ZeroM(A) => ~RealPair(A, u, RAdd(D[1][1], "1/1000"), "1e-13"))
Inv == SamePoly /\ SameSums /\ SameInertia /\ SameRank /\ Pairs
=============================================================================
