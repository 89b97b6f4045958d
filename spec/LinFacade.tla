----------------------------- MODULE LinFacade -----------------------------
(***************************************************************************)
(* One object holding a system A x = b that answers many questions.  The    *)
(* answers are functions of the system and of the arguments of the question *)
(* alone; an object may remember answers, and remembering must not show.    *)
(* The state of an object is the system it holds; questions do not change   *)
(* it, assignment replaces it.                                              *)
(***************************************************************************)
EXTENDS Spectral
SymTol(A, t) == Rows(A) = Cols(A) /\ \A i, j \in 1..Rows(A) : RLe(RAbs(RSub(A[i][j], A[j][i])), t)
SymPart(A) == [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> RDiv(RAdd(A[i][j], A[j][i]), 2)]]
UpperTol(A, t) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : j < i => RLe(RAbs(A[i][j]), t)
LowerTol(A, t) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : j > i => RLe(RAbs(A[i][j]), t)
Dominant(A) == Rows(A) = Cols(A) /\ \A i \in 1..Rows(A) : RGt(RMul(2, RAbs(A[i][i])), RSumAbs(A[i]))
ZerosUpTo(A, t) == Cardinality({p \in (1..Rows(A)) \X (1..Cols(A)) : RLe(RAbs(A[p[1]][p[2]]), t)})
RankAt(w, t) == Cardinality({i \in 1..Len(w) : RGt(w[i], t)})
\* no singular value is near the threshold
CrispAt(w, t) == \A i \in 1..Len(w) : ~Within(w[i], t, RMul("1e-12", RAdd(w[1], t)))
InfNorm(A) == NormM(A)
OneNormOf(A) == NormM(Tr(A))
Stability(c) == IF RGe(c, "1e12") THEN "Singular" ELSE IF RGe(c, "1e8") THEN "Ill" ELSE IF RGe(c, "1e4") THEN "Moderate" ELSE "Well"
\* decimal digits lost: 10^d <= cond < 10^(d+1)
Digits(d, c) == RLe(RPow(10, d), c) /\ RLt(c, RPow(10, d + 1))
\* row i of L U is row p[i] of A
PLU(A, p, L, U) ==
  LET n == Rows(A) IN
  /\ Len(p) = n /\ {p[i] : i \in 1..n} = 1..n
  /\ LowerTri(L) /\ UpperTri(U) /\ \A i \in 1..n : REq(L[i][i], 1)
  /\ SameM(RMatMul(L, U), [i \in 1..n |-> A[p[i]]], RMul(10, NormM(A)))
\* what is remembered: answers together with the question they answer
NoMemo == {}
Recall(memo, q) == CHOOSE m \in memo : m.q = q
Knows(memo, q) == \E m \in memo : m.q = q
=============================================================================
