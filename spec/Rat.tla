-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact arithmetic for the other modules.  Every operator has its ordinary *)
(* meaning over the reals; TLC evaluates them with unbounded rationals      *)
(* (java/tlc2/module/Rat.java), because TLC's own integers are 32 bit.      *)
(* An argument may be an integer, an earlier result, or a string holding a  *)
(* decimal number, a fraction "p/q" or a C hexadecimal floating constant,   *)
(* which is how the harnesses write IEEE doubles without any loss.  "nan",  *)
(* "inf" and undefined results are not reals: arithmetic on them is not a   *)
(* real, and every comparison with them is FALSE.                           *)
(***************************************************************************)
EXTENDS Reals, Sequences

RatOf(a) == IF a \in Real THEN a ELSE CHOOSE x : x \notin Real  \* a string denotes its real
RIsNum(a) == a \in Real

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a / b                     \* not a real when b = 0
RNeg(a) == 0 - a
RAbs(a) == IF a < 0 THEN 0 - a ELSE a
RLt(a, b) == a \in Real /\ b \in Real /\ a < b
RLe(a, b) == a \in Real /\ b \in Real /\ a <= b
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
REq(a, b) == a \in Real /\ b \in Real /\ a = b
RMax(a, b) == IF a >= b THEN a ELSE b
RMin(a, b) == IF a <= b THEN a ELSE b
RSgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN 0 - 1 ELSE 0
RPow(a, k) == a ^ k
RFloor(a) == CHOOSE i \in Int : i <= a /\ a < i + 1
RToInt(a) == RFloor(a)                  \* as a TLC integer
RIsInt(a) == a \in Int
\* a with all but the k leading binary digits dropped
RRnd(a, k) == CHOOSE r \in Real : RAbs(r) <= RAbs(a) /\ RAbs(r - a) * (2 ^ (k - 1)) <= RAbs(a)

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + RSum(Tail(s))
RECURSIVE RSumAbs(_)
RSumAbs(s) == IF s = <<>> THEN 0 ELSE RAbs(Head(s)) + RSumAbs(Tail(s))
RECURSIVE RMaxAbs(_)
RMaxAbs(s) == IF s = <<>> THEN 0 ELSE RMax(RAbs(Head(s)), RMaxAbs(Tail(s)))
RDot(s, t) == RSum([i \in 1..Len(s) |-> s[i] * t[i]])
RMatVec(A, x) == [i \in 1..Len(A) |-> RDot(A[i], x)]
RMatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..(IF B = <<>> THEN 0 ELSE Len(B[1])) |-> RSum([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]]

\* Laplace expansion along the first column
RECURSIVE RDet(_)
RDet(A) ==
  IF Len(A) = 0 THEN 1
  ELSE LET n == Len(A)
           Minor(i) == [r \in 1..(n-1) |-> [c \in 1..(n-1) |-> A[IF r < i THEN r ELSE r + 1][c + 1]]]
       IN RSum([i \in 1..n |-> (IF i % 2 = 1 THEN 1 ELSE 0 - 1) * A[i][1] * RDet(Minor(i))])
\* order of the largest non-vanishing minor
RRank(A) ==
  LET rows == Len(A)
      cols == IF rows = 0 THEN 0 ELSE Len(A[1])
      Sub(f, g, k) == [i \in 1..k |-> [j \in 1..k |-> A[f[i]][g[j]]]]
      Inc(k, m) == {f \in [1..k -> 1..m] : \A i \in 1..(k-1) : f[i] < f[i + 1]}
  IN CHOOSE r \in 0..rows :
       /\ r = 0 \/ \E f \in Inc(r, rows), g \in Inc(r, cols) : RDet(Sub(f, g, r)) # 0
       /\ \A k \in (r+1)..rows : \A f \in Inc(k, rows), g \in Inc(k, cols) : RDet(Sub(f, g, k)) = 0

(* Elementary functions, to an absolute error below 2^-180 max(1, |f|). *)
Near(f, r) == RAbs(f - r) * 2^180 <= RMax(1, RAbs(f))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RSqrt(a) == CHOOSE r \in Real : r >= 0 /\ Near(r * r, a)
RExp(a) == CHOOSE r \in Real : \E n \in Nat : \A m \in Nat : m > n =>
              Near(RSum([i \in 1..m |-> a ^ (i-1) / Fact(i-1)]), r)
RLn(a) == CHOOSE r \in Real : RExp(r) = a
RSin(a) == CHOOSE r \in Real : \E n \in Nat : \A m \in Nat : m > n =>
              Near(RSum([i \in 1..m |-> (IF i % 2 = 1 THEN 1 ELSE 0 - 1) * (a ^ (2*i-1) / Fact(2*i-1))]), r)
RCos(a) == CHOOSE r \in Real : \E n \in Nat : \A m \in Nat : m > n =>
              Near(RSum([i \in 1..m |-> (IF i % 2 = 1 THEN 1 ELSE 0 - 1) * (a ^ (2*i-2) / Fact(2*i-2))]), r)
RPi == CHOOSE r \in Real : r > 3 /\ r < 4 /\ RSin(r) = 0
RAtan(a) == CHOOSE r \in Real : 0 - RPi / 2 < r /\ r < RPi / 2 /\ RSin(r) = a * RCos(r)
RKeep(a) == a                           \* in a form that can be stored in a state
RToStr(a) == a                          \* decimal text, for messages

(* ----- derived notions used by many specifications ----- *)
\* |a - b| <= k ulp-ish of scale s : k * 2^-52 * s
Eps == RDiv(1, RPow(2, 52))
Close(a, b, k, s) == RLe(RAbs(RSub(a, b)), RMul(RMul(k, Eps), s))
\* relative closeness with a floor of one unit
CloseRel(a, b, k) == Close(a, b, k, RMax(RAbs(a), RAbs(b)))
Within(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
SeqREq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : REq(s[i], t[i])
MatREq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : SeqREq(A[i], B[i])
AllNum(s) == \A i \in 1..Len(s) : RIsNum(s[i])
=============================================================================
