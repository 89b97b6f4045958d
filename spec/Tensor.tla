------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* A tensor is [n, up, c]: dimension n, the variance of each position       *)
(* (TRUE for an upper index) and the components, row-major, one for every   *)
(* tuple of indices 0..n-1.                                                 *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets
Rank(t) == Len(t.up)
Pow(n, k) == LET RECURSIVE P(_) P(m) == IF m = 0 THEN 1 ELSE n * P(m - 1) IN P(k)
\* the position of component ix
Flat(n, ix) == LET RECURSIVE F(_) F(m) == IF m = 0 THEN 0 ELSE n * F(m - 1) + ix[m] IN F(Len(ix)) + 1
\* the index tuple of component number p
Index(n, k, p) == <<>> \o [m \in 1..k |-> ((p - 1) \div Pow(n, k - m)) % n]
Good(n, ix) == \A m \in 1..Len(ix) : ix[m] >= 0 /\ ix[m] < n
Ups(t) == Cardinality({m \in 1..Rank(t) : t.up[m]})
\* lower positions first
Kind(lo, hi) == [m \in 1..(lo + hi) |-> m > lo]
New(n, lo, hi, vals) == [n |-> n, up |-> Kind(lo, hi), c |-> [p \in 1..Pow(n, lo + hi) |-> IF p <= Len(vals) THEN vals[p] ELSE 0]]
At(t, ix) == t.c[Flat(t.n, ix)]
Put(t, ix, v) == [t EXCEPT !.c[Flat(t.n, ix)] = v]
Same(t, u) == t.n = u.n /\ t.up = u.up
Sum(t, u) == [t EXCEPT !.c = [p \in 1..Len(t.c) |-> RAdd(t.c[p], u.c[p])]]
Diff(t, u) == [t EXCEPT !.c = [p \in 1..Len(t.c) |-> RSub(t.c[p], u.c[p])]]
Scale(t, s) == [t EXCEPT !.c = [p \in 1..Len(t.c) |-> RMul(s, t.c[p])]]
\* the tuple ix with i put in at positions a < b, which ix lacks
Insert2(ix, a, b, i) == <<>> \o [m \in 1..(Len(ix) + 2) |-> IF m = a \/ m = b THEN i ELSE ix[IF m < a THEN m ELSE IF m < b THEN m - 1 ELSE m - 2]]
Rest(s, a, b) == <<>> \o [m \in 1..(Len(s) - 2) |-> s[IF m < a THEN m ELSE IF m + 1 < b THEN m + 1 ELSE m + 2]]
\* sum over equal values of positions a # b (from 1)
Contract(t, a, b) ==
  LET lo == IF a < b THEN a ELSE b hi == IF a < b THEN b ELSE a
  IN [n |-> t.n, up |-> Rest(t.up, lo, hi),
      c |-> <<>> \o [p \in 1..Pow(t.n, Rank(t) - 2) |-> RSum([i \in 1..t.n |-> At(t, Insert2(Index(t.n, Rank(t) - 2, p), lo, hi, i - 1))])]]
\* the full multilinear sum
Prod(vs, ix) == LET RECURSIVE P(_) P(m) == IF m = 0 THEN 1 ELSE RMul(P(m - 1), vs[m][ix[m] + 1]) IN P(Len(ix))
Eval(t, vs) == RSum([p \in 1..Len(t.c) |-> RMul(t.c[p], Prod(vs, Index(t.n, Rank(t), p)))])
EvalSize(t, vs) == RSumAbs([p \in 1..Len(t.c) |-> RMul(t.c[p], Prod(vs, Index(t.n, Rank(t), p)))])
\* multiply position m by the matrix g
Move(t, g, m) ==
  [t EXCEPT !.up[m] = ~@,
            !.c = <<>> \o [p \in 1..Len(t.c) |-> LET ix == Index(t.n, Rank(t), p)
                                           IN RSum([k \in 1..t.n |-> RMul(g[ix[m] + 1][k], At(t, [ix EXCEPT ![m] = k - 1]))])]]
Minor(A, r, c) == LET n == Len(A) IN [i \in 1..(n-1) |-> [j \in 1..(n-1) |-> A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
Inv(A) == LET n == Len(A) d == RDet(A) IN <<>> \o [i \in 1..n |-> <<>> \o [j \in 1..n |-> RMul(IF (i + j) % 2 = 0 THEN 1 ELSE -1, RDiv(RDet(Minor(A, j, i)), d))]]
SameC(s, t) == SeqREq(s, t)
=============================================================================
