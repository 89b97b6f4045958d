-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* C26: what the descriptive and rank statistics, confidence intervals and  *)
(* tests of a sample are.  A sample is a sequence of reals; everything      *)
(* below is the textbook definition over exact reals.                       *)
(***************************************************************************)
EXTENDS Rat, Naturals, FiniteSets
N(x) == Len(x)
R0 == 0
Idx(x) == 1..Len(x)
Constant(x) == \A i \in Idx(x) : REq(x[i], x[1])
Mean(x) == RDiv(RSum(x), N(x))
Dev(x) == LET m == RKeep(Mean(x)) IN [i \in Idx(x) |-> RSub(x[i], m)]
PowSum(x, k) == LET d == Dev(x) IN RSum([i \in Idx(x) |-> RPow(d[i], k)])
AbsPowSum(x, k) == LET d == Dev(x) IN RSum([i \in Idx(x) |-> RPow(RAbs(d[i]), k)])
Var(x) == RDiv(PowSum(x, 2), N(x) - 1)
Cov(x, y) == LET a == Dev(x) b == Dev(y) IN RDiv(RDot(a, b), N(x) - 1)
AbsCov(x, y) == LET a == Dev(x) b == Dev(y) IN RDiv(RSum([i \in Idx(x) |-> RAbs(RMul(a[i], b[i]))]), N(x) - 1)
Below(x, v) == Cardinality({i \in Idx(x) : RLt(x[i], v)})
Equal(x, v) == Cardinality({i \in Idx(x) : REq(x[i], v)})
\* the k-th smallest observation
Ord(x, k) == x[CHOOSE i \in Idx(x) : Below(x, x[i]) < k /\ k <= Below(x, x[i]) + Equal(x, x[i])]
Sorted(x) == <<>> \o [k \in Idx(x) |-> Ord(x, k)]
Median(x) == IF N(x) % 2 = 1 THEN Ord(x, (N(x) + 1) \div 2) ELSE RDiv(RAdd(Ord(x, N(x) \div 2), Ord(x, N(x) \div 2 + 1)), 2)
\* linear interpolation between the order statistics at position p/100 (n-1)
Percentile(x, p) ==
  LET pos == RMul(RDiv(p, 100), N(x) - 1)
      k == RToInt(pos)
      f == RSub(pos, k)
  IN IF REq(f, 0) THEN Ord(x, k + 1) ELSE RAdd(Ord(x, k + 1), RMul(f, RSub(Ord(x, k + 2), Ord(x, k + 1))))
Least(x) == Ord(x, 1)
Most(x) == Ord(x, N(x))
\* the smallest among the most frequent values
Mode(x) == LET c(i) == Equal(x, x[i])
               T == {i \in Idx(x) : \A j \in Idx(x) : c(j) <= c(i)}
           IN x[CHOOSE i \in T : \A j \in T : RLe(x[i], x[j])]
TrimmedBy(x, k) == LET s == Sorted(x) IN RDiv(RSum([i \in 1..(N(x) - 2 * k) |-> s[i + k]]), N(x) - 2 * k)
TrimCount(x, p) == RToInt(RDiv(RMul(N(x), p), 100))
Trimmed(x, p) == TrimmedBy(x, TrimCount(x, p))
MAD(x) == LET m == RKeep(Median(x)) IN Median(<<>> \o [i \in Idx(x) |-> RKeep(RAbs(RSub(x[i], m)))])
Harmonic(x) == RDiv(N(x), RSum([i \in Idx(x) |-> RDiv(1, x[i])]))
WMean(x, w) == RDiv(RDot(x, w), RSum(w))
WVar(x, w) == LET m == RKeep(WMean(x, w)) IN RDiv(RSum([i \in Idx(x) |-> RMul(w[i], RPow(RSub(x[i], m), 2))]), RSub(RSum(w), 1))
\* average ranks
Rank(x, i) == RAdd(Below(x, x[i]), RDiv(Equal(x, x[i]) + 1, 2))
Ranks(x) == <<>> \o [i \in Idx(x) |-> RKeep(Rank(x, i))]
Pairs(x) == {<<i, j>> \in Idx(x) \X Idx(x) : i < j}
KCon(x, y) == Cardinality({p \in Pairs(x) : (RLt(x[p[1]], x[p[2]]) /\ RLt(y[p[1]], y[p[2]])) \/ (RGt(x[p[1]], x[p[2]]) /\ RGt(y[p[1]], y[p[2]]))})
KDis(x, y) == Cardinality({p \in Pairs(x) : (RLt(x[p[1]], x[p[2]]) /\ RGt(y[p[1]], y[p[2]])) \/ (RGt(x[p[1]], x[p[2]]) /\ RLt(y[p[1]], y[p[2]]))})
KTie(x) == Cardinality({p \in Pairs(x) : REq(x[p[1]], x[p[2]])})
KAll(x) == Cardinality(Pairs(x))
\* Kendall's tau-b: its numerator, and the square of its denominator
KNum(x, y) == KCon(x, y) - KDis(x, y)
KDen2(x, y) == (KAll(x) - KTie(x)) * (KAll(y) - KTie(y))

(* ---- errors a floating-point evaluation may make ---- *)
\* t is allowed to differ from v by k n ulps of the scale s
Near26(t, v, n, s) == RIsNum(t) /\ Close(t, v, 16 * (n + 2), s)
Sd(x) == RSqrt(Var(x))
Size(x) == RMaxAbs(x)
VarSlack(x) == RAdd(Var(x), RAdd(RMul(Sd(x), Size(x)), RMul(Eps, RPow(Size(x), 2))))
\* how much the deviations of x suffer from the rounding of its mean
Cond(x) == RAdd(1, RDiv(Size(x), Sd(x)))

MeanOk(x, t) == Near26(t, Mean(x), N(x), Size(x))
VarOk(x, t) == Near26(t, Var(x), N(x), VarSlack(x)) /\ RGe(t, 0)
SdOk(x, t) == RGe(t, 0) /\ Near26(RMul(t, t), Var(x), N(x), VarSlack(x))
CovOk(x, y, t) == Near26(t, Cov(x, y), N(x), RAdd(AbsCov(x, y), RAdd(RAdd(RMul(Sd(x), Size(y)), RMul(Sd(y), Size(x))), RMul(Eps, RMul(Size(x), Size(y))))))
CorOk(x, y, t) == /\ RLe(RAbs(t), "1.000001")
                  /\ Near26(t, RDiv(Cov(x, y), RSqrt(RMul(Var(x), Var(y)))), N(x), RAdd(Cond(x), Cond(y)))
GeoOk(x, t) == LET L == RAdd(1, RMaxAbs([i \in Idx(x) |-> RLn(x[i])]))
               IN RGt(t, 0) /\ Near26(RMul(N(x), RLn(t)), RSum([i \in Idx(x) |-> RLn(x[i])]), N(x), RMul(N(x), L))
KenOk(x, y, t) == RLe(RAbs(t), "1.000001") /\ LET q == RSqrt(KDen2(x, y)) IN Close(RMul(t, q), KNum(x, y), 16, q)
\* Cond-limited statistics: too ill-conditioned to say anything when the spread is lost in rounding
Lost(x) == RGt(RMul(Cond(x), RMul(Eps, 1000 * N(x))), 1)
=============================================================================
