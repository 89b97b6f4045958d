------------------------------- MODULE StatsMC -------------------------------
(* Paired samples over a small grid, grown one observation at a time; the       *)
(* definitions obey the laws of the statistics they name.                       *)
EXTENDS Stats, FiniteSets, TLC, Integers
CONSTANTS MaxN, Top
VARIABLES x, y
Init == x = <<>> /\ y = <<>>
Next == Len(x) < MaxN /\ \E a \in 0..Top, b \in 0..Top : x' = Append(x, a) /\ y' = Append(y, b)
Spec == Init /\ [][Next]_<<x, y>>
Swap(s, i, j) == [k \in Idx(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
Full == Len(x) >= 2
VarLaw == Full => REq(RMul(Var(x), RMul(N(x), N(x) - 1)), RSum([i \in Idx(x) |-> RDiv(RSum([j \in Idx(x) |-> RPow(RSub(x[i], x[j]), 2)]), 2)]))
VarZero == Full => (REq(Var(x), 0) <=> Constant(x))
CovLaw == Full => /\ REq(Cov(x, x), Var(x)) /\ REq(Cov(x, y), Cov(y, x))
                  /\ RLe(RPow(Cov(x, y), 2), RMul(Var(x), Var(y)))
Order == N(x) >= 1 => /\ RLe(Least(x), Median(x)) /\ RLe(Median(x), Most(x))
                      /\ REq(Percentile(x, 50), Median(x)) /\ REq(Percentile(x, 0), Least(x)) /\ REq(Percentile(x, 100), Most(x))
                      /\ \A p \in {10, 25, 40, 60, 75, 90} : RLe(Percentile(x, p - 10), Percentile(x, p))
                      /\ REq(Trimmed(x, 0), Mean(x)) /\ RLe(Least(x), Trimmed(x, 40)) /\ RLe(Trimmed(x, 40), Most(x))
                      /\ REq(RSum(Sorted(x)), RSum(x)) /\ RLe(0, MAD(x))
RankLaw == N(x) >= 1 => /\ REq(RSum(Ranks(x)), RDiv(N(x) * (N(x) + 1), 2))
                        /\ \A i, j \in Idx(x) : RLt(x[i], x[j]) <=> RLt(Ranks(x)[i], Ranks(x)[j])
KenLaw == Full => /\ KNum(x, y) = KNum(y, x) /\ KNum(x, y) * KNum(x, y) <= KDen2(x, y)
                  /\ KNum(x, x) = KAll(x) - KTie(x) /\ KNum(x, [i \in Idx(x) |-> Top - y[i]]) = 0 - KNum(x, y)
\* the order of the observations does not matter (pairs are moved together)
Symmetric == \A i, j \in Idx(x) : i < j =>
    LET u == Swap(x, i, j) v == Swap(y, i, j)
    IN /\ REq(Mean(u), Mean(x)) /\ REq(Median(u), Median(x)) /\ REq(Mode(u), Mode(x)) /\ REq(Percentile(u, 30), Percentile(x, 30))
       /\ (Full => REq(Cov(u, v), Cov(x, y))) /\ KNum(u, v) = KNum(x, y) /\ Ranks(u) = Swap(Ranks(x), i, j)
WLaw == Full => LET w == [i \in Idx(x) |-> 1] IN REq(WMean(x, w), Mean(x)) /\ REq(WVar(x, w), Var(x))
ModeLaw == N(x) >= 1 => \A i \in Idx(x) : Equal(x, x[i]) <= Equal(x, Mode(x)) /\ (Equal(x, x[i]) = Equal(x, Mode(x)) => RLe(Mode(x), x[i]))
=============================================================================
