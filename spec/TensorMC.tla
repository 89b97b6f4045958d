------------------------------ MODULE TensorMC ------------------------------
(* Laws of the tensor operations, over small tensors: writing and reading     *)
(* address one component, contraction is linear, symmetric in the pair and    *)
(* independent of the order of two disjoint pairs, evaluation is multilinear, *)
(* moving an index there and back is the identity.                            *)
EXTENDS Tensor, TLC
CONSTANTS Max
VARIABLES t, u
vars == <<t, u>>
V == {0, 1, -2}
N == 2
Zero(k) == New(N, k, 0, <<>>)
Vary(k) == {[x EXCEPT !.up = f] : x \in {Zero(k)}, f \in [1..k -> BOOLEAN]}
Init == t \in UNION {Vary(k) : k \in 2..Max} /\ u = [t EXCEPT !.c = [p \in 1..Len(t.c) |-> IF p % 3 = 1 THEN p ELSE -1]]
\* at most three components differ from zero
Next == /\ Cardinality({p \in 1..Len(t.c) : t.c[p] # 0}) < 3
        /\ \E p \in 1..Len(t.c), v \in V : t.c[p] = 0 /\ v # 0 /\ t' = Put(t, Index(N, Rank(t), p), v)
        /\ u' = u
Spec == Init /\ [][Next]_vars
Addr == \A p \in 1..Len(t.c) : LET ix == Index(N, Rank(t), p) IN Good(N, ix) /\ Flat(N, ix) = p /\ At(Put(t, ix, 7), ix) = 7 /\ \A q \in 1..Len(t.c) : q # p => Put(t, ix, 7).c[q] = t.c[q]
Pairs == {<<a, b>> \in (1..Rank(t)) \X (1..Rank(t)) : a < b}
Linear == \A ab \in Pairs : LET C(x) == Contract(x, ab[1], ab[2]) IN
   /\ SameC(C(Sum(t, u)).c, Sum(C(t), C(u)).c) /\ SameC(C(Scale(t, 3)).c, Scale(C(t), 3).c) /\ SameC(Contract(t, ab[2], ab[1]).c, C(t).c) /\ Len(C(t).up) = Rank(t) - 2
   /\ Ups(C(t)) = Ups(t) - Cardinality({m \in {ab[1], ab[2]} : t.up[m]})
Orders == Rank(t) = 4 => SameC(Contract(Contract(t, 1, 2), 1, 2).c, Contract(Contract(t, 3, 4), 1, 2).c) /\ SameC(Contract(Contract(t, 1, 3), 1, 2).c, Contract(Contract(t, 2, 4), 1, 2).c)
E(i) == [m \in 1..N |-> IF m = i + 1 THEN 1 ELSE 0]
Multi == /\ \A p \in 1..Len(t.c) : LET ix == Index(N, Rank(t), p) IN REq(Eval(t, [m \in 1..Rank(t) |-> E(ix[m])]), t.c[p])
         /\ LET vs == [m \in 1..Rank(t) |-> <<m, -1>>] ws == [vs EXCEPT ![1] = <<5, 2>>] xs == [vs EXCEPT ![1] = <<6, 1>>]
            IN REq(RAdd(Eval(t, vs), Eval(t, ws)), Eval(t, xs)) /\ REq(Eval(Sum(t, u), vs), RAdd(Eval(t, vs), Eval(u, vs)))
G == <<<<2, 1>>, <<1, 3>>>>
Moves == \A m \in 1..Rank(t) : SameC(Move(Move(t, G, m), Inv(G), m).c, t.c) /\ Move(t, G, m).up[m] # t.up[m]
\* a contraction of a lowered index equals the pairing through the metric
Laws == Addr /\ Linear /\ Orders /\ Multi /\ Moves /\ SameC(Diff(Sum(t, u), u).c, t.c)
=============================================================================
