------------------------------- MODULE PolyMC -------------------------------
(* Laws of polynomial algebra over small coefficients (PolyMC.cfg), and call   *)
(* sequences on three polynomials for the replay (PolyGen.cfg).                *)
EXTENDS Poly, TLC, Json
CONSTANTS Gen, MaxLen, D, CC
VARIABLES p, q, hist, pend
vars == <<p, q, hist, pend>>
Vals == IF CC = 1 THEN -1..1 ELSE -2..2
All == UNION {[1..n -> Vals] : n \in 0..D}
\* ----- laws -----
InitMC == p \in All /\ q \in All /\ hist = <<>> /\ pend = ""
NextMC == UNCHANGED vars
SpecMC == InitMC /\ [][NextMC]_vars
X == {-2, 1, 3}
Rs == <<p, q>>
Ring == /\ Same(Mul(p, q), Mul(q, p)) /\ Same(Sub(Add(p, q), q), p) /\ Same(Mul(p, Add(q, <<1, 1>>)), Add(Mul(p, q), Mul(p, <<1, 1>>)))
        /\ \A x \in X : REq(Eval(Mul(p, q), x), RMul(Eval(p, x), Eval(q, x))) /\ REq(Eval(Add(p, q), x), RAdd(Eval(p, x), Eval(q, x)))
        /\ (Deg(p) >= 0 /\ Deg(q) >= 0) => Deg(Mul(p, q)) = Deg(p) + Deg(q)
Calc == /\ Same(Deriv(Mul(p, q)), Add(Mul(Deriv(p), q), Mul(p, Deriv(q)))) /\ Same(Deriv(Integ(p)), p) /\ Same(Integ(Deriv(p)), AddC(p, RNeg(Co(p, 0))))
Euclid == Deg(q) >= 0 => LET r == DivMod(p, q) IN Same(Add(Mul(r[1], q), r[2]), p) /\ Deg(r[2]) < Deg(q) /\ (\A c \in X : Same(DivMod(Mul(p, <<c>>), Mul(q, <<c>>))[1], r[1]))
Interp == LET xs == [i \in 1..Len(p) |-> 2 * i - 3] ys == [i \in 1..Len(p) |-> Eval(p, xs[i])] IN Same(Through(xs, ys), p)
Zs == [i \in 1..Len(p) |-> <<p[i], Co(q, i - 1)>>]
Roots == LET f == FromRoots(<<2, 1>>, Zs) IN Len(f) = Len(p) + 1 /\ CAllRoots(f, Zs, 0) /\ \A i \in 1..Len(Zs) : REq(CNorm2(CEval(f, Zs[i])), 0)
\* a wrong multiplicity is noticed
Mult == LET f == FromRoots(<<1, 0>>, Zs) IN \A i \in 1..Len(Zs) : \A j \in 1..Len(Zs) : ~REq(CNorm2(CSub(Zs[i], Zs[j])), 0) => ~CAllRoots(f, [Zs EXCEPT ![i] = Zs[j]], "1e-6")
Laws == Ring /\ Calc /\ Euclid /\ Interp /\ Roots /\ Mult
\* ----- call sequences -----
S == 1..3
Cs == {<<>>, <<0>>, <<3>>, <<0, 0>>, <<1, 1>>, <<-2, 0, 1>>, <<2, -1, 0, 0>>, <<1, 2, 3, 4, 5>>, <<0, 0, 0, 2>>, <<-6, 11, -6, 1>>}
Cand(o) == CASE o = "set" -> {<<o, t>> \o c : t \in S, c \in Cs}
             [] o \in {"add", "sub", "mul"} -> {<<o, t, a, b>> : t \in S, a \in S, b \in S}
             [] o = "div" -> {<<o, t, a, b, d>> : t \in S, a \in S, b \in S, d \in S}
             [] o \in {"neg", "deriv", "integ", "copy"} -> {<<o, t, a>> : t \in S, a \in S}
             [] o \in {"smul", "sdiv", "sadd", "ssub", "rsub", "ladd", "lmul"} -> {<<o, t, a, c>> : t \in S, a \in S, c \in {-3, 2, 4}}
             [] o = "reduce" -> {<<o, t>> : t \in S}
             [] o = "degree" -> {<<o, t, n>> : t \in S, n \in {-1, 0, 2, 5}}
             [] o = "put" -> {<<o, t, i, v>> : t \in S, i \in 0..4, v \in {-1, 0, 7}}
             [] OTHER -> {<<o, a, x>> : a \in S, x \in {-2, 0, 1, 3}}
Ops == {"set", "add", "sub", "mul", "div", "neg", "deriv", "integ", "copy", "smul", "sdiv", "sadd", "ssub", "rsub", "ladd", "lmul", "reduce", "degree", "put", "eval"}
Init == p = <<>> /\ q = <<>> /\ hist = <<>> /\ pend = ""
Next == /\ Len(hist) < MaxLen /\ UNCHANGED <<p, q>>
        /\ IF pend = "" THEN pend' \in Ops /\ hist' = hist ELSE pend' = "" /\ \E e \in Cand(pend) : hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxLen => PrintT("SCRIPT|" \o ToJson(hist))
=============================================================================
