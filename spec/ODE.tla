-------------------------------- MODULE ODE --------------------------------
(***************************************************************************)
(* Explicit integrators of x' = f(t, x).  One step of a Runge-Kutta method   *)
(* (a tableau: stage rows a, weights b, embedded weights e, nodes c, orders  *)
(* p and q), of velocity Verlet and of the extrapolated midpoint rule; the    *)
(* points an integration delivers.  fs is a sequence of expressions of        *)
(* (t, x_1, ..., x_n).                                                        *)
(***************************************************************************)
EXTENDS Expr, Integers, Sequences
Q(a, b) == RDiv(a, b)
R1(x) == RRnd(x, 140)
Euler == [a |-> <<<<>> >>, b |-> <<1>>, e |-> <<>>, c |-> <<0>>, p |-> 1, q |-> 0]
Heun == [a |-> <<<<>>, <<1>> >>, b |-> <<Q(1, 2), Q(1, 2)>>, e |-> <<1, 0>>, c |-> <<0, 1>>, p |-> 2, q |-> 1]
Mid == [a |-> <<<<>>, <<Q(1, 2)>> >>, b |-> <<0, 1>>, e |-> <<>>, c |-> <<0, Q(1, 2)>>, p |-> 2, q |-> 0]
RK4 == [a |-> <<<<>>, <<Q(1, 2)>>, <<0, Q(1, 2)>>, <<0, 0, 1>> >>, b |-> <<Q(1, 6), Q(1, 3), Q(1, 3), Q(1, 6)>>, e |-> <<>>, c |-> <<0, Q(1, 2), Q(1, 2), 1>>, p |-> 4, q |-> 0]
CK == [a |-> <<<<>>, <<Q("1", "5")>>,
  <<Q("3", "40"), Q("9", "40")>>,
  <<Q("3", "10"), Q("-9", "10"), Q("6", "5")>>,
  <<Q("-11", "54"), Q("5", "2"), Q("-70", "27"), Q("35", "27")>>,
  <<Q("1631", "55296"), Q("175", "512"), Q("575", "13824"), Q("44275", "110592"), Q("253", "4096")>> >>,
  b |-> <<Q("37", "378"), 0, Q("250", "621"), Q("125", "594"), 0, Q("512", "1771")>>,
  e |-> <<Q("2825", "27648"), 0, Q("18575", "48384"), Q("13525", "55296"), Q("277", "14336"), Q("1", "4")>>,
  c |-> <<0, Q("1", "5"), Q("3", "10"), Q("3", "5"), 1, Q("7", "8")>>, p |-> 5, q |-> 4]
DP5 == [a |-> <<<<>>, <<Q("1", "5")>>,
  <<Q("3", "40"), Q("9", "40")>>,
  <<Q("44", "45"), Q("-56", "15"), Q("32", "9")>>,
  <<Q("19372", "6561"), Q("-25360", "2187"), Q("64448", "6561"), Q("-212", "729")>>,
  <<Q("9017", "3168"), Q("-355", "33"), Q("46732", "5247"), Q("49", "176"), Q("-5103", "18656")>>,
  <<Q("35", "384"), 0, Q("500", "1113"), Q("125", "192"), Q("-2187", "6784"), Q("11", "84")>> >>,
  b |-> <<Q("35", "384"), 0, Q("500", "1113"), Q("125", "192"), Q("-2187", "6784"), Q("11", "84"), 0>>,
  e |-> <<Q("5179", "57600"), 0, Q("7571", "16695"), Q("393", "640"), Q("-92097", "339200"), Q("187", "2100"), Q("1", "40")>>,
  c |-> <<0, Q("1", "5"), Q("3", "10"), Q("4", "5"), Q("8", "9"), 1, 1>>, p |-> 5, q |-> 4]
DP8 == [a |-> <<<<>>, <<Q("1", "18")>>,
  <<Q("1", "48"), Q("1", "16")>>,
  <<Q("1", "32"), 0, Q("3", "32")>>,
  <<Q("5", "16"), 0, Q("-75", "64"), Q("75", "64")>>,
  <<Q("3", "80"), 0, 0, Q("3", "16"), Q("3", "20")>>,
  <<Q("29443841", "614563906"), 0, 0, Q("77736538", "692538347"), Q("-28693883", "1125000000"), Q("23124283", "1800000000")>>,
  <<Q("16016141", "946692911"), 0, 0, Q("61564180", "158732637"), Q("22789713", "633445777"), Q("545815736", "2771057229"), Q("-180193667", "1043307555")>>,
  <<Q("39632708", "573591083"), 0, 0, Q("-433636366", "683701615"), Q("-421739975", "2616292301"), Q("100302831", "723423059"), Q("790204164", "839813087"), Q("800635310", "3783071287")>>,
  <<Q("246121993", "1340847787"), 0, 0, Q("-37695042795", "15268766246"), Q("-309121744", "1061227803"), Q("-12992083", "490766935"), Q("6005943493", "2108947869"), Q("393006217", "1396673457"), Q("123872331", "1001029789")>>,
  <<Q("-1028468189", "846180014"), 0, 0, Q("8478235783", "508512852"), Q("1311729495", "1432422823"), Q("-10304129995", "1701304382"), Q("-48777925059", "3047939560"), Q("15336726248", "1032824649"), Q("-45442868181", "3398467696"), Q("3065993473", "597172653")>>,
  <<Q("185892177", "718116043"), 0, 0, Q("-3185094517", "667107341"), Q("-477755414", "1098053517"), Q("-703635378", "230739211"), Q("5731566787", "1027545527"), Q("5232866602", "850066563"), Q("-4093664535", "808688257"), Q("3962137247", "1805957418"), Q("65686358", "487910083")>>,
  <<Q("403863854", "491063109"), 0, 0, Q("-5068492393", "434740067"), Q("-411421997", "543043805"), Q("652783627", "914296604"), Q("11173962825", "925320556"), Q("-13158990841", "6184727034"), Q("3936647629", "1978049680"), Q("-160528059", "685178525"), Q("248638103", "1413531060"), 0>> >>,
  b |-> <<Q("14005451", "335480064"), 0, 0, 0, 0, Q("-59238493", "1068277825"), Q("181606767", "758867731"), Q("561292985", "797845732"), Q("-1041891430", "1371343529"), Q("760417239", "1151165299"), Q("118820643", "751138087"), Q("-528747749", "2220607170"), Q("1", "4")>>,
  e |-> <<Q("13451932", "455176623"), 0, 0, 0, 0, Q("-808719846", "976000145"), Q("1757004468", "5645159321"), Q("656045339", "265891186"), Q("-3867574721", "1518517206"), Q("465885868", "322736535"), Q("53011238", "667516719"), Q("2", "45"), 0>>,
  c |-> <<0, Q("1", "18"), Q("1", "12"), Q("1", "8"), Q("5", "16"), Q("3", "8"), Q("59", "400"), Q("93", "200"), Q("5490023248", "9719169821"), Q("13", "20"), Q("1201146811", "1299019798"), 1, 1>>, p |-> 8, q |-> 7]
RKs == {"euler", "heun", "mid", "rk4", "ck", "dp5", "dp8"}
Tab(m) == CASE m = "euler" -> Euler [] m = "heun" -> Heun [] m = "mid" -> Mid [] m = "rk4" -> RK4 [] m = "ck" -> CK [] m = "dp5" -> DP5 [] m = "dp8" -> DP8
(* ---------------- vectors ---------------- *)
F(fs, t, x) == LET v == <<t>> \o x IN <<>> \o [i \in DOMAIN fs |-> R1(Val(fs[i], v))]
RECURSIVE Comb(_, _, _, _)
\* sum over j >= k of w[j] * K[j][i]
Comb(w, K, i, k) == IF k > Len(w) THEN 0 ELSE IF REq(w[k], 0) THEN Comb(w, K, i, k + 1) ELSE RAdd(RMul(w[k], K[k][i]), Comb(w, K, i, k + 1))
Move(x, h, w, K) == <<>> \o [i \in DOMAIN x |-> R1(RAdd(x[i], RMul(h, Comb(w, K, i, 1))))]
RECURSIVE Stages(_, _, _, _, _, _)
Stages(T, fs, t, x, h, K) ==
  IF Len(K) = Len(T.b) THEN K
  ELSE LET s == Len(K) + 1 y == Move(x, h, T.a[s], K) k == F(fs, RAdd(t, RMul(T.c[s], h)), y) IN Stages(T, fs, t, x, h, Append(K, k))
Ks(T, fs, t, x, h) == Stages(T, fs, t, x, h, <<>>)
RKOut(T, x, h, K) == Move(x, h, T.b, K)
\* the embedded error estimate
RKErr(T, h, K) == <<>> \o [i \in DOMAIN K[1] |-> R1(RMul(h, RSub(Comb(T.b, K, i, 1), Comb(T.e, K, i, 1))))]
RECURSIVE MaxV(_, _)
MaxV(v, k) == IF k > Len(v) THEN 0 ELSE RMax(RAbs(v[k]), MaxV(v, k + 1))
RECURSIVE MaxK(_, _)
MaxK(K, k) == IF k > Len(K) THEN 0 ELSE RMax(MaxV(K[k], 1), MaxK(K, k + 1))
Size(x, h, K) == RAdd(MaxV(x, 1), RMul(20, RMul(RAbs(h), MaxK(K, 1))))
(* ------- positions and velocities, x'' = a(t, x): velocity Verlet and leapfrog are the same step ------- *)
Half(x, lo) == LET n == Len(x) \div 2 IN IF lo THEN SubSeq(x, 1, n) ELSE SubSeq(x, n + 1, 2 * n)
Verlet(fs, t, x, h) ==
  LET n == Len(x) \div 2 k == F(fs, t, x)
      p == <<>> \o [i \in 1..n |-> R1(RAdd(RAdd(x[i], RMul(h, x[n + i])), RMul(RDiv(RMul(h, h), 2), k[n + i])))]
      k2 == F(fs, RAdd(t, h), p \o SubSeq(x, n + 1, 2 * n))
  IN p \o [i \in 1..n |-> R1(RAdd(x[n + i], RMul(RDiv(h, 2), RAdd(k[n + i], k2[n + i]))))]
(* ---------------- extrapolated modified midpoint rule ---------------- *)
RECURSIVE MMid(_, _, _, _, _, _, _)
MMid(fs, t, hs, ym, yn, k, n) ==
  LET d == F(fs, RAdd(t, RMul(hs, k)), yn) IN
  IF k = n THEN <<>> \o [i \in DOMAIN yn |-> R1(RDiv(RAdd(RAdd(ym[i], yn[i]), RMul(hs, d[i])), 2))]
  ELSE MMid(fs, t, hs, yn, <<>> \o [i \in DOMAIN yn |-> R1(RAdd(ym[i], RMul(RMul(2, hs), d[i])))], k + 1, n)
MidN(fs, t, x, h, n) == LET hs == RDiv(h, n) d == F(fs, t, x) IN MMid(fs, t, hs, x, <<>> \o [i \in DOMAIN x |-> R1(RAdd(x[i], RMul(hs, d[i])))], 1, n)
NSeq(m) == IF m = "bs" THEN <<2, 4, 6, 8, 10, 12, 14, 16, 18>> ELSE <<2, 4, 6, 8, 12, 16, 24, 32, 48>>
\* Neville's row: T[k] from T[k-1] and the next estimate, in the squares of the step sizes
RECURSIVE Nev(_, _, _, _, _)
Nev(ns, row, cur, j, k) ==
  IF j > Len(row) THEN <<cur>>
  ELSE LET r == RDiv(ns[k] * ns[k], ns[k - j] * ns[k - j])
           nx == <<>> \o [i \in DOMAIN cur |-> R1(RAdd(cur[i], RDiv(RSub(cur[i], row[j][i]), RSub(r, 1))))] IN <<cur>> \o Nev(ns, row, nx, j + 1, k)
\* is out the extrapolation of the first k >= 2 members, for some k
RECURSIVE BSIs(_, _, _, _, _, _, _, _, _)
BSIs(ns, fs, t, x, h, row, k, out, tol) ==
  IF k > Len(ns) THEN FALSE
  ELSE LET r == Nev(ns, row, MidN(fs, t, x, h, ns[k]), 1, k) v == r[Len(r)] IN
       \/ (k >= 2 /\ \A i \in DOMAIN v : RLe(RAbs(RSub(v[i], out[i])), tol))
       \/ BSIs(ns, fs, t, x, h, r, k + 1, out, tol)
(* ---------------- the points an integration delivers ---------------- *)
Count(t0, te, dt) == LET r == RDiv(RSub(te, t0), dt) n == RFloor(RAdd(r, RDiv(1, 2)))
      w == RMul(RMul(2, Eps), RAdd(r, RDiv(RAdd(RAbs(t0), RAbs(te)), dt)))
      d == RAbs(RSub(r, n))
  \* a remainder of the size of the rounding of the arguments is no interval of its own
  IN (IF RGe(n, 1) /\ RLe(d, RMul(4, w)) THEN {RToInt(n) + 1} ELSE {}) \cup (IF RLt(n, 1) \/ RGt(d, w) THEN {IF RLe(r, n) THEN RToInt(n) + 1 ELSE RToInt(n) + 2} ELSE {})
OnGrid(t0, te, dt, ts) ==
  /\ Len(ts) \in Count(t0, te, dt)
  /\ REq(ts[1], t0) /\ REq(ts[Len(ts)], te)
  /\ \A k \in 1..Len(ts) - 1 : RLt(ts[k], ts[k + 1]) /\ RLe(RAbs(RSub(ts[k], RAdd(t0, RMul(dt, k - 1)))), RMul(RMul(Eps, k + 2), RAdd(RAbs(t0), RAbs(te))))
\* Hermite's cubic through both ends of a step
Hermite(x0, f0, x1, f1, h, s) ==
  LET s2 == RMul(s, s) s3 == RMul(s2, s)
      a == RAdd(RSub(RMul(2, s3), RMul(3, s2)), 1) b == RAdd(RSub(s3, RMul(2, s2)), s) c == RSub(RMul(3, s2), RMul(2, s3)) d == RSub(s3, s2)
  IN <<>> \o [i \in DOMAIN x0 |-> R1(RAdd(RAdd(RMul(a, x0[i]), RMul(RMul(b, h), f0[i])), RAdd(RMul(c, x1[i]), RMul(RMul(d, h), f1[i]))))]
=============================================================================
