---------------------------- MODULE EventsTrace ----------------------------
(* Validates integrations with events against the exact solution of the system between restarts. *)
EXTENDS Events, TraceFile, FiniteSets
VARIABLES h, l, st, dead
Kick(e, k) == Has(e, "acts") /\ e.acts[e.evs[k].i + 1] = "restart"
Min2(a, b) == IF RLt(a, b) THEN a ELSE b
\* the segments between restarts: <<first event, last event, start time, start state, end time>>
RECURSIVE Segs(_, _, _, _, _, _)
Segs(e, k, j, nh, ts, xs) ==      \* k: first event of the segment, j: event looked at, nh: restarts so far
  IF j > Len(e.evs) THEN <<[a |-> k, b |-> j - 1, ts |-> ts, xs |-> xs, te |-> e.ft]>>
  ELSE IF Kick(e, j) THEN <<[a |-> k, b |-> j, ts |-> ts, xs |-> xs, te |-> e.evs[j].t]>> \o Segs(e, j + 1, j + 1, nh + 1, e.evs[j].t, e.han[nh + 1].y)
  ELSE Segs(e, k, j + 1, nh, ts, xs)
Kicks(e) == LET RECURSIVE Cnt(_) Cnt(k) == IF k = 0 THEN 0 ELSE Cnt(k - 1) + (IF Kick(e, k) THEN 1 ELSE 0) IN Cnt(Len(e.evs))
NthKick(e, n) == CHOOSE k \in DOMAIN e.evs : Kick(e, k) /\ Cardinality({m \in 1..k : Kick(e, m)}) = n
Handled(e) ==
  /\ Chk("the handler runs once for every restart", Len(e.han) = Kicks(e))
  /\ \A n \in DOMAIN e.han : LET v == e.evs[NthKick(e, n)] k == e.han[n] IN
       /\ Chk("the handler gets the event", k.i = v.i /\ REq(k.t, v.t) /\ SeqREq(k.x, v.x))
       /\ Chk("the handler's state", \A c \in DOMAIN k.y : IsVal(e.hs[v.i + 1][c], <<v.t>> \o v.x, k.y[c]))
Big(v) == RAdd(1, RMaxAbs(v))
\* samples of event function i along a segment, half an output interval apart, two intervals beyond its end
Samples(e, s, i) == LET d == RDiv(e.dt, 2) n == RToInt(RFloor(RDiv(RSub(s.te, s.ts), d))) + 4 IN
   <<>> \o [k \in 1..(n + 1) |-> LET tau == RMul(d, k - 1) t == RAdd(s.ts, tau) g == G(e.gs[i], t, Flow(e.sol, s.xs, tau)) IN [t |-> t, g |-> RRnd(g, 140)]]
SgOf(g, band) == IF RLe(RAbs(g), band) THEN 0 ELSE RSgn(g)
\* two crossings that close, or a dip that close to zero, that the samples cannot tell
Doubtful(q, band) ==
  LET sg == <<>> \o [k \in DOMAIN q |-> SgOf(q[k].g, band)] C == CrossingsAt(sg) IN
  \/ RLe(RMaxAbs(<<>> \o [k \in DOMAIN q |-> q[k].g]), RMul(20, band))
  \/ \E k \in C : \E m \in C : k < m /\ m - k < 5
  \/ \E k \in 2..(Len(q) - 1) : LET a == q[k - 1].g b == q[k].g c == q[k + 1].g dd == RAbs(RAdd(RSub(a, RMul(2, b)), c)) IN
       RLe(RAbs(b), RAdd(RMul(2, dd), band)) /\ RSgn(a) = RSgn(c) /\ RGe(RMul(RSub(a, b), RSub(c, b)), 0) /\ RLe(RAbs(b), RMin(RAbs(a), RAbs(c)))
RECURSIVE Match(_, _, _, _, _)
\* the recorded times rs of one event against the sampled crossings cs, in order
Match(rs, cs, te, dt, k) ==
  IF k > Len(cs) THEN Len(rs) < k
  ELSE IF k > Len(rs) THEN RGt(cs[k].b, RSub(te, dt))          \* only crossings at or beyond the end may be missing
  ELSE RGe(rs[k], RSub(cs[k].a, RDiv(dt, 2))) /\ RLe(rs[k], RAdd(cs[k].b, RDiv(dt, 2))) /\ Match(rs, cs, te, dt, k + 1)
Counted(e, s, i, first) ==
  LET q == Samples(e, s, i) band == RMul(e.slack, RMul(e.lip, Big(s.xs))) IN
  IF Doubtful(q, band) \/ (RLe(RAbs(q[1].g), band) /\ ~(first /\ REq(q[1].g, 0)) /\ ~(s.a > 1 /\ ~first /\ e.evs[s.a - 1].i = i - 1)) THEN TRUE
  ELSE LET sg == <<>> \o [k \in DOMAIN q |-> SgOf(q[k].g, band)]
           C == {k \in CrossingsAt(sg) : Wanted(e.dirs[i], sg[k])}
           Prev(k) == CHOOSE j \in 1..(k - 1) : sg[j] # 0 /\ \A m \in (j + 1)..(k - 1) : sg[m] = 0
           RECURSIVE Lst(_) Lst(k) == IF k > Len(q) THEN <<>> ELSE (IF k \in C THEN <<[a |-> q[Prev(k)].t, b |-> q[k].t]>> ELSE <<>>) \o Lst(k + 1)
           RECURSIVE Rec(_) Rec(k) == IF k > s.b THEN <<>> ELSE (IF e.evs[k].i = i - 1 THEN <<e.evs[k].t>> ELSE <<>>) \o Rec(k + 1)
       IN Match(Rec(s.a), Lst(1), s.te, e.dt, 1)
Event(e, s, k) ==
  LET v == e.evs[k] i == v.i + 1 tau == RSub(v.t, s.ts) x == Flow(e.sol, s.xs, tau) sl == RMul(e.slack, Big(x)) eta == RDiv(e.dt, 8)
      g0 == G(e.gs[i], RSub(v.t, eta), Flow(e.sol, s.xs, RSub(tau, eta))) g1 == G(e.gs[i], RAdd(v.t, eta), Flow(e.sol, s.xs, RAdd(tau, eta)))
  IN /\ Chk("the state at the event", \A c \in DOMAIN x : RIsNum(v.x[c]) /\ RLe(RAbs(RSub(v.x[c], x[c])), sl))
     /\ Chk("the event value is the function there", IsVal(e.gs[i], <<v.t>> \o v.x, v.g))
     /\ Chk("zero to tolerance", RLe(RAbs(v.g), RAdd(RMul(RMul(e.tol, 4), RAdd(1, RMul(e.lip, RMul(Big(x), e.rate)))), RMul("1e-14", RMul(RMul(e.lip, e.rate), RMul(Big(x), RAdd(1, RAbs(v.t))))))))
     /\ Chk("in the wanted direction", v.dir \in {"up", "down"} /\ Wanted(e.dirs[i], IF v.dir = "up" THEN 1 ELSE 0 - 1))
     /\ Chk("the direction of the crossing", LET dg == RSub(g1, g0) IN RGt(RAbs(dg), RMul(RMul(50, e.slack), RMul(e.lip, Big(x)))) => (RGt(dg, 0) <=> v.dir = "up"))
InSeg(e, s, t, x) == LET y == Flow(e.sol, s.xs, RSub(t, s.ts)) IN \A c \in DOMAIN x : RIsNum(x[c]) /\ RLe(RAbs(RSub(x[c], y[c])), RMul(e.slack, Big(y)))
OnFlow(e, S, t, x) == \E n \in DOMAIN S : RGe(t, S[n].ts) /\ RLe(t, RAdd(S[n].te, RMul(RMul(8, Eps), RAdd(1, RAbs(t))))) /\ InSeg(e, S[n], t, x)
Run(e) ==
  IF e.ex # "" THEN Chk("the run succeeds", FALSE) ELSE
  LET stops == {k \in DOMAIN e.evs : e.acts[e.evs[k].i + 1] = "stop"} IN
  /\ Chk("events in time order", \A k \in 1..(Len(e.evs) - 1) : RLe(e.evs[k].t, e.evs[k + 1].t))
  /\ Chk("events within the range", \A k \in DOMAIN e.evs : RGe(e.evs[k].t, e.t0) /\ RLe(e.evs[k].t, e.te))
  /\ Chk("a stop ends the run", (stops # {}) = e.term /\ (e.term => stops = {Len(e.evs)} /\ REq(e.ft, e.evs[Len(e.evs)].t) /\ SeqREq(e.fx, e.evs[Len(e.evs)].x)))
  /\ Chk("otherwise the run ends at the end", e.term \/ RLe(RAbs(RSub(e.ft, e.te)), RMul(RMul(8, Eps), RAdd(1, RAbs(e.te)))))
  /\ Handled(e)
  /\ LET S == Segs(e, 1, 1, 0, e.t0, e.x0) IN
     /\ \A n \in DOMAIN S : \A k \in S[n].a..S[n].b : Event(e, S[n], k)
     /\ \A n \in DOMAIN S : \A i \in DOMAIN e.gs : Chk("every crossing once", Counted(e, S[n], i, n = 1))
     /\ Chk("the final state", OnFlow(e, S, e.ft, e.fx))
     /\ LET N == RDiv(RSub(e.ft, e.t0), e.dt) tt == RMul(RMul(8, Eps), RAdd(RAbs(e.t0), RAdd(RAbs(e.te), 1))) m == Len(e.ts) IN
        /\ Chk("outputs at multiples of the interval", m >= 1 /\ \A k \in DOMAIN e.ts : RLe(RAbs(RSub(e.ts[k], RMin(e.te, RAdd(e.t0, RMul(e.dt, k - 1))))), tt))
        /\ Chk("outputs reach the end", IF e.term THEN RLe(e.ts[m], RAdd(e.ft, tt)) /\ RGe(RAdd(e.t0, RMul(e.dt, m)), RSub(e.ft, tt)) ELSE RLe(RAbs(RSub(e.ts[m], e.te)), tt))
        /\ Chk("outputs lie on the solution", \A k \in DOMAIN e.ts : OnFlow(e, S, e.ts[k], e.xs[k]))
Ok(s, e) == CASE e.op = "run" -> Run(e)
Upd(s, e) == s
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
