---------------------------- MODULE RootFindTrace ----------------------------
(* Validates recorded root searches.                                          *)
EXTENDS RootFind, TraceFile
VARIABLES h, l, st, dead
Limits(m) == IF m \in {"bisect", "false", "ridders"} THEN 50 ELSE IF m = "brent" THEN 100 ELSE 20
Lim(e) == IF e.lim > 0 THEN e.lim ELSE Limits(e.m)
P(x) == <<x>>
\* accepted as a root: small, an exact crossing near by, or (for the step criterion) a small Newton step
Good(e, x, y) ==
  LET k == IF e.m = "bisect" THEN RMul(e.tol, "1.0000001") ELSE RMul(e.tol, 10)
      w == RAdd(k, RMul(RMul(64, Eps), RMax(RAbs(x), RMul("1e-3", RMax(RAbs(e.a), RAbs(e.b))))))
  IN RLe(RAbs(y), e.tol) \/ REq(y, 0) \/ LET p == RMax(Lo(e.a, e.b), RSub(x, w)) q == RMin(Hi(e.a, e.b), RAdd(x, w)) IN Sign(e.f, P(p)) * Sign(e.f, P(q)) # 1
     \/ (e.m \in {"newton", "secant"} /\ RLe(RAbs(y), RMul(RMul(2, w), RAbs(Val(D(e.f, 1), P(x))))))
IsAt(e, x, y) == ~Fine(e.f, P(x)) \/ IsVal(e.f, P(x), y) \/ Close(y, Val(e.f, P(x)), 64, RAbs(Val(e.f, P(x))))
Slack(e) == RMul(RMul(4, Eps), RMax(RAbs(e.a), RAbs(e.b)))
Judge(e, sa, sb, fin) ==
  /\ Chk("status tells success", e.conv = (e.st = 0)) /\ Chk("failure explained", e.conv \/ e.msg)
  /\ Chk("iteration limit", e.it >= 0 /\ e.it <= Lim(e))
  /\ Chk("limit status", e.st = 1 => e.it = Lim(e))
  /\ IF sa * sb = 1 /\ fin THEN Chk("interval without sign change refused", ~e.conv /\ e.st = 4) ELSE Chk("interval with a sign change accepted", fin /\ sa * sb = 0 - 1 => e.st # 4)
  /\ (e.conv => Chk("inside the interval", Between(e.x, RSub(Lo(e.a, e.b), Slack(e)), RAdd(Hi(e.a, e.b), Slack(e)))) /\ Chk("residual describes the root", IsAt(e, e.x, e.y)) /\ Chk("root to the tolerance", Good(e, e.x, e.y)) /\ Chk("counted", e.it >= 1))
  /\ (e.st = 1 => Chk("last point described", IsAt(e, e.x, e.y)))
  /\ (fin /\ sa * sb = 0 - 1 /\ RGt(e.tol, 0) =>
        LET n == Halvings(RAbs(RSub(e.a, e.b)), e.tol) IN
        /\ Chk("bisection reaches the tolerance", e.m = "bisect" /\ n + 1 <= Lim(e) => e.conv)
        /\ Chk("brackets shrink", e.m = "ridders" /\ n + 2 <= Lim(e) => e.conv)
        /\ Chk("never much slower than bisection", e.m = "brent" /\ 3 * n + 10 <= Lim(e) => e.conv)
        /\ Chk("straight line", e.k = "lin" /\ e.lim = 0 /\ RGe(e.tol, "1e-12") => e.conv))
  /\ (Has(e, "se") => Chk("short form agrees", IF e.conv THEN e.se = "" /\ REq(e.sx, e.x) ELSE e.se = "RootFindingError"))
Root(e) ==
  LET sa == Sign(e.f, P(e.a)) sb == Sign(e.f, P(e.b)) fin == Fine(e.f, P(e.a)) /\ Fine(e.f, P(e.b)) IN
  IF e.err # "" THEN Chk("no exception from the detailed form", e.m = "newton" /\ ~fin /\ e.err = "NumericalMethodError")     \* no derivative at the edge of the domain
  ELSE Judge(e, sa, sb, fin)
RECURSIVE WidenN(_, _, _)
WidenN(F(_), p, k) == IF k = 0 \/ RSgn(F(p[1])) * RSgn(F(p[2])) = 0 - 1 THEN p ELSE WidenN(F, Wider(F, p), k - 1)
Bracket(e) ==
  IF REq(e.a, e.b) THEN Chk("empty range refused", e.err = "RootFindingError")
  ELSE LET sa == Sign(e.f, P(e.a)) sb == Sign(e.f, P(e.b)) fx == Err(e.f, P(e.x)) fy == Err(e.f, P(e.y)) IN
    /\ Chk("no exception", e.err = "") /\ Chk("range kept", Between(e.a, e.x, e.y) /\ Between(e.b, e.x, e.y))
    /\ Chk("search bounded", e.n <= e.lim + 2)
    /\ Chk("sign change", e.ok => Sign(e.f, P(e.x)) * Sign(e.f, P(e.y)) # 1)
    /\ (e.lim > 0 /\ sa * sb = 0 - 1 => Chk("already bracketed", e.ok /\ REq(e.x, e.a) /\ REq(e.y, e.b)))
    /\ (e.k \in {"lin", "tiny", "huge", "cub", "exp", "atan", "kink"} /\ e.lim = 50 /\ sa # 0 /\ sb # 0 => Chk("monotone function bracketed", e.ok))
    /\ Chk("stops only at the limit", ~e.ok => e.n = e.lim + 2)
Scan(e) ==
  LET dx == RDiv(RSub(e.b, e.a), e.n) t == RAdd(RMul("1e-13", RAbs(dx)), RMul(RMul(4 * e.n, Eps), RMax(RAbs(e.a), RAbs(e.b))))
      nd(i) == RAdd(e.a, RMul(i, dx))
      S3 == <<>> \o [i \in 1..(e.n + 1) |-> LET u == Sign(e.f, P(RSub(nd(i - 1), t))) v == Sign(e.f, P(RAdd(nd(i - 1), t))) w == Sign(e.f, P(nd(i - 1))) IN IF u = v /\ v = w THEN w ELSE 0]
      cell(k) == RToInt(RFloor(RAdd(RDiv(RSub(e.u[k], e.a), dx), "0.5"))) + 1
      R == {cell(k) : k \in 1..Len(e.u)}
  IN /\ Chk("no exception", e.err = "") /\ Chk("as many as announced", Len(e.u) = e.c /\ Len(e.v) = e.c)
     /\ Chk("cells of the scan", \A k \in 1..e.c : cell(k) \in 1..e.n /\ Within(e.u[k], nd(cell(k) - 1), t) /\ Within(e.v[k], nd(cell(k)), t)) /\ Chk("in order", \A k \in 1..(e.c - 1) : cell(k) < cell(k + 1))
     /\ Chk("every sign change reported", \A i \in 1..e.n : S3[i] * S3[i + 1] = 0 - 1 => i \in R)
     /\ Chk("only sign changes reported", \A i \in R : S3[i] * S3[i + 1] # 1)
Ok(s, e) == CASE e.op = "root" -> Root(e) [] e.op = "bracket" -> Bracket(e) [] e.op = "scan" -> Scan(e) [] e.op = "same" -> Chk("empty range refused", e.err = "RootFindingError")
Upd(s, e) == 0
INSTANCE TraceRun WITH St0 <- 0, Resume <- TRUE
=============================================================================
