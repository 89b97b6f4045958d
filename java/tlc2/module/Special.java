package tlc2.module;
// Evaluation of the operators of spec/Special.tla: positive series in 240-bit fixed point, prefactors in logarithms.
import java.math.BigInteger;
import tlc2.value.impl.*;
public class Special {
  static final int P = Rat.P;
  static final BigInteger ONE = BigInteger.ONE;
  static Rat.R ln(Rat.R a) { return Rat.toR(Rat.RLn(Rat.V(a))); }
  static Rat.R exp(Rat.R a) { return Rat.toR(Rat.RExp(Rat.V(a))); }
  static Rat.R cut(Rat.R a) { return Rat.rnd(a, 260); }
  static Rat.R i(long n) { return Rat.mk(BigInteger.valueOf(n), ONE); }
  static Rat.R[] bern;                                                 // B_2, B_4, ...
  static synchronized Rat.R[] bern() {
    if (bern == null) { int m = 60; Rat.R[] B = new Rat.R[m + 1]; B[0] = i(1);
      for (int n = 1; n <= m; n++) { Rat.R s = Rat.R0; BigInteger c = ONE; for (int k = 0; k < n; k++) { s = Rat.add(s, Rat.mul(Rat.mk(c, ONE), B[k])); c = c.multiply(BigInteger.valueOf(n + 1 - k)).divide(BigInteger.valueOf(k + 1)); } B[n] = Rat.neg(Rat.div(s, i(n + 1))); }
      Rat.R[] r = new Rat.R[m / 2]; for (int k = 1; k <= m / 2; k++) r[k - 1] = B[2 * k]; bern = r; }
    return bern;
  }
  static final java.util.concurrent.ConcurrentHashMap<String, Rat.R> lg = new java.util.concurrent.ConcurrentHashMap<>();
  static Rat.R lnGamma(Rat.R a) {
    String key = a.n + "/" + a.d; Rat.R c = lg.get(key); if (c != null) return c;
    Rat.R s = a, prod = i(1);
    while (Rat.cmp(s, i(60)) < 0) { prod = cut(Rat.mul(prod, s)); s = Rat.add(s, i(1)); }
    Rat.R half = Rat.mk(ONE, BigInteger.TWO);
    Rat.R r = Rat.add(Rat.sub(Rat.mul(Rat.sub(s, half), ln(s)), s), Rat.mul(half, ln(Rat.mul(i(2), Rat.fromFx(Rat.pi())))));
    Rat.R inv = cut(Rat.div(i(1), s)), inv2 = cut(Rat.mul(inv, inv)), p = inv; Rat.R[] B = bern();
    for (int k = 1; k <= 29; k++) { r = cut(Rat.add(r, Rat.mul(p, Rat.div(B[k - 1], i(2L * k * (2 * k - 1)))))); p = cut(Rat.mul(p, inv2)); }
    r = cut(Rat.sub(r, ln(prod))); lg.put(key, r); return r;
  }
  public static Value RLnGamma(Value a) { Rat.R x = Rat.toR(a); return Rat.V(x.nan() || x.n.signum() <= 0 ? Rat.NAN : lnGamma(x)); }
  static Rat.R gammaP(Rat.R a, Rat.R x) {
    if (x.n.signum() <= 0) return Rat.R0;
    if (Rat.cmp(x, Rat.add(Rat.mul(i(2), a), i(1000))) > 0) return Rat.R1;   // the rest is below exp(-900)
    Rat.R pre = exp(Rat.sub(Rat.sub(Rat.mul(a, ln(x)), x), lnGamma(Rat.add(a, i(1)))));
    if (pre.nan() || pre.n.signum() == 0) return Rat.cmp(x, a) > 0 ? Rat.R1 : Rat.R0;
    // sum of x^n / ((a+1)...(a+n)), scaled by the prefactor's own size
    BigInteger t = Rat.fx(i(1)), s = t, fx = Rat.fx(x), fa = Rat.fx(a), one = Rat.fx(i(1)), d = fa;
    for (int n = 1; n < 3000000; n++) { d = d.add(one); t = t.multiply(fx).divide(d); s = s.add(t); if (t.signum() == 0 || (d.compareTo(fx) > 0 && s.bitLength() - t.bitLength() > 210)) break; }
    return cut(Rat.mul(pre, Rat.fromFx(s)));
  }
  public static Value RGammaP(Value a, Value x) { Rat.R p = Rat.toR(a), q = Rat.toR(x); return Rat.V(p.nan() || q.nan() || p.n.signum() <= 0 ? Rat.NAN : gammaP(p, q)); }
  static Rat.R betaI(Rat.R a, Rat.R b, Rat.R x) {
    if (x.n.signum() <= 0) return Rat.R0;
    if (Rat.cmp(x, i(1)) >= 0) return Rat.R1;
    Rat.R y = Rat.sub(i(1), x);
    if (Rat.cmp(Rat.mul(x, Rat.add(Rat.add(a, b), i(2))), Rat.add(a, i(1))) > 0) return Rat.sub(i(1), betaI(b, a, y));
    Rat.R ab = Rat.add(a, b);
    Rat.R pre = exp(Rat.add(Rat.add(Rat.mul(a, ln(x)), Rat.mul(b, ln(y))), Rat.sub(lnGamma(ab), Rat.add(lnGamma(Rat.add(a, i(1))), lnGamma(b)))));
    if (pre.nan() || pre.n.signum() == 0) return Rat.R0;
    BigInteger t = Rat.fx(i(1)), s = t, fx = Rat.fx(x), one = t, u = Rat.fx(ab), d = Rat.fx(a);
    for (int n = 0; n < 3000000; n++) { d = d.add(one); t = t.multiply(u).divide(d); t = Rat.fmul(t, fx); u = u.add(one); s = s.add(t); if (t.signum() == 0 || (s.bitLength() - t.bitLength() > 210 && n > 50)) break; }
    return cut(Rat.mul(pre, Rat.fromFx(s)));
  }
  public static Value RBetaI(Value a, Value b, Value x) { Rat.R p = Rat.toR(a), q = Rat.toR(b), z = Rat.toR(x); return Rat.V(p.nan() || q.nan() || z.nan() || p.n.signum() <= 0 || q.n.signum() <= 0 ? Rat.NAN : betaI(p, q, z)); }
}
