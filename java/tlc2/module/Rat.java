package tlc2.module;

// TLC evaluation of the operators declared in spec/Rat.tla.
// Exact rational arithmetic (unbounded), because TLC's own integers are 32 bit.
// "Undefined" (NaN) absorbs: arithmetic on it is undefined, every comparison with it is FALSE.

import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.IBoolValue;
import tlc2.value.impl.*;

public class Rat {
  static final class R extends UserObj {
    final BigInteger n, d; // d > 0, reduced ; n == null : undefined
    R(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    boolean nan() { return n == null; }
    public int compareTo(Value v) {
      R o = toR(v);
      if (nan()) return o.nan() ? 0 : -1;
      if (o.nan()) return 1;
      return cmp(this, o);
    }
    public boolean member(Value v) { return false; }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
      if (nan()) return sb.append("\"nan\"");
      sb.append('"').append(n);
      if (!d.equals(BigInteger.ONE)) sb.append('/').append(d);
      return sb.append('"');
    }
  }
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TWO = BigInteger.TWO;
  static final R NAN = new R(null, null), R0 = new R(ZERO, ONE), R1 = new R(ONE, ONE);

  static R mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return NAN;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) return R0;
    int k = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
    if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); }
    if (d.bitCount() == 1) return new R(n, d);           // dyadic: already reduced
    BigInteger g = n.gcd(d);
    if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    return new R(n, d);
  }
  static R parse(String s) {
    s = s.trim();
    if (s.isEmpty()) return NAN;
    char c0 = s.charAt(s.length() - 1);
    if (s.equals("nan") || s.equals("-nan") || s.equals("inf") || s.equals("-inf") || c0 == 'n' || s.endsWith("nf")) return NAN;
    int sl = s.indexOf('/');
    if (sl >= 0) return mk(new BigInteger(s.substring(0, sl)), new BigInteger(s.substring(sl + 1)));
    if (s.indexOf('x') >= 0 || s.indexOf('X') >= 0) {   // C hexadecimal floating constant, any precision
      boolean neg = false; int i = 0;
      if (s.charAt(0) == '-') { neg = true; i = 1; } else if (s.charAt(0) == '+') i = 1;
      i += 2;
      int p = s.indexOf('p'); if (p < 0) p = s.indexOf('P'); if (p < 0) p = s.length();
      int e = p < s.length() ? Integer.parseInt(s.charAt(p + 1) == '+' ? s.substring(p + 2) : s.substring(p + 1)) : 0;
      String m = s.substring(i, p);
      int dot = m.indexOf('.');
      if (dot >= 0) { e -= 4 * (m.length() - dot - 1); m = m.substring(0, dot) + m.substring(dot + 1); }
      BigInteger b = new BigInteger(m, 16);
      if (neg) b = b.negate();
      return e >= 0 ? mk(b.shiftLeft(e), ONE) : mk(b, ONE.shiftLeft(-e));
    }
    BigDecimal bd;
    try { bd = new BigDecimal(s); } catch (NumberFormatException ex) { return NAN; }
    if (bd.scale() <= 0) return mk(bd.toBigIntegerExact(), ONE);
    return mk(bd.unscaledValue(), BigInteger.TEN.pow(bd.scale()));
  }
  static R toR(Value v) {
    if (v instanceof UserValue) return (R) ((UserValue) v).userObj;
    if (v instanceof IntValue) return mk(BigInteger.valueOf(((IntValue) v).val), ONE);
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    throw new RuntimeException("Rat: not a number: " + v);
  }
  static Value V(R r) { return new UserValue(r); }
  static Value B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int cmp(R a, R b) {
    if (a.d.equals(b.d)) return a.n.compareTo(b.n);
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }
  static R add(R a, R b) {
    if (a.nan() || b.nan()) return NAN;
    if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
    return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static R neg(R a) { return a.nan() ? NAN : new R(a.n.negate(), a.d); }
  static R sub(R a, R b) { return add(a, neg(b)); }
  static R mul(R a, R b) {
    if (a.nan() || b.nan()) return NAN;
    return mk(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static R div(R a, R b) {
    if (a.nan() || b.nan() || b.n.signum() == 0) return NAN;
    return mk(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  static R abs(R a) { return a.nan() ? NAN : new R(a.n.abs(), a.d); }

  // ---- operators of Rat.tla
  public static Value RatOf(Value a) { return V(toR(a)); }
  public static Value RIsNum(Value a) {
    if (a instanceof StringValue || a instanceof IntValue || a instanceof UserValue) {
      try { return B(!toR(a).nan()); } catch (RuntimeException e) { return B(false); }
    }
    return B(false);
  }
  public static Value RAdd(Value a, Value b) { return V(add(toR(a), toR(b))); }
  public static Value RSub(Value a, Value b) { return V(sub(toR(a), toR(b))); }
  public static Value RMul(Value a, Value b) { return V(mul(toR(a), toR(b))); }
  public static Value RDiv(Value a, Value b) { return V(div(toR(a), toR(b))); }
  public static Value RNeg(Value a) { return V(neg(toR(a))); }
  public static Value RAbs(Value a) { return V(abs(toR(a))); }
  public static Value RLt(Value a, Value b) { R x = toR(a), y = toR(b); return B(!x.nan() && !y.nan() && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value b) { R x = toR(a), y = toR(b); return B(!x.nan() && !y.nan() && cmp(x, y) <= 0); }
  public static Value RGt(Value a, Value b) { return RLt(b, a); }
  public static Value RGe(Value a, Value b) { return RLe(b, a); }
  public static Value REq(Value a, Value b) { R x = toR(a), y = toR(b); return B(!x.nan() && !y.nan() && cmp(x, y) == 0); }
  public static Value RMax(Value a, Value b) { R x = toR(a), y = toR(b); return V(x.nan() || y.nan() ? NAN : cmp(x, y) >= 0 ? x : y); }
  public static Value RMin(Value a, Value b) { R x = toR(a), y = toR(b); return V(x.nan() || y.nan() ? NAN : cmp(x, y) <= 0 ? x : y); }
  public static Value RSgn(Value a) { R x = toR(a); return IntValue.gen(x.nan() ? 0 : x.n.signum()); }
  public static Value RPow(Value a, Value k) {
    R x = toR(a); int e = ((IntValue) k).val;
    if (x.nan()) return V(NAN);
    if (e >= 0) return V(new R(x.n.pow(e), x.d.pow(e)));
    return V(div(R1, new R(x.n.pow(-e), x.d.pow(-e))));
  }
  static BigInteger floor(R x) {
    BigInteger[] q = x.n.divideAndRemainder(x.d);
    return q[1].signum() < 0 ? q[0].subtract(ONE) : q[0];
  }
  public static Value RFloor(Value a) { R x = toR(a); return x.nan() ? V(NAN) : V(new R(floor(x), ONE)); }
  public static Value RToInt(Value a) { R x = toR(a); return IntValue.gen(x.nan() ? -2147483647 : floor(x).intValueExact()); }
  public static Value RIsInt(Value a) { R x = toR(a); return B(!x.nan() && x.d.equals(ONE)); }
  // round to at most k significant bits (toward zero); relative error < 2^(1-k)
  static R rnd(R x, int k) {
    if (x.nan() || x.n.signum() == 0) return x;
    int e = x.n.abs().bitLength() - x.d.bitLength() - k;   // quotient has about k bits at scale 2^e
    BigInteger m = e >= 0 ? x.n.divide(x.d.shiftLeft(e)) : x.n.shiftLeft(-e).divide(x.d);
    return e >= 0 ? mk(m.shiftLeft(e), ONE) : mk(m, ONE.shiftLeft(-e));
  }
  public static Value RRnd(Value a, Value k) { return V(rnd(toR(a), ((IntValue) k).val)); }

  static Value[] seq(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  public static Value RSum(Value s) { R r = R0; for (Value v : seq(s)) r = add(r, toR(v)); return V(r); }
  public static Value RSumAbs(Value s) { R r = R0; for (Value v : seq(s)) r = add(r, abs(toR(v))); return V(r); }
  public static Value RMaxAbs(Value s) {
    R r = R0;
    for (Value v : seq(s)) { R x = abs(toR(v)); if (x.nan()) return V(NAN); if (cmp(x, r) > 0) r = x; }
    return V(r);
  }
  static R dot(Value[] a, Value[] b) {
    R r = R0; int n = Math.min(a.length, b.length);
    for (int i = 0; i < n; i++) r = add(r, mul(toR(a[i]), toR(b[i])));
    return r;
  }
  public static Value RDot(Value a, Value b) { return V(dot(seq(a), seq(b))); }
  public static Value RMatVec(Value A, Value x) {
    Value[] rows = seq(A), xs = seq(x); Value[] out = new Value[rows.length];
    for (int i = 0; i < rows.length; i++) out[i] = V(dot(seq(rows[i]), xs));
    return new TupleValue(out);
  }
  public static Value RMatMul(Value A, Value B) {
    Value[] rows = seq(A), br = seq(B);
    int m = rows.length, k = br.length, n = k == 0 ? 0 : seq(br[0]).length;
    R[][] b = new R[k][];
    for (int i = 0; i < k; i++) { Value[] r = seq(br[i]); b[i] = new R[n]; for (int j = 0; j < n; j++) b[i][j] = toR(r[j]); }
    Value[] out = new Value[m];
    for (int i = 0; i < m; i++) {
      Value[] r = seq(rows[i]); R[] a = new R[k];
      for (int l = 0; l < k; l++) a[l] = toR(r[l]);
      Value[] o = new Value[n];
      for (int j = 0; j < n; j++) { R s = R0; for (int l = 0; l < k; l++) s = add(s, mul(a[l], b[l][j])); o[j] = V(s); }
      out[i] = new TupleValue(o);
    }
    return new TupleValue(out);
  }
  // exact determinant / rank / solution by rational elimination
  static R[][] mat(Value A) {
    Value[] rows = seq(A); R[][] m = new R[rows.length][];
    for (int i = 0; i < rows.length; i++) { Value[] r = seq(rows[i]); m[i] = new R[r.length]; for (int j = 0; j < r.length; j++) m[i][j] = toR(r[j]); }
    return m;
  }
  public static Value RDet(Value A) {
    R[][] m = mat(A); int n = m.length; R det = R1;
    for (int c = 0; c < n; c++) {
      int p = -1;
      for (int i = c; i < n; i++) { if (m[i][c].nan()) return V(NAN); if (m[i][c].n.signum() != 0) { p = i; break; } }
      if (p < 0) return V(R0);
      if (p != c) { R[] t = m[p]; m[p] = m[c]; m[c] = t; det = neg(det); }
      det = mul(det, m[c][c]);
      for (int i = c + 1; i < n; i++) if (m[i][c].n.signum() != 0) {
        R f = div(m[i][c], m[c][c]);
        for (int j = c; j < n; j++) m[i][j] = sub(m[i][j], mul(f, m[c][j]));
      }
    }
    return V(det);
  }
  public static Value RRank(Value A) {
    R[][] m = mat(A); int r = m.length, n = r == 0 ? 0 : m[0].length, row = 0;
    for (int c = 0; c < n && row < r; c++) {
      int p = -1;
      for (int i = row; i < r; i++) { if (m[i][c].nan()) return IntValue.gen(-1); if (m[i][c].n.signum() != 0) { p = i; break; } }
      if (p < 0) continue;
      R[] t = m[p]; m[p] = m[row]; m[row] = t;
      for (int i = row + 1; i < r; i++) if (m[i][c].n.signum() != 0) {
        R f = div(m[i][c], m[row][c]);
        for (int j = c; j < n; j++) m[i][j] = sub(m[i][j], mul(f, m[row][j]));
      }
      row++;
    }
    return IntValue.gen(row);
  }

  // ---- elementary functions: 200-bit fixed point Taylor sums (see Elem.tla); error < 2^-180 relative to max(1,|f|)
  static final int P = 240;
  static BigInteger fx(R x) { return x.n.shiftLeft(P).divide(x.d); }
  static R fromFx(BigInteger b) { return mk(b, ONE.shiftLeft(P)); }
  static BigInteger fmul(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(P); }
  static BigInteger PI_, LN2_;
  static BigInteger atanInv(int k) { // atan(1/k)
    BigInteger one = ONE.shiftLeft(P + 20), t = one.divide(BigInteger.valueOf(k)), s = t, k2 = BigInteger.valueOf((long) k * k);
    for (int i = 1; t.signum() != 0; i++) { t = t.divide(k2); BigInteger u = t.divide(BigInteger.valueOf(2L * i + 1)); s = (i & 1) == 1 ? s.subtract(u) : s.add(u); }
    return s;
  }
  static synchronized BigInteger pi() {
    if (PI_ == null) PI_ = atanInv(5).multiply(BigInteger.valueOf(16)).subtract(atanInv(239).multiply(BigInteger.valueOf(4))).shiftRight(20);
    return PI_;
  }
  static synchronized BigInteger ln2() {
    if (LN2_ == null) { // 2*atanh(1/3)
      BigInteger one = ONE.shiftLeft(P + 20), t = one.divide(BigInteger.valueOf(3)), s = t;
      for (int i = 1; t.signum() != 0; i++) { t = t.divide(BigInteger.valueOf(9)); s = s.add(t.divide(BigInteger.valueOf(2L * i + 1))); }
      LN2_ = s.shiftLeft(1).shiftRight(20);
    }
    return LN2_;
  }
  public static Value RPi() { return V(fromFx(pi())); }
  static BigInteger isqrt(BigInteger a) { return a.sqrt(); }
  public static Value RSqrt(Value a) {
    R x = toR(a);
    if (x.nan() || x.n.signum() < 0) return V(NAN);
    if (x.n.signum() == 0) return V(R0);
    // scale so that the result keeps >= 200 significant bits
    int e = x.d.bitLength() - x.n.bitLength();
    int k = 2 * P + (e > 0 ? e : 0); if ((k & 1) == 1) k++;
    BigInteger s = isqrt(x.n.shiftLeft(k).divide(x.d));
    BigInteger ex = s.multiply(s).multiply(x.d);
    return V(mk(s, ONE.shiftLeft(k / 2)));
  }
  static BigInteger expFx(BigInteger y) { // |y| < 1
    BigInteger s = ONE.shiftLeft(P), t = s;
    for (int i = 1; t.signum() != 0 && i < 400; i++) { t = fmul(t, y).divide(BigInteger.valueOf(i)); if (t.equals(BigInteger.valueOf(-1))) break; s = s.add(t); }
    return s;
  }
  public static Value RExp(Value a) {
    R x = toR(a); if (x.nan()) return V(NAN);
    BigInteger f = fx(x), l = ln2();
    BigInteger k = f.divide(l); if (k.bitLength() > 20) return V(k.signum() < 0 ? R0 : NAN);
    BigInteger s = expFx(f.subtract(k.multiply(l)));
    int ki = k.intValue();
    return V(mul(fromFx(s), ki >= 0 ? new R(ONE.shiftLeft(ki), ONE) : new R(ONE, ONE.shiftLeft(-ki))));
  }
  public static Value RLn(Value a) {
    R x = toR(a); if (x.nan() || x.n.signum() <= 0) return V(NAN);
    int e = x.n.bitLength() - x.d.bitLength();
    R m = e >= 0 ? mk(x.n, x.d.shiftLeft(e)) : mk(x.n.shiftLeft(-e), x.d);  // in (1/2, 2)
    R z = div(sub(m, R1), add(m, R1));
    BigInteger t = fx(z), z2 = fmul(t, t), s = t;
    for (int i = 1; t.signum() != 0 && i < 1000; i++) { t = fmul(t, z2); if (t.equals(BigInteger.valueOf(-1))) break; s = s.add(t.divide(BigInteger.valueOf(2L * i + 1))); }
    return V(fromFx(s.shiftLeft(1).add(ln2().multiply(BigInteger.valueOf(e)))));
  }
  static BigInteger[] sincos(R x) {
    BigInteger f = fx(x), twopi = pi().shiftLeft(1);
    BigInteger h = pi().shiftRight(2);                       // pi/4
    BigInteger q = f.add(h).divide(h.shiftLeft(1)); if (f.add(h).signum() < 0 && !q.multiply(h.shiftLeft(1)).equals(f.add(h))) q = q.subtract(ONE);
    // reduce with the exact rational multiple of pi/2 (pi() carries P bits: adequate for |x| < 2^40)
    BigInteger y = f.subtract(q.multiply(pi()).shiftRight(1));
    BigInteger y2 = fmul(y, y), one = ONE.shiftLeft(P);
    BigInteger s = y, t = y, c = one, u = one;
    for (int i = 1; i < 200; i++) {
      u = fmul(u, y2).divide(BigInteger.valueOf((2L * i - 1) * (2L * i))).negate(); c = c.add(u);
      t = fmul(t, y2).divide(BigInteger.valueOf((2L * i) * (2L * i + 1))).negate(); s = s.add(t);
      if (u.abs().bitLength() <= 1 && t.abs().bitLength() <= 1) break;
    }
    switch (q.and(BigInteger.valueOf(3)).intValue()) {
      case 0: return new BigInteger[]{s, c};
      case 1: return new BigInteger[]{c, s.negate()};
      case 2: return new BigInteger[]{s.negate(), c.negate()};
      default: return new BigInteger[]{c.negate(), s};
    }
  }
  public static Value RSin(Value a) { R x = toR(a); return V(x.nan() ? NAN : fromFx(sincos(x)[0])); }
  public static Value RCos(Value a) { R x = toR(a); return V(x.nan() ? NAN : fromFx(sincos(x)[1])); }
  static BigInteger atanFx(BigInteger x) {
    boolean n = x.signum() < 0; if (n) x = x.negate();
    BigInteger one = ONE.shiftLeft(P), r;
    if (x.compareTo(one) > 0) r = pi().shiftRight(1).subtract(atanFx(one.shiftLeft(P).divide(x)));
    else {
      int halv = 0;
      while (x.bitLength() > P - 6) { // x -> x/(1+sqrt(1+x^2))
        BigInteger q = isqrt(one.multiply(one).add(x.multiply(x)));
        x = x.shiftLeft(P).divide(one.add(q)); halv++;
      }
      BigInteger x2 = fmul(x, x), t = x, s = x;
      for (int i = 1; i < 1000 && t.bitLength() > 1; i++) { t = fmul(t, x2).negate(); s = s.add(t.divide(BigInteger.valueOf(2L * i + 1))); }
      r = s.shiftLeft(halv);
    }
    return n ? r.negate() : r;
  }
  public static Value RAtan(Value a) { R x = toR(a); return V(x.nan() ? NAN : fromFx(atanFx(fx(x)))); }
  // an exact value in a form TLC can store in a state
  public static Value RKeep(Value a) {
    if (a instanceof IntValue) return a;
    R r = toR(a);
    if (r.nan()) return new StringValue("nan");
    if (r.d.equals(ONE)) return r.n.bitLength() < 31 ? IntValue.gen(r.n.intValue()) : new StringValue(r.n.toString());
    return new StringValue(r.n + "/" + r.d);
  }
  public static Value RToStr(Value a) {
    R x = toR(a); if (x.nan()) return new StringValue("nan");
    return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(17)).toString());
  }
}
