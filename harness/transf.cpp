// C24: records quaternion algebra and coordinate transforms
#include "vp.h"
#include "base/Quaternions.h"
#include "core/CoordTransf.h"
#include "core/CoordTransf/CoordTransf2D.h"
#include "core/CoordTransf/CoordTransf3D.h"
#include "core/CoordTransf/CoordTransfSpherical.h"
#include "core/CoordTransf/CoordTransfCylindrical.h"
#include "core/CoordTransf/CoordTransfLorentz.h"
using namespace MML; using namespace vp;
typedef std::string Str; typedef std::vector<double> Ds;
static Out out;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str arr(const Ds& v) { Str s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
static Raw A(const Ds& v) { return Raw{arr(v)}; }
static Raw AA(const std::vector<Ds>& m) { Str s = "["; for (size_t i = 0; i < m.size(); i++) s += (i ? "," : "") + arr(m[i]); return Raw{s + "]"}; }
static Ds ds(const Quaternion& q) { return {q.w(), q.x(), q.y(), q.z()}; }
template <int N> Ds ds(const VectorN<Real, N>& v) { Ds r; for (int i = 0; i < N; i++) r.push_back(v[i]); return r; }
template <int N> std::vector<Ds> dm(const MatrixNM<Real, N, N>& m) { std::vector<Ds> r(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i].push_back(m(i, j)); return r; }
static double comp(Rng& R) { switch (R.range(0, 5)) { case 0: return 0; case 1: return R.range(-3, 3); case 2: return R.uni(-1, 1) * std::pow(10.0, R.range(-9, 9)); default: return R.uni(-2, 2); } }
static Quaternion unit(Rng& R) { const double h = std::sqrt(0.5);
  switch (R.range(0, 9)) { case 0: { int i = R.range(0, 3); Quaternion q(0, 0, 0, 0); q[i] = R.chance(1, 2) ? 1 : -1; return q; }
    case 1: { Quaternion q(0, 0, 0, 0); int i = R.range(0, 3), j = (i + R.range(1, 3)) % 4; q[i] = R.chance(1, 2) ? h : -h; q[j] = R.chance(1, 2) ? h : -h; return q; }
    case 2: return Quaternion(R.chance(1, 2) ? .5 : -.5, R.chance(1, 2) ? .5 : -.5, R.chance(1, 2) ? .5 : -.5, R.chance(1, 2) ? .5 : -.5);
    case 3: { Quaternion q(R.chance(1, 2) ? 1 : -1, 0, 0, 0); q[R.range(1, 3)] = R.uni(-1, 1) * std::pow(10.0, -R.range(1, 12)); return q.Normalized(); }      // near the identity
    case 4: { Quaternion q(R.uni(-1, 1) * std::pow(10.0, -R.range(1, 12)), R.range(-1, 1), R.range(-1, 1), 1); return q.Normalized(); }                     // near a half turn
    case 5: return Quaternion::FromEulerZYX(R.uni(-3, 3), (R.chance(1, 2) ? 1 : -1) * (Constants::PI / 2 + R.pick(Ds{0, 0, 1e-3, 1e-5, 1e-8, 1e-12}) * R.uni(-1, 1)), R.uni(-3, 3)).Normalized();
    default: { Quaternion q(R.uni(-1, 1), R.uni(-1, 1), R.uni(-1, 1), R.uni(-1, 1) + 1e-3); return q.Normalized(); } } }
static double ang(Rng& R) { return R.chance(1, 3) ? R.range(-8, 8) * Constants::PI / 4 : R.chance(1, 5) ? R.uni(-1, 1) * 1e-7 : R.uni(-7, 7); }
static Vec3Cart vec(Rng& R) { if (R.chance(1, 3)) { Vec3Cart v(0, 0, 0); v[R.range(0, 2)] = R.chance(1, 2) ? 1 : -2; return v; } if (R.chance(1, 8)) return Vec3Cart(0, 0, 0); double s = R.chance(1, 4) ? std::pow(10.0, R.range(-8, 8)) : 1; return Vec3Cart(R.uni(-2, 2) * s, R.uni(-2, 2) * s, R.uni(-2, 2) * s); }
static void quats(Rng& R) {
  { Quaternion p(comp(R), comp(R), comp(R), comp(R)), q(comp(R), comp(R), comp(R), comp(R)); if (R.chance(1, 4)) q = p; else if (R.chance(1, 4)) { q = p; q[R.range(0, 3)] += 1; } double c = comp(R), d = c == 0 ? 1 : c;
    Quaternion i1 = p, i2 = p, i3 = p, i4 = p, sq = p; i1 += q; i2 -= q; i3 *= c; i4 *= q; sq *= sq; Ev e("alg");
    e.kv("p", A(ds(p))).kv("q", A(ds(q))).kv("c", Raw{num(c)}).kv("sum", A(ds(p + q))).kv("dif", A(ds(p - q))).kv("neg", A(ds(-p))).kv("sc", A(ds(p * c))).kv("dv", A(ds(p / d))).kv("pr", A(ds(p * q))).kv("cj", A(ds(p.Conjugate()))).kv("n2", Raw{num(p.NormSquared())}).kv("nm", Raw{num(p.Norm())}).kv("dot", Raw{num(p.Dot(q))});
    e.kv("ip", AA({ds(i1), ds(i2), ds(i3), ds(i4), ds(c * p)})).kv("sq", A(ds(sq))).kv("eq", p == q).kv("ne", p != q); out.ev(e); }
  { Quaternion q(comp(R), comp(R), comp(R), comp(R)); if (R.chance(1, 4)) q = Quaternion(0, 0, 0, 0); else if (R.chance(1, 5)) q = q * std::pow(10.0, -R.range(4, 16)); Quaternion i, n; Str ei = guarded([&] { i = q.Inverse(); }), en = guarded([&] { n = q.Normalized(); }); Quaternion n2 = q; Str e2 = guarded([&] { n2.Normalize(); }); if (e2 == en && en.empty() && n2 != n) en = "mismatch";
    Ev e("inv"); e.kv("q", A(ds(q))).kv("ei", ei).kv("en", en).kv("inv", A(ds(i))).kv("nrm", A(ds(n))); out.ev(e); }
  { Quaternion q = unit(R), p = unit(R); Vec3Cart v = vec(R), qv = q.Rotate(v), ax, ax2; double a2; q.ToAxisAngle(ax2, a2); ax = q.GetRotationAxis(); auto M = q.ToRotationMatrix(); Ev e("rot");
    e.kv("q", A(ds(q))).kv("p", A(ds(p))).kv("v", A(ds<3>(v))).kv("qv", A(ds<3>(qv))).kv("M", AA(dm<3>(M))).kv("pqv", A(ds<3>((p * q).Rotate(v)))).kv("back", A(ds<3>(q.Conjugate().Rotate(qv)))).kv("fm", A(ds(Quaternion::FromRotationMatrix(M)))).kv("ax", A(ds<3>(ax))).kv("ang", Raw{num(q.GetRotationAngle())}).kv("ax2", A(ds<3>(ax2))).kv("ang2", Raw{num(a2)}).kv("eu", A(ds<3>(q.ToEulerZYX()))); out.ev(e); }
  { Vec3Cart ax = unit(R).Rotate(Vec3Cart(1, 0, 0)); double a = ang(R), b = ang(R), c = ang(R); Ev e("from"); e.kv("how", "axis").kv("a", A({ax[0], ax[1], ax[2], a})).kv("q", A(ds(Quaternion::FromAxisAngle(ax, a)))); out.ev(e);
    Ev f("from"); f.kv("how", "zyx").kv("a", A({a, b, c})).kv("q", A(ds(Quaternion::FromEulerZYX(a, b, c)))); out.ev(f); Ev g("from"); g.kv("how", "xyz").kv("a", A({a, b, c})).kv("q", A(ds(Quaternion::FromEulerXYZ(a, b, c)))); out.ev(g);
    // signed permutation matrices and products of plane rotations
    MatrixNM<Real, 3, 3> M; if (R.chance(1, 2)) { int p[3] = {0, 1, 2}; std::swap(p[0], p[R.range(0, 2)]); std::swap(p[1], p[R.range(1, 2)]); int inv = (p[0] > p[1]) + (p[0] > p[2]) + (p[1] > p[2]); double s0 = R.chance(1, 2) ? 1 : -1, s1 = R.chance(1, 2) ? 1 : -1, s2 = s0 * s1 * (inv % 2 ? -1 : 1); double s[3] = {s0, s1, s2}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M(i, j) = p[i] == j ? s[i] : 0; } else M = unit(R).ToRotationMatrix();
    Ds m; for (auto& r : dm<3>(M)) for (double x : r) m.push_back(x); Ev k("from"); k.kv("how", "mat").kv("a", A(m)).kv("q", A(ds(Quaternion::FromRotationMatrix(M)))); out.ev(k); }
  { Quaternion p = unit(R), q = unit(R); int w = R.range(0, 5); if (w == 0) q = p; else if (w == 1) q = -p; else if (w == 2) q = (p + unit(R) * std::pow(10.0, -R.range(1, 8))).Normalized(); double t = R.pick(Ds{0, 1, .5, R.unit(), R.unit(), R.unit()}); Ev e("interp"); e.kv("p", A(ds(p))).kv("q", A(ds(q))).kv("t", Raw{num(t)}).kv("le", A(ds(Quaternion::Lerp(p, q, t)))).kv("sl", A(ds(Quaternion::Slerp(p, q, t)))); out.ev(e); }
  { Quaternion p = unit(R), q = unit(R); if (R.chance(1, 3)) p = p * R.uni(.5, 3); double t = R.unit(); Vec3Cart v = vec(R); Ev e("qtr"); CoordTransfCart3DRotationQuaternion a(p), b(q); auto c = a.Compose(b); auto d = a.Interpolate(b, t); e.kv("p", A(ds(p))).kv("q", A(ds(q))).kv("v", A(ds<3>(v))).kv("t", t).kv("err", Str()).kv("cm", AA(dm<3>(c.GetTransformationMatrix()))).kv("cv", A(ds<3>(c.transf(v)))).kv("m", AA(dm<3>(a.GetTransformationMatrix()))).kv("mi", AA(dm<3>(a.GetInverseMatrix()))).kv("im", AA(dm<3>(d.GetTransformationMatrix()))); out.ev(e); }
}
template <class T> void unitbasis(T&, Ev&, const Vector3Cartesian&) {}
static void unitbasis(CoordTransfSphericalToCartesian& t, Ev& e, const Vector3Spherical& p) { std::vector<Ds> u, v; for (int i = 0; i < 3; i++) { u.push_back(ds<3>(t.getUnitBasisVec(i, p))); v.push_back(ds<3>(t.getInverseUnitBasisVec(i, p))); } e.kv("ub", AA(u)).kv("iub", AA(v)); }
template <class T, class V> void unitbasis(T&, Ev&, const V&) {}
template <class F, class G, int N, class T> void maps(T& t, const Str& k, const Ds& p, const F& x, const G& y) {
  out.at(k.c_str()); G fw; F iv, rt; VectorN<Real, N> fo; Ds fc, ic; Str er = guarded([&] { fw = t.transf(x); iv = t.transfInverse(y); rt = t.transfInverse(fw); fo = t(x); for (int i = 0; i < N; i++) { fc.push_back(t.coordTransfFunc(i)(x)); ic.push_back(t.inverseCoordTransfFunc(i)(y)); } });
  Ev e("map"); e.kv("k", k).kv("p", A(p)).kv("x", A(ds<N>(x))).kv("y", A(ds<N>(y))).kv("err", er).kv("fw", A(ds<N>(fw))).kv("iv", A(ds<N>(iv))).kv("rt", A(ds<N>(rt))).kv("fc", A(fc)).kv("fo", A(ds<N>(fo))).kv("ic", A(ic)); out.ev(e);
}
template <int K, int N, class T, class F> void tens(Rng& R, T& t, const Str& k, const Ds& p, const F& x, const Ds& y);
template <class F, class G, int N, class T> void derivs(Rng& R, T& t, const Str& k, const Ds& p, const F& x) {
  out.at(k.c_str()); G y = t.transf(x); Ds v; for (int i = 0; i < N; i++) v.push_back(R.chance(1, 3) ? R.range(-2, 2) : R.uni(-2, 2)); F vf; G vg; for (int i = 0; i < N; i++) { vf[i] = v[i]; vg[i] = v[i]; }
  std::vector<Ds> b, ib, cb, icb, J; for (int i = 0; i < N; i++) { b.push_back(ds<N>(t.getBasisVec(i, x))); ib.push_back(ds<N>(t.getInverseBasisVec(i, x))); cb.push_back(ds<N>(t.getContravarBasisVec(i, y))); icb.push_back(ds<N>(t.getInverseContravarBasisVec(i, y))); }
  Ev e("deriv"); e.kv("k", k).kv("p", A(p)).kv("err", Str()).kv("x", A(ds<N>(x))).kv("y", A(ds<N>(y))).kv("v", A(v)).kv("jac", AA(dm<N>(t.jacobian(x)))).kv("bas", AA(b)).kv("ibas", AA(ib)).kv("cbas", AA(cb)).kv("icbas", AA(icb)).kv("vcon", A(ds<N>(t.transfVecContravariant(vf, x)))).kv("ivcov", A(ds<N>(t.transfInverseVecCovariant(vg, x)))).kv("vcov", A(ds<N>(t.transfVecCovariant(vf, y)))).kv("ivcon", A(ds<N>(t.transfInverseVecContravariant(vg, y))));
  unitbasis(t, e, x); out.ev(e);
  int w = R.range(0, N < 4 ? 5 : 2); if (w < 2) tens<2, N>(R, t, k, p, x, ds<N>(y)); else if (w < 4) tens<3, N>(R, t, k, p, x, ds<N>(y)); else if (w == 4) tens<4, N>(R, t, k, p, x, ds<N>(y)); else if (N == 2) tens<5, N>(R, t, k, p, x, ds<N>(y));
}
template <int K, int N> struct TT;
template <int N> struct TT<2, N> { typedef Tensor2<N> T; static double& el(T& t, const int* x) { return t(x[0], x[1]); } template <class C, class F> static T go(C& c, const T& t, const F& x) { return c.transfTensor2(t, x); } };
template <int N> struct TT<3, N> { typedef Tensor3<N> T; static double& el(T& t, const int* x) { return t(x[0], x[1], x[2]); } template <class C, class F> static T go(C& c, const T& t, const F& x) { return c.transfTensor3(t, x); } };
template <int N> struct TT<4, N> { typedef Tensor4<N> T; static double& el(T& t, const int* x) { return t(x[0], x[1], x[2], x[3]); } template <class C, class F> static T go(C& c, const T& t, const F& x) { return c.transfTensor4(t, x); } };
template <int N> struct TT<5, N> { typedef Tensor5<N> T; static double& el(T& t, const int* x) { return t(x[0], x[1], x[2], x[3], x[4]); } template <class C, class F> static T go(C& c, const T& t, const F& x) { return c.transfTensor5(t, x); } };
template <int K, int N, class T, class F> void tens(Rng& R, T& t, const Str& k, const Ds& p, const F& x, const Ds& y) {
  int lo = R.range(0, K); typename TT<K, N>::T a(lo, K - lo), r(lo, K - lo); if (R.chance(1, 3)) for (int i = 0; i < K; i++) a.setContravar(i, R.chance(1, 2));
  int n = 1; for (int i = 0; i < K; i++) n *= N; auto ix = [&](int q, int* z) { for (int i = K - 1; i >= 0; i--) { z[i] = q % N; q /= N; } }; int z[5]; Ds c, d; for (int q = 0; q < n; q++) { ix(q, z); c.push_back(TT<K, N>::el(a, z) = R.range(-3, 3)); }
  Str er = guarded([&] { r = TT<K, N>::go(t, a, x); }); std::vector<bool> up, rup; for (int i = 0; i < K; i++) { up.push_back(a.IsContravar(i)); rup.push_back(r.IsContravar(i)); } for (int q = 0; q < n; q++) { ix(q, z); d.push_back(TT<K, N>::el(r, z)); }
  Ev e("tens"); e.kv("k", k).kv("p", A(p)).kv("x", A(ds<N>(x))).kv("y", A(y)).kv("err", er).kv("up", up).kv("rup", rup).kv("lo", r.NumCovar()).kv("hi", r.NumContravar()).kv("c", A(c)).kv("r", A(d)); out.ev(e);
}
template <int N, class V> V pt(Rng& R, double s) { V v; for (int i = 0; i < N; i++) v[i] = R.chance(1, 4) ? R.range(-2, 2) * s : R.uni(-3, 3) * s; return v; }
template <class F, class G, int N, class T> void lin(Rng& R, T& t, const Str& k, const Ds& p) { double s = R.chance(1, 3) ? std::pow(10.0, R.range(-9, 9)) : 1; maps<F, G, N>(t, k, p, pt<N, F>(R, s), pt<N, G>(R, s)); if (R.chance(1, 2)) derivs<F, G, N>(R, t, k, p, pt<N, F>(R, 1)); }
static Vector3Cartesian spot(Rng& R) { double s = R.chance(1, 3) ? std::pow(10.0, R.range(-14, 9)) : 1; int w = R.range(0, 6); Vector3Cartesian v(R.uni(-3, 3) * s, R.uni(-3, 3) * s, R.uni(-3, 3) * s);
  if (w == 0) return Vector3Cartesian(R.range(-1, 1) * s, R.range(-1, 1) * s, R.range(-1, 1) * s); if (w == 1) { v[0] = v[1] = 0; } if (w == 2) { v[0] *= 1e-9; v[1] *= 1e-9; } if (w == 3) v[R.range(0, 2)] = 0; return v; }
static void curvi(Rng& R) {
  double r = R.uni(.5, 4), th = R.uni(.4, 2.7), ph = R.uni(-2.9, 2.9); Vector3Spherical q(r, R.chance(1, 5) ? R.pick(Ds{0, Constants::PI, Constants::PI / 2, 1e-9}) : R.uni(0, Constants::PI), R.chance(1, 5) ? R.range(-2, 2) * Constants::PI / 2 : R.uni(-3.1, 3.1)), q0(r, th, ph); if (R.chance(1, 6)) q[0] = 0; if (R.chance(1, 5)) q[0] *= std::pow(10.0, R.range(-12, 9));
  Vector3Cartesian c = spot(R); { auto t = CoordTransfSpherToCart; maps<Vector3Spherical, Vector3Cartesian, 3>(t, "sph", {}, q, c); derivs<Vector3Spherical, Vector3Cartesian, 3>(R, t, "sph", {}, q0); auto u = CoordTransfCartToSpher; maps<Vector3Cartesian, Vector3Spherical, 3>(u, "isph", {}, c, q); derivs<Vector3Cartesian, Vector3Spherical, 3>(R, u, "isph", {}, t.transf(q0)); }
  Vector3Cylindrical w(q[0], q[2], R.chance(1, 4) ? R.range(-2, 2) : R.uni(-3, 3)), w0(r, ph, R.uni(-3, 3)); { auto t = CoordTransfCylToCart; maps<Vector3Cylindrical, Vector3Cartesian, 3>(t, "cyl", {}, w, c); derivs<Vector3Cylindrical, Vector3Cartesian, 3>(R, t, "cyl", {}, w0); auto u = CoordTransfCartToCyl; maps<Vector3Cartesian, Vector3Cylindrical, 3>(u, "icyl", {}, c, w); derivs<Vector3Cartesian, Vector3Cylindrical, 3>(R, u, "icyl", {}, t.transf(w0)); }
  CoordTransfPolarToCartesian2D t; maps<Vector2Polar, Vector2Cartesian, 2>(t, "pol", {}, Vector2Polar(q[0], q[2]), Vector2Cartesian(c[0], c[1])); derivs<Vector2Polar, Vector2Cartesian, 2>(R, t, "pol", {}, Vector2Polar(r, ph)); derivs<Vector2Polar, Vector2Cartesian, 2>(R, t, "pol", {}, Vector2Polar(r, ph));
}
static void linears(Rng& R) {
  typedef Vec3Cart V; double a = ang(R), b = ang(R), c = ang(R);
  { CoordTransfCart3DRotationXAxis t(a); lin<V, V, 3>(R, t, "rotx", {a}); } { CoordTransfCart3DRotationYAxis t(a); lin<V, V, 3>(R, t, "roty", {a}); } { CoordTransfCart3DRotationZAxis t(a); lin<V, V, 3>(R, t, "rotz", {a}); }
  { CoordTransfCart3DRotationEuler t(a, b, c); lin<V, V, 3>(R, t, "zyz", {a, b, c}); }
  { auto M = unit(R).ToRotationMatrix(); int sg = R.chance(1, 3) ? -1 : 1; bool sc = R.chance(1, 3), bad = R.chance(1, 6); V u[3]; for (int i = 0; i < 3; i++) { double s = sc ? R.uni(.5, 2) : 1; if (i == 2) s *= sg; for (int j = 0; j < 3; j++) u[i][j] = M(i, j) * s; } if (bad) u[1] = u[1] + u[0] * 0.01; Ds p; for (auto& x : u) for (int j = 0; j < 3; j++) p.push_back(x[j]); bool rh = false; Str er = guarded([&] { CoordTransf3DCartOrthogonal t(u[0], u[1], u[2]); rh = t.IsRightHanded(); lin<V, V, 3>(R, t, "orth", p); }); Ev e("orth"); e.kv("p", A(p)).kv("bad", bad).kv("err", er).kv("rh", rh); out.ev(e); }
  { MatrixNM<Real, 3, 3> M; Ds p; V u[3]; double d; do { p.clear(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { M(i, j) = R.range(-2, 2) + (i == j ? 1 : 0); u[i][j] = M(i, j); p.push_back(M(i, j)); } d = ScalarProduct(u[0], VectorProduct(u[1], u[2])); } while (std::fabs(d) < .5);
    CoordTransf3DCartGeneral t(M); lin<V, V, 3>(R, t, "gen", p); CoordTransfCartesianToOblique3D o(u[0], u[1], u[2]); lin<V, V, 3>(R, o, "obl3", p); Ev e("orth"); e.kv("p", A(p)).kv("bad", false).kv("err", Str()).kv("rh", t.IsRightHanded()); out.ev(e); Ev f("orth"); f.kv("p", A(p)).kv("bad", false).kv("err", Str()).kv("rh", o.IsRightHanded()); out.ev(f);
    V w = u[0] * 2.0 + u[1]; Str er = guarded([&] { CoordTransfCartesianToOblique3D o2(u[0], u[1], w); }); Ev g("orth"); g.kv("p", A(p)).kv("bad", true).kv("err", er).kv("rh", false); out.ev(g); }
  { Quaternion q = unit(R); if (R.chance(1, 3)) q = q * R.uni(.3, 4); CoordTransfCart3DRotationQuaternion t(q); lin<V, V, 3>(R, t, "quat", ds(q)); V ax = unit(R).Rotate(V(0, 0, 1)); CoordTransfCart3DRotationQuaternion t2(ax, a); lin<V, V, 3>(R, t2, "axis", {ax[0], ax[1], ax[2], a});
    MatrixNM<Real, 3, 3> M = unit(R).ToRotationMatrix(); CoordTransfCart3DRotationQuaternion t3(M); Ds m; for (auto& r : dm<3>(M)) for (double x : r) m.push_back(x); lin<V, V, 3>(R, t3, "qmat", m); auto t4 = CoordTransfCart3DRotationQuaternion::FromEulerZYX(a, b, c); lin<V, V, 3>(R, t4, "qzyx", {a, b, c}); auto t5 = CoordTransfCart3DRotationQuaternion::FromEulerXYZ(a, b, c); lin<V, V, 3>(R, t5, "qxyz", {a, b, c}); }
  typedef Vector2Cartesian U; { CoordTransfCart2DRotation t(a); lin<U, U, 2>(R, t, "rot2", {a}); }
  { double o = R.uni(.3, 2.8) * (R.chance(1, 4) ? -1 : 1); CoordTransfObliqueToCartesian2D t(o); lin<U, U, 2>(R, t, "obl2to", {o}); CoordTransfCartesianToOblique2D s(o); lin<U, U, 2>(R, s, "obl2from", {o}); double z = R.pick(Ds{0, Constants::PI, -Constants::PI}); Str e1 = guarded([&] { CoordTransfObliqueToCartesian2D t2(z); }), e2 = guarded([&] { CoordTransfCartesianToOblique2D t2(z); }); Ev e("orth"); e.kv("p", A({1, 0, 0, 1, 0, 0, 0, 0, 0})).kv("bad", true).kv("err", e1.size() && e2.size() ? e1 : Str()).kv("rh", false); out.ev(e); }
  { typedef Vector4Minkowski M; double v = R.pick(Ds{0, .6, .8, R.unit(), .99, .9999, 1, -.1, 1.5}); M x = pt<4, M>(R, 1), fw; Str er = guarded([&] { CoordTransfLorentzXAxis t(v); fw = t.transf(x); if (v < .9) lin<M, M, 4>(R, t, "lor", {v}); }); Ev e("lor"); e.kv("b", Raw{num(v)}).kv("err", er).kv("x", A(ds<4>(x))).kv("fw", A(ds<4>(fw))); out.ev(e); }
}
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed); bool th = a.thorough(); int id = 0;
  for (int i = 0; i < (th ? 3000 : 250); i++) { out.begin("q" + std::to_string(id++)); quats(R); out.end(); }
  for (int i = 0; i < (th ? 1000 : 100); i++) { out.begin("l" + std::to_string(id++)); linears(R); out.end(); }
  for (int i = 0; i < (th ? 1500 : 120); i++) { out.begin("c" + std::to_string(id++)); curvi(R); out.end(); }
  out.close(); return 0;
}
