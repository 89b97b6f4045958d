// C25: discrete transforms and windows
#include "vp.h"
#include "algorithms/Fourier.h"
#include "algorithms/FourierRealFFT.h"
#include "algorithms/FourierWindowing.h"
using namespace MML; using namespace MML::Fourier; using namespace vp;
typedef std::string Str; typedef Vector<Real> RV; typedef Vector<Complex> CV;
static Out out;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str jr(const RV& v) { Str s = "["; for (int i = 0; i < (int)v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
static Str jc(const CV& v) { RV a(v.size()), b(v.size()); for (int i = 0; i < (int)v.size(); i++) { a[i] = v[i].real(); b[i] = v[i].imag(); } return "[" + jr(a) + "," + jr(b) + "]"; }
static CV cv(const RV& v) { CV c(v.size()); for (int i = 0; i < (int)v.size(); i++) c[i] = Complex(v[i], 0); return c; }
static void ev(const char* op, const Str& in, const Str& err, const Str& r) { Ev v(op); v.kv("x", Raw{in}).kv("err", err).kv("r", Raw{err.empty() ? r : Str("[]")}); out.ev(v); }
#define TRY(op, in, T, expr, j) { T r_; Str e_ = guarded([&] { r_ = expr; }); ev(op, in, e_, j(r_)); }
template <class T> bool eq(const T& a, const T& b) { if (a.size() != b.size()) return false; for (int i = 0; i < (int)a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
template <class T, class R> void det(const char* op, int n, const R& r, const T& plain, bool threw) { Ev v("det"); v.kv("f", Str(op)).kv("n", n).kv("ok", r.status == AlgorithmStatus::Success).kv("inv", r.status == AlgorithmStatus::InvalidInput).kv("threw", threw).kv("size", r.input_size).kv("msg", !r.error_message.empty()).kv("same", threw || eq(r.value, plain)); out.ev(v); }
static void complexes(const CV& x) { Str in = jc(x); int n = x.size();
  TRY("dft", in, CV, DFT::Forward(x), jc) TRY("idft", in, CV, DFT::Inverse(x), jc) TRY("idftr", in, RV, DFT::InverseReal(x), jr)
  TRY("fft", in, CV, FFT::Forward(x), jc) TRY("ifft", in, CV, FFT::Inverse(x), jc) TRY("pad", in, CV, FFT::ZeroPad(x), jc)
  { CV y(x); Str e = guarded([&] { FFT::Transform(y, 1); }); ev("tr", in, e, jc(y)); y = x; e = guarded([&] { FFT::Transform(y, -1); }); ev("tri", in, e, jc(y)); }
  { CV b(n); Str e = guarded([&] { for (int k = 0; k < n; k++) b[k] = DFT::ComputeBin(x, k); }); if (n) ev("dft", in, e, jc(b)); Ev v("bin"); v.kv("a", guarded([&] { DFT::ComputeBin(x, -1); })).kv("b", guarded([&] { DFT::ComputeBin(x, n); })); out.ev(v); }
  { CV r; Str e = guarded([&] { r = DFT::Inverse(DFT::Forward(x)); }); ev("same", in, e, jc(r)); e = guarded([&] { r = FFT::Inverse(FFT::Forward(x)); }); ev("samep", in, e, jc(r)); }
  FourierConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; CV p; bool t;
  t = !guarded([&] { p = FFT::Forward(x); }).empty(); det("fft", n, FFT::ForwardDetailed(x, c), p, t); t = !guarded([&] { p = FFT::Inverse(x); }).empty(); det("ifft", n, FFT::InverseDetailed(x, c), p, t); t = !guarded([&] { p = DFT::Forward(x); }).empty(); det("dft", n, DFT::ForwardDetailed(x, c), p, t); t = !guarded([&] { p = DFT::Inverse(x); }).empty(); det("dft", n, DFT::InverseDetailed(x, c), p, t);
  { RV q; t = !guarded([&] { q = DFT::InverseReal(x); }).empty(); det("dft", n, DFT::InverseRealDetailed(x, c), q, t); } }
static void reals(const RV& x) { Str in = "[" + jr(x) + "]"; int n = x.size();
  TRY("dftr", in, CV, DFT::Forward(x), jc) TRY("dct", in, RV, DCT::ForwardII(x), jr) TRY("idct", in, RV, DCT::InverseII(x), jr) TRY("dct", in, RV, DCT::ForwardII_Reference(x), jr) TRY("idct", in, RV, DCT::InverseII_Reference(x), jr) TRY("dctp", in, RV, DCT::ForwardII_Fast(x), jr) TRY("idctp", in, RV, DCT::InverseII_Fast(x), jr) TRY("dst", in, RV, DCT::ForwardDST(x), jr) TRY("dst", in, RV, DCT::InverseDST(x), jr)
  TRY("same1", in, RV, DCT::InverseII(DCT::ForwardII(x)), jr) TRY("same1", in, RV, DCT::InverseDST(DCT::ForwardDST(x)), jr)
  TRY("rfft", in, CV, RealFFT::Forward(x), jc) TRY("same1r", in, RV, RealFFT::Inverse(RealFFT::Forward(x)), jr)
  { RV y(x); Str e = guarded([&] { RealFFT::Transform(y, 1); }); ev("rtr", in, e, jr(y)); e = guarded([&] { RealFFT::Transform(y, -1); }); ev("same1r", in, e, jr(y)); y = x; e = guarded([&] { RealFFT::Transform(y, -1); }); ev("rtri", in, e, jr(y)); }
  if (n) { double s = 0; for (int i = 0; i < n; i++) s = std::max(s, std::fabs(x[i])); Ev v("vrt"); v.kv("a", DCT::VerifyRoundTrip(x, 1e-11 * (s + 1e-300))).kv("b", DCT::VerifyFastMatchesReference(x, 1e-10 * (s + 1e-300))); out.ev(v); }
  FourierConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; RV p; bool t;
  t = !guarded([&] { p = DCT::ForwardII(x); }).empty(); det("dft", n, DCT::ForwardIIDetailed(x, c), p, t); t = !guarded([&] { p = DCT::InverseII(x); }).empty(); det("dft", n, DCT::InverseIIDetailed(x, c), p, t); t = !guarded([&] { p = DCT::ForwardDST(x); }).empty(); det("dft", n, DCT::ForwardDSTDetailed(x, c), p, t); t = !guarded([&] { p = DCT::InverseDST(x); }).empty(); det("dft", n, DCT::InverseDSTDetailed(x, c), p, t); { CV q; t = !guarded([&] { q = DFT::Forward(x); }).empty(); det("dft", n, DFT::ForwardDetailed(x, c), q, t); } }
static void half(const CV& x) { TRY("irfft", jc(x), RV, RealFFT::Inverse(x), jr) }
static double val(Rng& R, int k) { return k % 4 == 0 ? R.range(-9, 9) : k % 4 == 1 ? R.uni(-1, 1) : k % 4 == 2 ? (R.chance(1, 6) ? R.range(1, 5) : 0) : R.uni(-1, 1) * std::pow(10.0, R.range(-8, 8)); }
static void win(Rng& R, int n) { const char* K[] = {"rect", "hann", "hamming", "blackman", "bartlett", "welch", "kaiser", "gauss"};
  for (int k = 0; k < 8; k++) { double p = k == 6 ? R.pick(std::vector<double>{0, 1, 5, 8.6, 14, 40, 120, R.uni(0, 30)}) : k == 7 ? R.pick(std::vector<double>{0.4, 0.5, 1, 0.1, R.uni(0.2, 3)}) : 1; if (k > 5 && R.chance(1, 12)) p = k == 6 ? -1 : R.pick(std::vector<double>{0, -0.5}); RV w;
    Str e = guarded([&] { w = k == 0 ? Windows::Rectangular(n) : k == 1 ? Windows::Hann(n) : k == 2 ? Windows::Hamming(n) : k == 3 ? Windows::Blackman(n) : k == 4 ? Windows::Bartlett(n) : k == 5 ? Windows::Welch(n) : k == 6 ? Windows::Kaiser(n, p) : Windows::Gaussian(n, p); });
    Ev v("win"); v.kv("k", Str(K[k])).kv("n", n).kv("p", Raw{num(p)}).kv("err", e).kv("r", Raw{e.empty() ? jr(w) : Str("[]")}); out.ev(v); } }
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); int N = a.thorough() ? 1200 : 150;
  for (int i = 0; i < N; i++) { int n = i < 12 ? i : R.chance(2, 3) ? 1 << R.range(0, i % 10 == 0 ? 6 : 5) : R.range(1, 40); Str s = std::to_string(i);
    out.begin("c" + s); { CV x(n); int k = R.range(0, 7); for (int j = 0; j < n; j++) x[j] = Complex(val(R, k), k == 4 ? 0 : val(R, k)); complexes(x); } out.end();
    out.begin("r" + s); { RV x(n); int k = R.range(0, 7); for (int j = 0; j < n; j++) x[j] = k == 5 ? 1 : k == 6 ? (j % 2 ? -1 : 1) : val(R, k); reals(x); } out.end();
    out.begin("h" + s); { int m = i % 4 == 3 ? R.range(0, 9) : (1 << R.range(0, 5)) + 1; CV x(m); int k = R.range(0, 7); for (int j = 0; j < m; j++) x[j] = Complex(val(R, k), (j == 0 || j == m - 1) ? 0 : val(R, k)); half(x); } out.end();
    out.begin("w" + s); win(R, i < 10 ? i - 1 : R.range(1, 40)); out.end(); }
  out.begin("p"); for (int n = -2; n < 70; n++) { Ev e("pow"); e.kv("n", n).kv("p", FFT::IsPowerOfTwo(n)).kv("q", FFT::NextPowerOfTwo(n)).kv("l", n > 0 ? FFT::Log2(n) : 0).kv("s", DFT::IsReasonableSize(n)); out.ev(e); } out.end();
  out.close(); return 0;
}
