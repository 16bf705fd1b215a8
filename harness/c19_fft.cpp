// C19: Fourier transforms
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
typedef std::complex<LD> cl;
static const LD PI_L = 3.141592653589793238462643383279502884L;

static int length_of(Rng &r, const char **k) {
  switch (r.range(0, 9)) {
    case 0: *k = "two"; return 2;
    case 1: *k = "three"; return 3;
    case 2: { static const int p[] = {5, 7, 11, 13, 17, 31, 61, 97, 127}; *k = "prime"; return p[r.range(0, 8)]; }
    case 3: *k = "power-of-two"; return 1 << r.range(2, 8);
    case 4: *k = "odd"; return 2 * (int) r.range(1, 60) + 1;
    case 5: { *k = "composite"; static const int p[] = {6, 12, 30, 60, 90, 100, 105, 120, 210, 225}; return p[r.range(0, 9)]; }
    case 6: if (r.chance(0.15)) { *k = "large"; return r.chance(0.03) ? 1 << r.range(11, 13) : r.chance(0.5) ? 1024 : (int) r.range(400, 700); }  // fallthrough
    default: *k = "even"; return 2 * (int) r.range(1, 64);
  }
}
template<class T> std::vector<T> signal(Rng &r, int n) {
  std::vector<T> x(n);
  int kind = (int) r.range(0, 4);
  double w = r.uni(0, 3), s = r.chance(0.7) ? 1 : std::pow(10., r.uni(-6, 6));
  int k = (int) r.range(0, n - 1);
  for (int i = 0; i < n; i++) {
    double v;
    switch (kind) {
      case 0: v = r.gauss(); break;
      case 1: v = i == k; break;
      case 2: v = 1; break;
      case 3: v = std::sin(w * i) + 2 * std::cos(6.283185307179586 * k * i / n); break;
      default: v = i % 2 ? -1 : 1;
    }
    x[i] = (T) (s * v);
  }
  return x;
}
template<class T> std::vector<cl> dft(const std::vector<T> &x) {
  int n = (int) x.size();
  std::vector<cl> tw(n), X(n);
  for (int k = 0; k < n; k++) tw[k] = cl(cosl(2 * PI_L * k / n), -sinl(2 * PI_L * k / n));
  for (int k = 0; k < n; k++) { cl s = 0; for (int j = 0; j < n; j++) s += (LD) x[j] * tw[(long) k * j % n]; X[k] = s; }
  return X;
}
static LD unit_of(LD hz, FREQUENCY_UNIT u) {
  switch (u) {
    case HERTZ: return hz;
    case RADS: return hz * 2 * PI_L;
    case DEGS: return hz * 360;
    case DEGM: return hz * 360 * 60;
    case S: return 1 / hz;
    default: return hz * 60;
  }
}
template<class T> void history(Case &c, const std::string &t) {
  FFT<T> F;
  bool scaled = true, half = false;
  std::string hist;
  std::vector<std::complex<T>> X;
  std::vector<T> y, fr;
  int ops = (int) c.r.range(2, 7);
  for (int op = 0; op < ops; op++) {
    for (int k = 0; k < 3; k++) if (c.r.chance(0.5)) switch (c.r.range(0, 3)) {
      case 0: F.ScalingON(); scaled = true; hist += " ScalingON"; break;
      case 1: F.ScalingOFF(); scaled = false; hist += " ScalingOFF"; break;
      case 2: F.HalfSpectrumON(); half = true; hist += " HalfON"; break;
      default: F.HalfSpectrumOFF(); half = false; hist += " HalfOFF"; break;
    }
    const char *kind = "";
    int n = length_of(c.r, &kind);
    c.obs(std::string("length/") + kind);
    c.obs(fmt("flags/scaling%d-half%d", scaled, half));
    auto x = signal<T>(c.r, n);
    const auto x0 = x;
    LD n1 = 0, e = 0;
    for (auto v : x) { n1 += labs_(v); e += (LD) v * v; }
    LD eps = epsof<T>(), tol = 8 * eps * (16 + n) * n1 + 1e-37L;
    auto ref = dft(x);
    int bins = half ? n / 2 + 1 : n;
    std::string key = t + (half ? "/half" : "/full");
    if (c.r.chance(0.5)) {
      F.fft(X, x);
      hist += fmt(" fft(%d)", n);
    } else {
      T fs = (T) std::fabs(c.r.logmag(1e-3, 1e4));
      if (c.r.chance(0.15)) fs = (T) (c.r.chance(0.5) ? n : c.r.range(1, 100));
      FREQUENCY_UNIT u = (FREQUENCY_UNIT) c.r.range(0, 5);
      bool def = u == HERTZ && c.r.chance(0.5);
      if (def) F.fft(X, fr, x, fs); else F.fft(X, fr, x, fs, u);
      hist += fmt(" fft(%d,fs,unit%d)", n, (int) u);
      CHECK((int) fr.size() == bins, "frequency-count/" + key, "%d frequencies for %d bins (n %d):%s", (int) fr.size(), bins, n, hist.c_str());
      auto direct = F.GetFrequencyVector((unsigned) n, fs, u);
      CHECK((int) direct.size() == bins, "frequency-count-direct/" + key, "%d frequencies for %d bins (n %d)", (int) direct.size(), bins, n);
      for (int k = (u == S ? 1 : 0); k < bins; k++) {
        LD want = unit_of((LD) fs * k / n, u), ft = 4 * (n + 8) * eps * labs_(want);
        if (k < (int) fr.size()) CHECK(near(fr[k], want, ft), "frequency/" + key, "bin %d of %d fs %g unit %d: %.17g want %.17Lg", k, n, (double) fs, (int) u, (double) fr[k], want);
        if (k < (int) direct.size()) CHECK(near(direct[k], want, ft), "frequency-direct/" + key, "bin %d of %d fs %g unit %d: %.17g want %.17Lg", k, n, (double) fs, (int) u, (double) direct[k], want);
      }
      if (u == S && !fr.empty()) CHECK(fr[0] > 1e30 || std::isinf(fr[0]), "zero-bin-period/" + key, "period of bin 0 is %g", (double) fr[0]);
      c.obs(fmt("unit/%d", (int) u));
    }
    CHECK(x == x0, "input/" + key, "signal modified by the transform");
    CHECK((int) X.size() == bins, "bins/" + key, "%d bins for a signal of %d samples:%s", (int) X.size(), n, hist.c_str());
    if ((int) X.size() != bins) return;
    LD energy = 0;
    for (int k = 0; k < bins; k++) {
      bool ok = near(X[k].real(), ref[k].real(), tol) && near(X[k].imag(), ref[k].imag(), tol);
      CHECK(ok, "spectrum/" + key, "bin %d of %d: (%.17g,%.17g) want (%.17Lg,%.17Lg) after%s", k, n, (double) X[k].real(), (double) X[k].imag(), ref[k].real(), ref[k].imag(), hist.c_str());
      LD w = half && k > 0 && !(n % 2 == 0 && k == n / 2) ? 2 : 1;
      energy += w * ((LD) X[k].real() * X[k].real() + (LD) X[k].imag() * X[k].imag());
    }
    CHECK(near(energy, n * e, 40 * eps * (16 + n) * n1 * n1 + 1e-37L), "energy/" + key, "energy of the spectrum %Lg, n times that of the signal %Lg", energy, n * e);
    c.nontrivial(H().add((double) X[0].real()).add((double) X[bins - 1].real()).add((double) n).h);
    if (!half || n % 2 == 0) {
      const auto X0 = X;
      F.ifft(y, X);
      hist += " ifft";
      CHECK((int) y.size() == n, "inverse-size/" + key, "%d samples rebuilt from %d:%s", (int) y.size(), n, hist.c_str());
      CHECK(X == X0, "inverse-input/" + key, "spectrum modified by the inverse");
      LD s = scaled ? 1 : n;
      if ((int) y.size() == n) for (int i = 0; i < n; i++)
        CHECK(near(y[i], s * x[i], 3 * s * tol), std::string("inverse/") + key + (scaled ? "/scaled" : "/unscaled"), "sample %d of %d: %.17g want %.17Lg after%s", i, n, (double) y[i], s * (LD) x[i], hist.c_str());
      c.obs(std::string("inverse/") + (half ? "half" : "full") + (scaled ? "-scaled" : "-unscaled") + (n % 2 ? "-odd" : "-even"));
    }
    if (c.r.chance(0.3)) {  // linear
      auto z = signal<T>(c.r, n);
      T al = (T) c.r.range(-3, 3), be = (T) c.r.uni(-2, 2);
      std::vector<T> w(n);
      LD m1 = 0;
      for (int i = 0; i < n; i++) { w[i] = al * x[i] + be * z[i]; m1 += labs_(z[i]); }
      std::vector<std::complex<T>> Z, W;
      F.fft(Z, z); F.fft(W, w);
      LD lt = 32 * eps * (16 + n) * (labs_(al) * n1 + labs_(be) * m1) + 1e-37L;
      bool ok = Z.size() == X.size() && W.size() == X.size();
      for (int k = 0; ok && k < bins; k++) ok = near(W[k].real(), (LD) al * X[k].real() + (LD) be * Z[k].real(), lt) && near(W[k].imag(), (LD) al * X[k].imag() + (LD) be * Z[k].imag(), lt);
      CHECK(ok, "linearity/" + key, "transform of a combination of signals of %d samples", n);
      c.obs("linearity");
    }
  }
}
SECTION(double_history, 2000, 40000) { history<double>(c, "double"); }
SECTION(float_history, 1000, 20000) { history<float>(c, "float"); }
SECTION(pow2, 32, 32) {
  unsigned p = (unsigned) (c.idx % 32);
  CHECK(Pow2(p) == (unsigned) ldexp(1., p), "pow2", "Pow2(%u) = %u", p, Pow2(p));
  c.obs("pow2");
}
}  // namespace mon
MON_MAIN
