// C17: 1D integration
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
typedef std::complex<double> cd;
typedef std::complex<LD> cl;
template<class T> cl L(T v) { return cl((LD) v, 0); }
template<> cl L(cd v) { return cl(v.real(), v.imag()); }
template<class T> struct Nm { static const char *s() { return "double"; } static double tol() { return DBL_EPSILON; } };
template<> struct Nm<float> { static const char *s() { return "float"; } static double tol() { return FLT_EPSILON; } };
template<> struct Nm<cd> { static const char *s() { return "complex"; } static double tol() { return DBL_EPSILON; } };
template<class T> T rnd(Rng &r) { return (T) r.value(); }
template<> cd rnd(Rng &r) { double a = r.value(); return cd(a, r.value()); }

/// panel-wise reference and the magnitude of its terms
template<class T> cl panels(const std::vector<T> &x, const std::vector<T> &y, LD &mag) {
  cl s = 0;
  mag = 0;
  for (size_t i = 1; i < y.size(); i++) {
    cl h = L(x[i]) - L(x[i - 1]);
    s += (LD) 0.5 * h * (L(y[i]) + L(y[i - 1]));
    mag += std::abs(h) * (std::abs(L(y[i])) + std::abs(L(y[i - 1])));
  }
  return s;
}
template<class T> cl panels(T dx, const std::vector<T> &y, LD &mag) {
  cl s = 0;
  mag = 0;
  for (size_t i = 1; i < y.size(); i++) {
    s += (LD) 0.5 * L(dx) * (L(y[i]) + L(y[i - 1]));
    mag += std::abs(L(dx)) * (std::abs(L(y[i])) + std::abs(L(y[i - 1])));
  }
  return s;
}
template<class T> bool close(T got, cl want, LD tol) { return near(L(got).real(), want.real(), tol) && near(L(got).imag(), want.imag(), tol); }

static int count_of(Rng &r) { long k = r.range(0, 9); return k == 0 ? 2 : k == 1 ? 3 : k == 2 ? (int) (r.chance(0.03) ? r.range(65000, 70000) : r.range(500, 3000)) : (int) r.range(2, 60); }

template<class T> void trapz(Case &c) {
  std::string t = Nm<T>::s();
  int n = count_of(c.r);
  std::vector<T> y(n), x(n);
  int kind = (int) c.r.range(0, 3);
  double A = c.r.value(), B = c.r.value();
  {
    auto ax = sorted_axis<float>(c.r, n);
    for (int i = 0; i < n; i++) x[i] = (T) ax[i];
    if (c.r.chance(0.25)) { double sx = c.r.chance(0.5) ? 1e-12 : 1e9; for (auto &v : x) v *= (T) sx; c.obs("abscissas/extreme-scale"); }
    int ord = (int) c.r.range(0, 3);
    if (ord == 0) { std::reverse(x.begin(), x.end()); c.obs("abscissas/decreasing"); }
    else if (ord == 1) { for (int i = n - 1; i > 0; i--) std::swap(x[i], x[c.r.range(0, i)]); c.obs("abscissas/back-and-forth"); }
    else c.obs("abscissas/increasing");
  }
  for (int i = 0; i < n; i++) {
    switch (kind) {
      case 0: y[i] = rnd<T>(c.r); break;
      case 1: y[i] = rnd<T>(c.r) * (T) (i % 2 ? -1e3 : 1e3); break;   // cancelling
      case 2: y[i] = (T) A * x[i] + (T) B; break;                   // affine
      default: y[i] = c.r.chance(0.8) ? T(0) : rnd<T>(c.r); break;
    }
  }
  LD u = (8 + n) * (LD) Nm<T>::tol(), mag;
  cl ref = panels(x, y, mag);
  const auto x0 = x, y0 = y;
  T got = Trapz(x, y);
  CHECK(close(got, ref, u * mag), "trapz-xy/" + t, "n = %d got %.17Lg want %.17Lg (magnitude %Lg)", n, L(got).real(), ref.real(), mag);
  CHECK(x == x0 && y == y0, "trapz-input/" + t, "inputs modified");
  if (kind == 2) {  // exact integral of affine data: A (b^2 - a^2)/2 + B (b - a)
    LD a = L(x[0]).real(), b = L(x[n - 1]).real();
    LD ex = (LD) (T(A) == T(A) ? L((T) A).real() : 0) * (b - a) * (a + b) / 2 + L((T) B).real() * (b - a);
    CHECK(close(got, cl(ex, 0), 4 * u * mag), "trapz-affine/" + t, "n = %d got %.17Lg want %.17Lg", n, L(got).real(), ex);
    c.obs("affine");
  }
  if (n >= 3) {  // additive over adjacent ranges
    int k = (int) c.r.range(1, n - 2);
    T l = Trapz(std::vector<T>(x.begin(), x.begin() + k + 1), std::vector<T>(y.begin(), y.begin() + k + 1));
    T r = Trapz(std::vector<T>(x.begin() + k, x.end()), std::vector<T>(y.begin() + k, y.end()));
    CHECK(close(got, L(l) + L(r), 3 * u * mag), "trapz-additive/" + t, "whole %.17Lg parts %.17Lg + %.17Lg (n %d split %d)", L(got).real(), L(l).real(), L(r).real(), n, k);
  }
  {  // linear
    std::vector<T> z(n), w(n);
    T al = rnd<T>(c.r), be = rnd<T>(c.r);
    for (int i = 0; i < n; i++) { z[i] = rnd<T>(c.r); w[i] = al * y[i] + be * z[i]; }
    LD mz;
    panels(x, z, mz);
    cl want = L(al) * L(got) + L(be) * L(Trapz(x, z));
    CHECK(close(Trapz(x, w), want, 6 * u * (std::abs(L(al)) * mag + std::abs(L(be)) * mz)), "trapz-linear/" + t, "not linear in the ordinates (n %d)", n);
  }
  // constant step
  T dx = rnd<T>(c.r);
  if (c.r.chance(0.1)) dx = T(1);
  cl r2 = panels(dx, y, mag);
  T g2 = Trapz(y, dx);
  CHECK(close(g2, r2, u * mag), "trapz-step/" + t, "n = %d dx %.17Lg got %.17Lg want %.17Lg", n, L(dx).real(), L(g2).real(), r2.real());
  T g3 = Trapz(y);
  cl r3 = panels(T(1), y, mag);
  CHECK(close(g3, r3, u * mag), "trapz-default-step/" + t, "n = %d got %.17Lg want %.17Lg", n, L(g3).real(), r3.real());
  CHECK(y == y0, "trapz-input/" + t, "inputs modified");
  c.obs("trapz/" + t);
  if (n == 2) c.obs("two-samples");
  c.nontrivial(hash_bytes(y.data(), n * sizeof(T)));
}
SECTION(trapz_double, 20000, 400000) { trapz<double>(c); }
SECTION(trapz_float, 8000, 100000) { trapz<float>(c); }
SECTION(trapz_complex, 8000, 100000) { trapz<cd>(c); }

// ---- integrator objects. The integrand is a plain function pointer: parameters are globals.
static double g_a, g_b, g_c;
static int g_kind;
static LD fun_l(LD x) {
  switch (g_kind) {
    case 0: return g_a * x + g_b;
    case 1: return g_a * x * x + g_b * x + g_c;
    case 2: return g_a * sinl(g_b * x) + g_c;
    default: return g_a / (1 + x * x) + g_b;
  }
}
static LD lip(LD m) {  // bound on the slope over |x| <= m
  switch (g_kind) {
    case 0: return fabs(g_a);
    case 1: return 2 * fabs(g_a) * m + fabs(g_b);
    case 2: return fabs(g_a * g_b);
    default: return fabs(g_a);
  }
}
static double fun_d(double x) { return (double) fun_l(x); }
static float fun_f(float x) { return (float) fun_l(x); }
static cd fun_c(cd x) { return cd((double) fun_l(x.real()), (double) (2 * fun_l(x.real()))); }
template<class T> struct Fn;
template<> struct Fn<double> { static double (*p())(double) { return fun_d; } static cl at(LD x) { return cl(fun_l(x), 0); } };
template<> struct Fn<float> { static float (*p())(float) { return fun_f; } static cl at(LD x) { return cl(fun_l(x), 0); } };
template<> struct Fn<cd> { static cd (*p())(cd) { return fun_c; } static cl at(LD x) { LD v = fun_l(x); return cl(v, 2 * v); } };

template<class T> void integrator(Case &c) {
  std::string t = Nm<T>::s();
  g_a = c.r.value(); g_b = c.r.value(); g_c = c.r.value(); g_kind = (int) c.r.range(0, 3);
  int n = c.r.chance(0.05) ? (int) c.r.range(1000, c.r.chance(0.05) ? 70000 : 5000) : (int) c.r.range(2, 40);
  bool isf = c.r.chance(0.5);
  // ranges of every scale: what counts is that bounds changed, not by how much
  int sck = (int) c.r.range(0, 5);
  const double sc = sck == 0 ? 1e-12 : sck == 1 ? 1e-6 : sck == 2 ? 1e9 : 1;
  auto bound = [&]() { return (T) (float) (sc * c.r.value()); };
  if (sc < 1) c.obs("tiny-range");
  if (sc > 1) { c.obs("huge-range"); g_a = (float) (g_a * 1e-9); if (g_kind == 1) g_kind = 0; if (g_kind == 2) g_b *= 1e-9; }
  T lo = bound(), hi = c.r.chance(0.8) ? (T) (float) (L(lo).real() + sc * c.r.uni(0.1, 10)) : bound();
  std::vector<T> y(n);
  for (auto &v : y) v = rnd<T>(c.r);
  std::vector<T> yy = y;
  Integrate1d<T> it = isf ? Integrate1d<T>(Fn<T>::p(), lo, hi, (unsigned) n) : Integrate1d<T>(yy, lo, hi, (unsigned) n);
  if (!isf && c.r.chance(0.5)) { std::fill(yy.begin(), yy.end(), T(1e30)); c.obs("source-vector-changed-later"); }   // the integrator owns its samples
  c.obs(std::string(isf ? "integrator/function/" : "integrator/samples/") + t);
  bool newton = false, queried = false;
  std::string hist = isf ? "function" : "samples";
  auto expect = [&](LD &tol) {
    LD a = L(lo).real(), b = L(hi).real(), h = (b - a) / (n - 1), mag = 0;
    cl s = 0;
    LD u = (LD) Nm<T>::tol();
    LD m = std::max(labs_(a), labs_(b));
    for (int i = 1; i < n; i++) {
      cl l = isf ? Fn<T>::at(a + (i - 1) * h) : L(y[i - 1]), r = isf ? Fn<T>::at(a + i * h) : L(y[i]);
      s += (LD) 0.5 * h * (l + r);
      mag += labs_(h) * (std::abs(l) + std::abs(r));
    }
    // rounding of the sum, plus accumulated abscissa rounding through the slope of the integrand
    tol = (8 + n) * u * mag + (isf ? 3 * labs_(b - a) * lip(m) * 2 * n * u * (m + labs_(b - a)) : 0);
    return s;
  };
  int ops = (int) c.r.range(2, 14);
  auto nudge = [&](T v) { c.obs("nudged-bound"); return (T) (double) (L(v).real() * (1 + (c.r.chance(0.5) ? 1 : -1) * std::pow(10, -c.r.uni(5, 13)))); };
  for (int k = 0; k < ops; k++) {
    switch (c.r.range(0, 5)) {
      case 0: lo = c.r.chance(0.05) ? hi : c.r.chance(0.2) ? nudge(lo) : c.r.chance(0.1) ? (T) (float) (L(lo).real() + sc * 1e-4 * c.r.uni(-1, 1)) : bound(); it.SetXmin(lo); hist += " SetXmin"; c.obs(queried ? "op/SetXmin-after-query" : "op/SetXmin"); break;
      case 1: hi = c.r.chance(0.05) ? lo : c.r.chance(0.2) ? nudge(hi) : c.r.chance(0.1) ? (T) (float) (L(hi).real() + sc * 1e-4 * c.r.uni(-1, 1)) : bound(); it.SetXmax(hi); hist += " SetXmax"; c.obs(queried ? "op/SetXmax-after-query" : "op/SetXmax"); break;
      case 2: if (c.r.chance(0.4)) { newton = !newton; it.SetIntegrationMethod(newton ? NEWTON_COTES : TRAPEZOIDAL); hist += newton ? " Newton" : " Trapezoidal"; c.obs(queried && newton ? "op/newton-after-query" : "op/method"); break; }  // fallthrough
      default: break;
    }
    CHECK(it.GetXmin() == lo && it.GetXmax() == hi && it.GetIntegrationMethod() == (newton ? NEWTON_COTES : TRAPEZOIDAL), "getters/" + t, "bounds or method not those set: %s", hist.c_str());
    if (c.r.chance(0.7)) {
      if (newton) {
        bool thrown = false;
        T v = T(0);
        try { v = it.Get(); } catch (...) { thrown = true; }
        CHECK(thrown, "unimplemented-method-accepted/" + t, "a value %Lg is returned for the unimplemented method after:%s", L(v).real(), hist.c_str());
        c.obs("newton-refused");
      } else {
        LD tol;
        cl want = expect(tol);
        T v = it.Get(), w = it.Get();
        CHECK(close(v, want, tol), std::string(isf ? "integrator-function/" : "integrator-samples/") + t, "got %.17Lg want %.17Lg tol %Lg n %d bounds %Lg %Lg kind %d after: %s", L(v).real(), want.real(), tol, n, L(lo).real(), L(hi).real(), g_kind, hist.c_str());
        CHECK(v == w, "repeat-query/" + t, "two queries differ after: %s", hist.c_str());
        if (c.r.chance(0.2)) { Integrate1d<T> cp = it; CHECK(cp.Get() == v, "copied-integrator/" + t, "copy gives another value"); }
        queried = true;
        c.nontrivial(H().add((double) L(v).real()).add((double) n).h);
      }
      hist += " Get";
    }
  }
}
SECTION(integrator_double, 12000, 300000) { integrator<double>(c); }
SECTION(integrator_float, 4000, 60000) { integrator<float>(c); }
SECTION(integrator_complex, 4000, 60000) { integrator<cd>(c); }
}  // namespace mon
MON_MAIN
