// C27: signal generators and element-wise helpers
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
static const LD PI_L = 3.141592653589793238462643383279502884L;
typedef std::complex<LD> CL;
template<class T> struct Tn;
template<> struct Tn<float> { static const char *n() { return "float"; } static float rnd(Rng &r) { return (float) (r.chance(0.3) ? r.logmag(1e-6, 1e6) : r.chance(0.1) ? 0 : r.gauss()); } };
template<> struct Tn<double> { static const char *n() { return "double"; } static double rnd(Rng &r) { return r.chance(0.3) ? r.logmag(1e-60, 1e60) : r.chance(0.1) ? 0 : r.gauss(); } };
template<> struct Tn<int> { static const char *n() { return "int"; } static int rnd(Rng &r) { return (int) r.range(-30000, 30000); } };
template<> struct Tn<long long> { static const char *n() { return "long"; } static long long rnd(Rng &r) { return r.range(-1000000000L, 1000000000L); } };
template<> struct Tn<std::complex<double>> { static const char *n() { return "complex"; } static std::complex<double> rnd(Rng &r) { double a = r.gauss(); return {a, r.chance(0.2) ? 0 : r.gauss()}; } };
template<class T> static CL up(T v) { return CL((LD) v, 0); }
template<> inline CL up(std::complex<double> v) { return CL(v.real(), v.imag()); }
template<class T> static LD eps_() { return 0; }
template<> inline LD eps_<float>() { return epsof<float>(); }
template<> inline LD eps_<double>() { return epsof<double>(); }
template<> inline LD eps_<std::complex<double>>() { return epsof<double>(); }
static int len(Rng &r) { return r.chance(0.003) ? (int) r.range(65000, 70000) : r.chance(0.08) ? 0 : r.chance(0.1) ? 1 : r.chance(0.05) ? (int) r.range(1000, 4000) : (int) r.range(2, 40); }
template<class T> static bool el(T g, CL w, LD tol) { return std::abs(up(g) - w) <= tol; }
static std::string cs(CL z) { return fmt("(%.17Lg,%.17Lg)", z.real(), z.imag()); }

template<class T> static void elementwise(Case &c) {
  const std::string t = Tn<T>::n();
  int n = len(c.r);
  std::vector<T> a(n), b(n);
  for (auto &x : a) x = Tn<T>::rnd(c.r);
  for (auto &x : b) x = Tn<T>::rnd(c.r);
  if (c.r.chance(0.1)) b = a;
  const std::vector<T> a0 = a, b0 = b;
  LD e = 4 * eps_<T>();
  if (n == 0) c.obs("empty/" + t);
  if (n == 1) c.obs("one-element/" + t);
  auto each = [&](const std::vector<T> &g, const char *what, const std::function<CL(int)> &w, const std::function<LD(int)> &tol) {
    CHECK((int) g.size() == n, std::string(what) + "-size/" + t, "%d elements from %d", (int) g.size(), n);
    for (int i = 0; i < n && i < (int) g.size(); i++) {
      LD m = tol(i);
      if (!(m < (sizeof(T) == 4 ? 1e30L : 1e290L))) continue;
      CHECK(el(g[i], w(i), m), std::string(what) + "/" + t, "element %d of %d: %s, expected %s", i, n, cs(up(g[i])).c_str(), cs(w(i)).c_str());
    }
    CHECK(a == a0 && b == b0, std::string(what) + "-inputs/" + t, "an input was altered");
  };
  LD tiny = sizeof(T) == 4 ? 1e-36L : 1e-300L;
  auto mag = [&](int i) { return std::abs(up(a0[i])) + std::abs(up(b0[i])); };
  each(Add(a, b), "add", [&](int i) { return up(a0[i]) + up(b0[i]); }, [&](int i) { return e * mag(i); });
  each(Minus(a, b), "minus", [&](int i) { return up(a0[i]) - up(b0[i]); }, [&](int i) { return e * mag(i); });
  each(Mult(a, b), "mult", [&](int i) { return up(a0[i]) * up(b0[i]); }, [&](int i) { return 2 * e * std::abs(up(a0[i])) * std::abs(up(b0[i])) + (eps_<T>() > 0 ? tiny : 0); });
  T s = Tn<T>::rnd(c.r);
  each(AddScalar(a, s), "add-scalar", [&](int i) { return up(a0[i]) + up(s); }, [&](int i) { return e * (std::abs(up(a0[i])) + std::abs(up(s))); });
  std::vector<T> bd = b;
  for (auto &x : bd) if (x == T(0)) x = T(3);
  const std::vector<T> bd0 = bd;
  {
    auto g = Divide(a, bd);
    each(g, "divide", [&](int i) { return eps_<T>() == 0 ? CL(truncl((up(a0[i]) / up(bd0[i])).real()), 0) : up(a0[i]) / up(bd0[i]); },
         [&](int i) { return eps_<T>() == 0 ? (LD) 0 : 4 * e * std::abs(up(a0[i])) / std::abs(up(bd0[i])) + tiny; });
    CHECK(bd == bd0, "divide-inputs/" + t, "the divisor was altered");
  }
  {
    std::vector<T> v = a;
    Scale(v, s);
    each(v, "scale", [&](int i) { return up(a0[i]) * up(s); }, [&](int i) { return 2 * e * std::abs(up(a0[i])) * std::abs(up(s)) + (eps_<T>() > 0 ? tiny : 0); });
    if (n > 0) {  // the factor is an element of the vector itself
      int j = (int) c.r.range(0, n - 1);
      v = a;
      Scale(v, v[j]);
      each(v, "scale-by-own-element", [&](int i) { return up(a0[i]) * up(a0[j]); }, [&](int i) { LD q = std::abs(up(a0[i])) * std::abs(up(a0[j])); return eps_<T>() > 0 ? 2 * e * q + tiny : 0; });
      each(AddScalar(a, a[j]), "add-own-element", [&](int i) { return up(a0[i]) + up(a0[j]); }, [&](int i) { return e * (std::abs(up(a0[i])) + std::abs(up(a0[j]))); });
      // the same object twice, and results stored over their operands
      each(Add(a, a), "add-itself", [&](int i) { return up(a0[i]) + up(a0[i]); }, [&](int i) { return e * 2 * std::abs(up(a0[i])); });
      each(Minus(a, a), "minus-itself", [&](int) { return CL(0); }, [&](int) { return (LD) 0; });
      v = a;
      v = Minus(v, b);
      each(v, "minus-over-operand", [&](int i) { return up(a0[i]) - up(b0[i]); }, [&](int i) { return e * mag(i); });
      c.obs("shared-operands/" + t);
    }
    v = a;
    Negate(v);
    each(v, "negate", [&](int i) { return -up(a0[i]); }, [&](int) { return (LD) 0; });
  }
  CL sum = 0; LD m = 0;
  for (int i = 0; i < n; i++) { sum += up(a0[i]); m += std::abs(up(a0[i])); }
  T g = Sum(a);
  if (m < (sizeof(T) == 4 && eps_<T>() == 0 ? 2e9L : 1e290L)) CHECK(el(g, sum, e * (n + 1) * m), "sum/" + t, "sum of %d elements: %s, expected %s", n, cs(up(g)).c_str(), cs(sum).c_str());
  CHECK(a == a0, "sum-inputs/" + t, "the input was altered");
  c.obs("elementwise/" + t);
  uint64_t h = 1;
  for (int i = 0; i < n; i++) h = hash_bytes(&a0[i], sizeof(T), h);
  c.nontrivial(h);
}
SECTION(vectors_double, 8000, 200000) { elementwise<double>(c); }
SECTION(vectors_float, 3000, 80000) { elementwise<float>(c); }
SECTION(vectors_int, 3000, 80000) { elementwise<int>(c); elementwise<long long>(c); }
SECTION(vectors_complex, 3000, 80000) { elementwise<std::complex<double>>(c); }
SECTION(powers, 6000, 150000) {
  int n = len(c.r);
  std::vector<double> a(n);
  double p = c.r.chance(0.4) ? (double) c.r.range(-4, 6) : c.r.uni(-3, 3);
  for (auto &x : a) { x = c.r.logmag(1e-6, 1e6); if (p != std::floor(p)) x = fabs(x); if (c.r.chance(0.05) && p >= 0) x = 0; }
  if (c.r.chance(0.2)) {  // wide magnitudes
    double mx = std::min(280., 280 / std::max(1., std::fabs(p)));
    for (auto &x : a) { x = std::pow(10., c.r.uni(-mx, mx)); if (p == std::floor(p) && c.r.chance(0.5)) x = -x; }
    c.obs("pow/wide");
  }
  const std::vector<double> a0 = a;
  if (n > 0) {  // the exponent is an element of the vector itself
    std::vector<double> w(n);
    for (auto &x : w) x = c.r.uni(0.1, 4);
    const auto w0 = w;
    int j = (int) c.r.range(0, n - 1);
    Pow(w, w[j]);
    for (int i = 0; i < n; i++) { LD e = powl((LD) w0[i], w0[j]); CHECK(near(w[i], e, 8e-16L * e), "pow-own-element", "%.17g^%.17g = %.17g, expected %.17Lg", w0[i], w0[j], w[i], e); }
  }
  Pow(a, p);
  CHECK((int) a.size() == n, "pow-size", "%d elements from %d", (int) a.size(), n);
  for (int i = 0; i < n && i < (int) a.size(); i++) { LD w = powl((LD) a0[i], p); CHECK(near(a[i], w, 8e-16L * labs_(w) + 1e-315L), "pow", "%.17g^%.17g = %.17g, expected %.17Lg", a0[i], p, a[i], w); }
  std::vector<std::complex<double>> z(n); std::vector<std::complex<double>> z0;
  for (auto &x : z) x = {c.r.gauss(), c.r.gauss()};
  z0 = z;
  std::complex<double> q(c.r.uni(-2, 2), 0);
  Pow(z, q);
  for (int i = 0; i < n; i++) { CL w = std::pow(up(z0[i]), (LD) q.real()); CHECK(el(z[i], w, 1e-13L * std::abs(w)), "pow-complex", "element %d: %s expected %s", i, cs(up(z[i])).c_str(), cs(w).c_str()); }
  c.obs("pow");
  c.nontrivial(H().add(p).add(n ? a0[0] : 0).h);
}
SECTION(size_mismatch, 48, 240) {
  int n = (int) c.r.range(0, 12), m = n;
  while (m == n) m = (int) c.r.range(0, 12);
  std::vector<double> a(n, 1.5), b(m, 2.5);
  int op = (int) (c.idx % 5);
  Quiet q;
  Outcome o = observe([&] { volatile size_t s = 0; switch (op) { case 0: s = Add(a, b).size(); break; case 1: s = Minus(a, b).size(); break; case 2: s = Mult(a, b).size(); break; case 3: s = Divide(a, b).size(); break; default: s = IsClose(a, b); } (void) s; });
  static const char *names[] = {"Add", "Minus", "Mult", "Divide", "IsClose"};
  CHECK(refused(o), std::string("size-mismatch/") + names[op], "%s of %d and %d elements returned (%s)", names[op], n, m, oname(o));
  c.obs(std::string("mismatch/") + names[op] + (n < m ? "/shorter-first" : "/longer-first"));
  c.nontrivial(H().add((double) n).add((double) m).add((double) op).h);
}
template<class T> static std::vector<T> axis(Rng &r, int n, T lo, T step) { std::vector<T> x(n); for (int i = 0; i < n; i++) x[i] = lo + (T) i * step; return x; }
template<class T> static void generators(Case &c) {
  const std::string t = Tn<T>::n();
  LD e = epsof<T>();
  // sinc
  int n = len(c.r);
  std::vector<T> x(n);
  for (auto &v : x) v = c.r.chance(0.15) ? (T) 0 : c.r.chance(0.2) ? (T) ((double) c.r.range(-6, 6) * (double) PI_L) : (T) (c.r.chance(0.3) ? c.r.logmag(1e-9, 1e3) : c.r.uni(-10, 10));
  const std::vector<T> x0 = x;
  auto s = Sinc(x);
  CHECK((int) s.size() == n && x == x0, "sinc-size/" + t, "%d elements from %d", (int) s.size(), n);
  for (int i = 0; i < n && i < (int) s.size(); i++) {
    LD w = x0[i] == 0 ? 1 : sinl(x0[i]) / x0[i], tl = 4 * e * (labs_(w) + (x0[i] == 0 ? 0 : 1 / std::max((LD) 1, labs_(x0[i]))));
    CHECK(near(s[i], w, tl), "sinc/" + t, "sinc(%.17g) = %.17g, expected %.17Lg", (double) x0[i], (double) s[i], w);
    if (x0[i] == 0) c.obs("sinc-zero/" + t);
  }
  // step and door; values on, just below and just above the edges
  n = std::max(n, 1);
  T e1 = (T) c.r.uni(-5, 5), e2 = c.r.chance(0.1) ? e1 : e1 + (T) c.r.uni(0, 5), hgt = (T) (c.r.chance(0.1) ? 0 : c.r.chance(0.3) ? 1 : c.r.gauss() * 5);
  if (hgt == 0) c.obs("zero-height");
  x.assign(n, 0);
  for (auto &v : x) {
    T ed = c.r.chance(0.5) ? e1 : e2;
    switch (c.r.range(0, 4)) { case 0: v = ed; break; case 1: v = ulp_up(ed); break; case 2: v = ulp_down(ed); break; default: v = (T) c.r.uni(-7, 12); }
  }
  const std::vector<T> xs = x;
  auto st = [&](T v, T ed) { return v < ed ? (LD) 0 : v > ed ? (LD) 1 : (LD) 0.5; };
  auto hv = Heaviside(x, e1);
  CHECK((int) hv.size() == n && x == xs, "step-size/" + t, "%d elements from %d", (int) hv.size(), n);
  for (int i = 0; i < n && i < (int) hv.size(); i++) CHECK((LD) hv[i] == st(xs[i], e1), "step/" + t, "step at %.17g of %.17g = %g", (double) e1, (double) xs[i], (double) hv[i]);
  bool dflt = c.r.chance(0.2);
  auto dr = dflt ? Door(x, e1, e2) : Door(x, e1, e2, hgt);
  LD hh = dflt ? 1 : (LD) hgt;
  CHECK((int) dr.size() == n && x == xs, "door-size/" + t, "%d elements from %d", (int) dr.size(), n);
  for (int i = 0; i < n && i < (int) dr.size(); i++) { LD w = (st(xs[i], e1) - st(xs[i], e2)) * hh; CHECK(near(dr[i], w, 2 * e * labs_(w)), "door/" + t, "door [%.17g,%.17g] of height %Lg at %.17g = %.17g, expected %Lg", (double) e1, (double) e2, hh, (double) xs[i], (double) dr[i], w); }
  for (int i = 0; i < n; i++) if (xs[i] == e1 || xs[i] == e2) c.obs("on-edge/" + t);
  // impulse on a regular axis: the one sample within half a step
  int m = (int) (c.r.chance(0.01) ? c.r.range(1000, 5000) : c.r.range(2, 60));
  T lo = (T) c.r.uni(-10, 10), step = (T) std::pow(10., c.r.uni(-2, 1));
  auto ax = axis<T>(c.r, m, lo, step);
  bool reg = true;
  for (int i = 1; i < m; i++) if (!(ax[i] > ax[i - 1])) reg = false;
  if (reg) {
    int at = (int) c.r.range(0, m - 1);
    T imp = ax[at] + (T) (c.r.chance(0.3) ? 0 : c.r.uni(-0.45, 0.45)) * step;
    if (c.r.chance(0.1)) imp = lo - 3 * step;
    const auto ax0 = ax;
    auto di = dflt ? Dirac(ax, imp) : Dirac(ax, imp, hgt);
    CHECK((int) di.size() == m && ax == ax0, "impulse-size/" + t, "%d elements from %d", (int) di.size(), m);
    for (int i = 0; i < m && i < (int) di.size(); i++) {
      LD dist = labs_((LD) ax[i] - imp) / step;
      if (labs_(dist - 0.5L) < 0.02L) continue;
      LD w = dist < 0.5L ? hh : 0;
      CHECK(near(di[i], w, 0), "impulse/" + t, "impulse at %.17g, sample %.17g (step %g) = %.17g, expected %Lg", (double) imp, (double) ax[i], (double) step, (double) di[i], w);
      if (w != 0) c.obs("impulse-hit/" + t);
    }
    // ramp
    if (m >= 3) {
      int i0 = (int) c.r.range(0, m - 2), i1 = (int) c.r.range(i0 + 1, m - 1);
      T a = c.r.chance(0.5) ? ax[i0] : ax[i0] + (T) c.r.uni(0, 0.9) * step, b = c.r.chance(0.5) ? ax[i1] : ax[i1 - 1] + (T) c.r.uni(0.1, 1) * step;
      if (c.r.chance(0.1)) { a = ax[0]; b = ax[m - 1]; }
      if (c.r.chance(0.08)) { b = a; c.obs("ramp-vertical/" + t); }
      T yl = (T) c.r.gauss(), yr = (T) (c.r.chance(0.1) ? yl : c.r.gauss() * 4);
      if (a <= b && a >= ax[0] && b <= ax[m - 1]) {
        auto rp = Ramp(ax, a, b, yl, yr);
        CHECK((int) rp.size() == m && ax == ax0, "ramp-size/" + t, "%d elements from %d", (int) rp.size(), m);
        for (int i = 0; i < m && i < (int) rp.size(); i++) {
          LD v = ax[i], w = v <= a ? (LD) yl : v >= b ? (LD) yr : yl + ((LD) yr - yl) * (v - a) / ((LD) b - a);
          LD cond = b > a ? (labs_(a) + labs_(b) + labs_(v)) / ((LD) b - a) : 1;
          LD tl = 8 * e * (labs_(yl) + labs_(yr)) * (1 + cond);
          if (v <= a || v > b) tl = 2 * e * (labs_(yl) + labs_(yr));
          CHECK(near(rp[i], w, tl), "ramp/" + t, "ramp %.17g..%.17g from %.17g to %.17g at %.17Lg = %.17g, expected %.17Lg", (double) a, (double) b, (double) yl, (double) yr, v, (double) rp[i], w);
        }
        c.obs("ramp/" + t);
      }
    }
  }
  {  // an impulse exactly half-way between two samples belongs to neither; ramps narrower than any step
    int q = (int) c.r.range(2, 40), i0 = (int) c.r.range(0, q - 1);
    T h = (T) std::ldexp(1., (int) c.r.range(-3, 3)), o = h * (T) c.r.range(-20, 20);
    auto ay = axis<T>(c.r, q, o, h);
    T imp = ay[i0] + (c.r.chance(0.5) ? -1 : 1) * h / 2;
    auto di = Dirac(ay, imp, hgt);
    for (int i = 0; i < q && i < (int) di.size(); i++) CHECK(di[i] == 0, "impulse-tie/" + t, "impulse at %.17g, half a step from the samples around it: sample %.17g = %.17g", (double) imp, (double) ay[i], (double) di[i]);
    c.obs("impulse-tie/" + t);
    // just inside half a step: that sample and no other, however long the axis
    bool lng = c.r.chance(0.02);
    int q2 = lng ? (int) c.r.range(1001, 3000) : q, i2 = (int) c.r.range(0, q2 - 1);
    auto az = axis<T>(c.r, q2, o, h);
    T im2 = az[i2] + (c.r.chance(0.5) ? -1 : 1) * (h / 2 - h * (T) (sizeof(T) == 4 ? 1. / 256 : 1. / 65536)), h2 = (T) 1.5;
    auto d2 = Dirac(az, im2, h2);
    for (int i = 0; i < q2 && i < (int) d2.size(); i++) CHECK(d2[i] == (i == i2 ? h2 : (T) 0), "impulse-inside/" + t, "impulse at %.17g, %d samples in steps of %g: sample %.17g = %.17g", (double) im2, q2, (double) h, (double) az[i], (double) d2[i]);
    if (lng) c.obs("impulse-long-axis/" + t);
    double w = std::pow(10., c.r.uni(-12, -3));
    std::vector<T> xr = {(T) 0};
    for (int i = 1; i < 12; i++) xr.push_back((T) (w * i / 11));
    T a = xr[c.r.range(0, 4)], b = xr[c.r.range(6, 11)], yl = (T) c.r.gauss(), yr = (T) c.r.gauss();
    auto rp = Ramp(xr, a, b, yl, yr);
    CHECK(rp.size() == xr.size(), "ramp-size/" + t, "%d elements from %d", (int) rp.size(), (int) xr.size());
    for (size_t i = 0; i < xr.size() && i < rp.size(); i++) {
      LD v = xr[i], r_ = v <= a ? (LD) yl : v >= b ? (LD) yr : yl + ((LD) yr - yl) * (v - a) / ((LD) b - a);
      CHECK(near(rp[i], r_, 64 * e * (labs_(yl) + labs_(yr)) * (1 + (LD) b / ((LD) b - a))), "ramp-narrow/" + t, "ramp %.17g..%.17g from %.17g to %.17g at %.17Lg = %.17g, expected %.17Lg", (double) a, (double) b, (double) yl, (double) yr, v, (double) rp[i], r_);
    }
    c.obs("ramp-narrow/" + t);
  }
  // sinc on a generated axis
  int k = (int) (c.r.chance(0.01) ? c.r.range(1000, 5000) : c.r.range(2, 50));
  T l = (T) c.r.uni(-10, 5), u = l + (T) c.r.uni(0.1, 10);
  auto sg = Sinc<T>(l, u, (unsigned) k);
  CHECK((int) sg.size() == k, "sinc-axis-size/" + t, "%d elements, %d requested", (int) sg.size(), k);
  for (int i = 0; i < k && i < (int) sg.size(); i++) { LD v = l + ((LD) u - l) * i / (k - 1), w = v == 0 ? 1 : sinl(v) / v; CHECK(near(sg[i], w, 16 * e * (1 + labs_(l) + labs_(u))), "sinc-axis/" + t, "sample %d of sinc on [%g,%g]: %.17g, expected %.17Lg", i, (double) l, (double) u, (double) sg[i], w); }
  c.obs("generators/" + t);
  c.nontrivial(H().add((double) e1).add((double) e2).add((double) lo).h);
}
SECTION(generators_double, 6000, 200000) { generators<double>(c); }
SECTION(generators_float, 3000, 80000) { generators<float>(c); }
SECTION(ramp_refusal, 16, 64) {
  std::vector<double> x;
  for (int i = 0; i < 10; i++) x.push_back(i);
  int k = (int) (c.idx % 3);
  Quiet q;
  Outcome o = observe([&] { volatile double v = 0; if (k == 0) v = Ramp(x, 5., 4., 0., 1.)[0]; if (k == 1) v = Ramp(x, -1., 4., 0., 1.)[0]; if (k == 2) v = Ramp(x, 1., 9.5, 0., 1.)[0]; (void) v; });
  CHECK(refused(o), fmt("ramp-refusal/%d", k), "an ill-posed ramp was accepted (%s)", oname(o));
  c.obs("ramp-refusal");
  c.nontrivial((uint64_t) k + 1);
}
template<class T> static void complexes(Case &c) {
  const std::string t = Tn<T>::n();
  int n = len(c.r);
  LD e = epsof<T>();
  double big = sizeof(T) == 4 ? 1e36 : 1e300;
  std::vector<std::complex<T>> z(n);
  for (auto &v : z) {
    double a = c.r.gauss(), b = c.r.gauss();
    switch (c.r.range(0, 6)) { case 0: a = 0; break; case 1: b = 0; break; case 2: a = -fabs(a); break; case 3: { double s = std::pow(10., c.r.uni(-std::log10(big), std::log10(big))); a *= s; b *= s; break; } case 4: b = a * (c.r.chance(0.5) ? 1 : -1); break; default: break; }
    if (fabs(a) > big) a = big;
    if (fabs(b) > big) b = big;
    v = std::complex<T>((T) a, (T) b);
  }
  const auto z0 = z;
  auto re = mathutils::Real(z), im = Imag(z), am = Amplitude(z), ph = Phase(z), phr = Phase(z, RAD), phd = Phase(z, DEG);
  CHECK((int) re.size() == n && (int) im.size() == n && (int) am.size() == n && (int) ph.size() == n && (int) phd.size() == n && z == z0, "complex-size/" + t, "sizes or input changed for %d elements", n);
  if ((int) re.size() != n || (int) im.size() != n || (int) am.size() != n || (int) ph.size() != n || (int) phr.size() != n || (int) phd.size() != n) return;
  for (int i = 0; i < n; i++) {
    LD x = z0[i].real(), y = z0[i].imag(), A = hypotl(x, y), P = atan2l(y, x);
    CHECK(re[i] == z0[i].real(), "real-part/" + t, "%g of (%Lg,%Lg)", (double) re[i], x, y);
    CHECK(im[i] == z0[i].imag(), "imaginary-part/" + t, "%g of (%Lg,%Lg)", (double) im[i], x, y);
    CHECK(near(am[i], A, 4 * e * A), "amplitude/" + t, "amplitude of (%.17Lg,%.17Lg) = %.17g, expected %.17Lg", x, y, (double) am[i], A);
    CHECK(near(ph[i], P, 4 * e * labs_(P)) && ph[i] == phr[i], "phase/" + t, "phase of (%.17Lg,%.17Lg) = %.17g, expected %.17Lg", x, y, (double) ph[i], P);
    CHECK(near(phd[i], P * 180 / PI_L, 6 * e * labs_(P * 180 / PI_L)), "phase-degrees/" + t, "phase of (%.17Lg,%.17Lg) = %.17g degrees, expected %.17Lg", x, y, (double) phd[i], P * 180 / PI_L);
    c.obs(fmt("phase/%s/quadrant%d", t.c_str(), (x < 0) + 2 * (y < 0)));
    if (x == 0 && y != 0) c.obs("phase/vertical");
    if (A > big / 10 || (A > 0 && A < 10 / big)) c.obs("amplitude/extreme");
  }
  c.nontrivial(n ? H().add((double) z0[0].real()).add((double) z0[0].imag()).h : 1);
}
SECTION(complex_double, 6000, 150000) { complexes<double>(c); }
SECTION(complex_float, 3000, 60000) { complexes<float>(c); }
template<class T> static void scalars(Case &c) {
  const std::string t = Tn<T>::n();
  T a = Tn<T>::rnd(c.r), b = Tn<T>::rnd(c.r), v = Tn<T>::rnd(c.r);
  if (c.r.chance(0.2)) a = -b;
  if (b < a) std::swap(a, b);
  if (a == -b) c.obs("saturate/symmetric");
  switch (c.r.range(0, 5)) { case 0: v = a; break; case 1: v = b; break; case 2: v = T(0); break; default: break; }
  T g = Saturate<T>(v, a, b), w = v < a ? a : v > b ? b : v;
  CHECK(g == w, "saturate/" + t, "%.17g in [%.17g,%.17g] gives %.17g", (double) v, (double) a, (double) b, (double) g);
  c.obs(v < a ? "saturate/below" : v > b ? "saturate/above" : "saturate/inside");
  int s = sgn<T>(v);
  CHECK(s == (v > T(0) ? 1 : v < T(0) ? -1 : 0), "sgn/" + t, "sign of %.17g is %d", (double) v, s);
}
SECTION(scalars_, 40000, 1000000) {
  scalars<double>(c); scalars<float>(c); scalars<int>(c); scalars<long long>(c);
  { long long v = (1LL << 53) + 2 * c.r.range(0, 1000) + 1, g = Saturate<long long>(v, -(1LL << 60), 1LL << 60); CHECK(g == v, "saturate-wide", "%lld became %lld", v, g); g = Saturate<long long>(1LL << 61, -v, v); CHECK(g == v, "saturate-wide", "limit %lld became %lld", v, g); c.obs("saturate/wide"); }
  { double v = c.r.chance(0.1) ? 0 : c.r.logmag(1e-200, 1e200), g = SgnSqrt(v); LD w = v < 0 ? -sqrtl(-(LD) v) : sqrtl(v); CHECK(near(g, w, 4e-16L * labs_(w)), "signed-sqrt", "of %.17g is %.17g, expected %.17Lg", v, g, w);
    float f = (float) c.r.logmag(1e-20, 1e20), gf = SgnSqrt(f); LD wf = f < 0 ? -sqrtl(-(LD) f) : sqrtl(f); CHECK(near(gf, wf, 2 * epsof<float>() * labs_(wf)), "signed-sqrt-float", "of %.9g is %.9g, expected %.9Lg", f, gf, wf); }
  // closeness: |a-b| <= atol + rtol |b|
  double b = c.r.chance(0.2) ? 0 : c.r.logmag(1e-9, 1e9), rt = c.r.chance(0.4) ? 1e-5 : std::pow(10., c.r.uni(-10, 0.5)), at = rt == 1e-5 && c.r.chance(0.7) ? 1e-8 : c.r.chance(0.2) ? 0 : std::pow(10., c.r.uni(-12, 1));
  LD lim = (LD) at + (LD) rt * labs_(b);
  double f = c.r.pick(std::vector<double>{0, 0.5, 0.999, 1.001, 1.5, 3, 100}), a = (double) (b + c.r.sign() * f * lim);
  LD d = labs_((LD) a - b);
  if (labs_(d - lim) > 1e-13L * (labs_(a) + labs_(b) + lim)) {
    bool w = d <= lim, g = rt == 1e-5 && at == 1e-8 ? IsClose(a, b) : IsClose(a, b, rt, at);
    CHECK(g == w, w ? "isclose-rejects" : "isclose-accepts", "IsClose(%.17g,%.17g,%g,%g) = %d", a, b, rt, at, (int) g);
    c.obs(w ? "close" : "not-close");
    if (rt == 1e-5 && at == 1e-8) c.obs("close-default");
    // vectors: every element
    int n = (int) (c.r.chance(0.01) ? c.r.range(300, 3000) : c.r.range(1, 8)), at_i = (int) c.r.range(0, n - 1);
    std::vector<double> va(n), vb(n);
    for (int i = 0; i < n; i++) va[i] = vb[i] = c.r.gauss();
    va[at_i] = a; vb[at_i] = b;
    bool gv = rt == 1e-5 && at == 1e-8 ? IsClose(va, vb) : IsClose(va, vb, rt, at);
    CHECK(gv == w, "isclose-vector", "vectors of %d, element %d %s: %d", n, at_i, w ? "close" : "not close", (int) gv);
  }
  // exactly at the limit, in numbers that sum without rounding
  {
    double b2 = std::ldexp((double) c.r.range(-64, 64), -4), at2 = std::ldexp((double) c.r.range(0, 64), -5), rt2 = c.r.chance(0.3) ? 0 : std::ldexp((double) c.r.range(0, 8), -3);
    double lim2 = at2 + rt2 * std::fabs(b2), a2 = b2 + c.r.sign() * lim2;
    CHECK(IsClose(a2, b2, rt2, at2), "isclose-limit", "IsClose(%.17g,%.17g,%g,%g) is false at the limit", a2, b2, rt2, at2);
    CHECK(!IsClose(a2 + (a2 < b2 ? -1 : 1) * std::ldexp(1., -20), b2, rt2, at2), "isclose-limit", "IsClose is true beyond the limit of (%.17g,%.17g,%g,%g)", a2, b2, rt2, at2);
    if (lim2 > 0) c.obs("close-at-limit");
  }
  long p = c.r.range(-1000000, 1000000);
  CHECK(is_odd(p) == (((p % 2) + 2) % 2 == 1) && is_even(p) == !is_odd(p), "parity", "parity of %ld: odd %d even %d", p, (int) is_odd(p), (int) is_even(p));
  unsigned pu = (unsigned) c.r.range(0, 4000000000L);
  CHECK(is_odd(pu) == (pu % 2 == 1) && is_even(pu) == (pu % 2 == 0), "parity-unsigned", "parity of %u", pu);
  c.obs(p < 0 ? "parity/negative" : "parity/positive");
  c.nontrivial(H().add(a).add(b).h);
}
SECTION(assertions, 32, 128) {
  bool close = c.idx % 2, vec = (c.idx / 2) % 2;
  double b = c.r.gauss() + 2, a = close ? b * (1 + 1e-7) : b * (1 + 1e-3);
  Quiet q;
  Outcome o = observe([&] { if (vec) AssertIsClose(std::vector<double>{1., a}, std::vector<double>{1., b}); else AssertIsClose(a, b); });
  CHECK(close ? !refused(o) : refused(o), close ? "assert-close-refused" : "assert-far-accepted", "AssertIsClose(%.17g,%.17g) %s", a, b, oname(o));
  c.obs("assertion");
  c.nontrivial(H().add(a).h);
}
}  // namespace mon
MON_MAIN
