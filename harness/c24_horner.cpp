// C24: Horner evaluation of a polynomial and of its derivative
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
typedef std::complex<LD> CL;
static void val(const std::vector<double> &a, CL x, CL *v, CL *d, LD *mv, LD *md) {
  LD ax = std::abs(x);
  *v = *d = 0; *mv = *md = 0;
  CL p = 1; LD ap = 1;
  for (size_t i = 0; i < a.size(); i++) {
    *v += (LD) a[i] * p; *mv += labs_(a[i]) * ap;
    if (i + 1 < a.size()) { *d += (LD) (i + 1) * (LD) a[i + 1] * p; *md += (i + 1) * labs_(a[i + 1]) * ap; }
    p *= x; ap *= ax;
  }
}
static std::vector<double> coefs(Rng &r, const char **k) {
  int n = r.chance(0.1) ? 1 : r.chance(0.1) ? 2 : r.chance(0.06) ? (int) r.range(62, r.chance(0.02) ? 5000 : 700) : (int) r.range(1, 61);
  std::vector<double> a(n);
  switch (r.range(0, 5)) {
    case 0: *k = "gaussian"; for (auto &x : a) x = r.gauss(); break;
    case 1: *k = "sparse"; for (auto &x : a) x = r.chance(0.2) ? r.gauss() : 0; break;
    case 2: *k = "alternating"; for (int i = 0; i < n; i++) a[i] = (i % 2 ? -1 : 1) * r.uni(0.5, 2); break;
    case 3: *k = "graded"; for (auto &x : a) x = r.logmag(1e-8, 1e8); break;
    case 4: { *k = "monomial"; for (auto &x : a) x = 0; a[r.range(0, n - 1)] = r.gauss(); break; }
    default: *k = "leading-zero"; for (auto &x : a) x = r.gauss(); a[n - 1] = 0; break;
  }
  if (r.chance(0.25)) { double s = std::ldexp(1., (int) r.range(-300, 300)); for (auto &x : a) x *= s; }
  return a;
}
template<class T> static bool close(T got, CL ref, LD tol);
template<> inline bool close(double g, CL r, LD t) { return near(g, r.real(), t); }
template<> inline bool close(float g, CL r, LD t) { return near(g, r.real(), t); }
template<> inline bool close(long double g, CL r, LD t) { return near(g, r.real(), t); }
template<> inline bool close(std::complex<double> g, CL r, LD t) { return near(g.real(), r.real(), t) && near(g.imag(), r.imag(), t); }
static LD re(double x) { return x; }
static LD re(float x) { return x; }
static LD re(long double x) { return x; }
static LD re(std::complex<double> x) { return x.real(); }
template<class T> static void one(Case &c, const std::vector<double> &a, T x, CL xl, LD eps, const char *type, const char *k) {
  CL v, d; LD mv, md;
  val(a, xl, &v, &d, &mv, &md);
  if (!(mv < 1e290L) || !(md < 1e290L)) return;
  if (sizeof(T) == 4) { LD big = std::max(mv, md); for (double x : a) big = std::max(big, labs_(x)); if (!(big < 1e30L)) return; for (double x : a) if (x != 0 && labs_(x) < 1e-30L) return; }  // representable in single precision
  LD n = (LD) a.size(), tiny = sizeof(T) == 4 ? 1e-36L : 1e-300L;
  const std::vector<double> before = a;
  T gv = Horner<T>(a, x), gd = Horner_derivative<T>(a, x);
  CHECK(close(gv, v, (8 * n + 8) * eps * mv + tiny), std::string("value/") + type, "%s degree %d at (%Lg,%Lg): %.17Lg expected (%.17Lg,%.17Lg); coefficients %s", k, (int) n - 1, xl.real(), xl.imag(), re(gv), v.real(), v.imag(), vs(a).c_str());
  CHECK(close(gd, d, (8 * n + 8) * eps * md + tiny), std::string("derivative/") + type, "%s degree %d at (%Lg,%Lg): %.17Lg expected (%.17Lg,%.17Lg); coefficients %s", k, (int) n - 1, xl.real(), xl.imag(), re(gd), d.real(), d.imag(), vs(a).c_str());
  if (a.size() == 1) { CHECK(gd == T(0), std::string("constant-derivative/") + type, "derivative of a constant is %Lg", re(gd)); c.obs("constant"); }
  CHECK(a == before, "coefficients-changed", "coefficients were altered");
  c.obs(std::string("type/") + type);
  c.obs(std::abs(xl) > 1 ? "outside-unit-disc" : std::abs(xl) == 1 ? "unit-circle" : std::abs(xl) == 0 ? "zero" : "inside-unit-disc");
}
static std::vector<double> polynomial(Case &c, double *x, const char **k) {
  std::vector<double> a = coefs(c.r, k);
  c.obs(std::string("coefficients/") + *k);
  if (a.size() <= 3) c.obs(fmt("degree/%d", (int) a.size() - 1));
  if (a.size() > 50) c.obs("degree/high");
  if (a.size() > 257) c.obs("degree/very-high");
  switch (c.r.range(0, 5)) { case 0: *x = 0; break; case 1: *x = c.r.sign(); break; case 2: *x = c.r.uni(-1, 1); break; case 3: *x = c.r.logmag(1e-6, 1); break; case 4: *x = c.r.logmag(1, 1e3); break; default: *x = (double) c.r.range(-5, 5); }
  if (a.size() > 1 && c.r.chance(0.15)) {  // terms of one size at any point: coefficients that grow as fast as the powers shrink
    int e = (int) c.r.range(-60, 60), m = (int) (800 / a.size());
    e = std::max(-m, std::min(m, e));
    for (size_t i = 0; i < a.size(); i++) a[i] = std::ldexp(c.r.gauss(), -e * (int) i);
    *x = std::ldexp(c.r.uni(-1.5, 1.5), e);
    *k = "balanced";
    c.obs("coefficients/balanced");
  }
  return a;
}
SECTION(horner, 60000, 2000000) {
  const char *k; double x;
  std::vector<double> a = polynomial(c, &x, &k);
  one<double>(c, a, x, CL(x, 0), epsof<double>(), "double", k);
  c.nontrivial(H().add(x).add((double) a.size()).add(a[0]).h);
}
SECTION(horner_float, 40000, 1000000) {
  const char *k; double x;
  std::vector<double> a = polynomial(c, &x, &k);
  float xf = (float) x;
  one<float>(c, a, xf, CL(xf, 0), epsof<float>(), "float", k);
  c.nontrivial(H().add(x).add((double) a.size()).add(a[0]).add("float").h);
}
SECTION(horner_complex, 40000, 1000000) {
  const char *k; double x;
  std::vector<double> a = polynomial(c, &x, &k);
  double y = c.r.chance(0.2) ? 0 : c.r.uni(-1, 1) * (c.r.chance(0.3) ? 20 : 1);
  std::complex<double> z(x, y);
  if (c.r.chance(0.2)) z = std::complex<double>(0, y);
  one<std::complex<double>>(c, a, z, CL(z.real(), z.imag()), 3 * epsof<double>(), "complex", k);
  c.nontrivial(H().add(x).add(y).add((double) a.size()).add(a[0]).h);
}
}  // namespace mon
MON_MAIN
