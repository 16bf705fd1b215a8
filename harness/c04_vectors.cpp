// C04: vector classes
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
static const LD PI_L = 3.141592653589793238462643383279502884L;

static std::vector<double> vals(Rng &r, int n) {
  std::vector<double> v(n);
  int kind = (int) r.range(0, 6);
  for (int i = 0; i < n; i++) {
    switch (kind) {
      case 0: v[i] = r.range(-3, 3); break;                 // many repeats and zeros
      case 1: v[i] = r.gauss(); break;
      case 2: v[i] = -std::fabs(r.gauss()) - 0.1; break;    // all negative
      case 3: v[i] = r.logmag(1e-8, 1e8); break;
      case 4: v[i] = std::fabs(r.gauss()); break;
      case 5: v[i] = r.gauss() * (i == 0 ? -100 : 1); break; // negative dominant
      default: v[i] = r.chance(0.8) ? 0 : r.value();
    }
  }
  if (r.chance(0.25)) { double s = std::ldexp(1., (int) r.range(-330, 330)); for (auto &x : v) x *= s; }  // any order of magnitude
  return v;
}
static double maxabs(const std::vector<double> &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }

template<class V> void common(Case &c, V &w, const std::vector<double> &x, const char *tn) {
  int n = (int) x.size();
  const V &cw = w;
  bool ok = true;
  for (int i = 0; i < n; i++) ok = ok && w[i] == x[i] && cw.at(i) == x[i] && w.at(i) == x[i] && cw(i) == x[i];
  CHECK(ok, std::string("stored/") + tn, "%s does not hold the coefficients it was given: %s", tn, vs(x).c_str());
  int k = (int) c.r.range(0, n - 1);
  w.at(k) = 123.5;
  bool ok2 = true;
  for (int i = 0; i < n; i++) ok2 = ok2 && w[i] == (i == k ? 123.5 : x[i]);
  CHECK(ok2, std::string("at-write/") + tn, "writing through at(%d)", k);
  w.at(k) = x[k];
  double m = maxabs(x);
  CHECK(w.infNorm() == m, std::string("infNorm/") + tn, "infNorm(%s) = %.17g, expected %.17g", vs(x).c_str(), (double) w.infNorm(), m);
  c.obs(std::string("infNorm/") + tn);
  // equality with relative tolerance
  LD nrm = 0; for (double v : x) nrm += (LD) v * v; nrm = sqrtl(nrm);
  V o = w;
  CHECK(w.IsEqual(o), std::string("IsEqual-self/") + tn, "vector differs from its copy %s", vs(x).c_str());
  if (nrm > 0) {
    o.at(k) = x[k] + 1e-3 * (double) nrm;
    CHECK(!w.IsEqual(o) && !o.IsEqual(w), std::string("IsEqual-far/") + tn, "IsEqual true for a 1e-3 relative change of one coefficient of %s", vs(x).c_str());
    CHECK(w.IsEqual(o, 1e-2), std::string("IsEqual-eps/") + tn, "IsEqual(eps=1e-2) false for a 1e-3 relative change of %s", vs(x).c_str());
    o.at(k) = x[k] + 1e-14 * (double) nrm;
    CHECK(w.IsEqual(o), std::string("IsEqual-near/") + tn, "IsEqual false for a 1e-14 relative change of %s", vs(x).c_str());
    o.at(k) = x[k] - 1e-9 * (double) nrm;
    CHECK(!w.IsEqual(o), std::string("IsEqual-default-eps/") + tn, "IsEqual true for a 1e-9 relative change of %s", vs(x).c_str());
    // any tolerance, the change spread over any coefficients: equal below it, different above it
    double eps = std::pow(10., c.r.uni(-9, -1.5));
    std::vector<LD> d(n); LD dn = 0;
    bool one = c.r.chance(0.3), even = c.r.chance(0.5);
    for (int i = 0; i < n; i++) { d[i] = one ? (i == k) : even ? 1 : c.r.gauss(); dn += d[i] * d[i]; }
    dn = sqrtl(dn);
    if (dn > 0) {
      auto moved = [&](LD f) { V q = w; LD qn = 0, df = 0; for (int i = 0; i < n; i++) { q.at(i) = (double) (x[i] + d[i] / dn * nrm * eps * f); qn += (LD) q[i] * q[i]; LD e = (LD) q[i] - x[i]; df += e * e; }
        LD ratio = sqrtl(df) / (eps * std::min(nrm, sqrtl(qn))); return std::make_pair(q, ratio); };
      auto in = moved(0.9L), out = moved(1.15L);
      if (in.second < 0.97L) { CHECK(w.IsEqual(in.first, eps) && in.first.IsEqual(w, eps), std::string("IsEqual-within/") + tn, "IsEqual(eps=%g) false for a change of %.3Lf eps of %s", eps, in.second, vs(x).c_str()); c.obs(std::string("IsEqual-within/") + tn); }
      if (out.second > 1.03L) { CHECK(!w.IsEqual(out.first, eps) && !out.first.IsEqual(w, eps), std::string("IsEqual-beyond/") + tn, "IsEqual(eps=%g) true for a change of %.3Lf eps of %s", eps, out.second, vs(x).c_str()); c.obs(std::string("IsEqual-beyond/") + tn); }
    }
  }
  c.nontrivial(H().add(x).add(tn).h);
}
template<class V> void nulling(V &w, int n, const char *tn) {
  w.SetNull();
  bool z = true;
  for (int i = 0; i < n; i++) z = z && w[i] == typename V::Scalar(0);
  CHECK(z, std::string("SetNull/") + tn, "SetNull leaves coefficients");
}
// construct over dirty storage so that a missing initialisation is visible
template<class V> void ctor_null(int n, const char *tn) {
  alignas(64) unsigned char buf[sizeof(V)];
  memset(buf, 0x5a, sizeof buf);
  V *p = new(buf) V();
  bool z = true;
  for (int i = 0; i < n; i++) z = z && (*p)[i] == typename V::Scalar(0);
  CHECK(z, std::string("ctor-null/") + tn, "default constructed %s is not null", tn);
  p->~V();
}

SECTION(fixed, 30000, 400000) {
  Rng &r = c.r;
  { auto x = vals(r, 2); Vector2d<double> w(x[0], x[1]); common(c, w, x, "Vector2d"); Vector2d<double> u; u.Set(x[0], x[1]); CHECK(u == w, "Set/Vector2d", "Set"); nulling(w, 2, "Vector2d"); ctor_null<Vector2d<double>>(2, "Vector2d"); }
  { auto x = vals(r, 3); Vector3d<double> w(x[0], x[1], x[2]); common(c, w, x, "Vector3d"); Vector3d<double> u; u.Set(x[0], x[1], x[2]); CHECK(u == w, "Set/Vector3d", "Set"); nulling(w, 3, "Vector3d"); ctor_null<Vector3d<double>>(3, "Vector3d"); }
  { auto x = vals(r, 6); Vector6d<double> w(x[0], x[1], x[2], x[3], x[4], x[5]); common(c, w, x, "Vector6d"); Vector6d<double> u; u.Set(x[0], x[1], x[2], x[3], x[4], x[5]); CHECK(u == w, "Set/Vector6d", "Set"); nulling(w, 6, "Vector6d"); ctor_null<Vector6d<double>>(6, "Vector6d"); }
  {
    int n = (int) r.range(1, 20);
    auto x = vals(r, n);
    VectorN<double> w(n);
    for (int i = 0; i < n; i++) w[i] = x[i];
    common(c, w, x, "VectorN");
    nulling(w, n, "VectorN");
    w.SetOnes();
    bool o = true; for (int i = 0; i < n; i++) o = o && w[i] == 1;
    CHECK(o && w.size() == n, "SetOnes/VectorN", "SetOnes");
    w.Randomize();
    bool b = true; for (int i = 0; i < n; i++) b = b && w[i] >= -1 && w[i] <= 1;
    CHECK(b && w.size() == n, "Randomize/VectorN", "Randomize");
  }
  // assignment from expressions
  { auto x = vals(r, 3), y = vals(r, 3); Vector3d<double> a(x[0], x[1], x[2]), b(y[0], y[1], y[2]), s; s = a + 2 * b; bool ok = true;
    for (int i = 0; i < 3; i++) ok = ok && near(s[i], (LD) x[i] + 2 * (LD) y[i], 4e-16L * (labs_(x[i]) + 2 * labs_(y[i]))); CHECK(ok, "expr/Vector3d", "a+2b"); Vector3d<double> t(a - b); for (int i = 0; i < 3; i++) CHECK(t[i] == x[i] - y[i], "expr-ctor/Vector3d", "a-b"); }
  { auto x = vals(r, 2), y = vals(r, 2); Vector2d<double> a(x[0], x[1]), b(y[0], y[1]), s; s = a + b; CHECK(s[0] == x[0] + y[0] && s[1] == x[1] + y[1], "expr/Vector2d", "a+b"); }
  { auto x = vals(r, 6); Vector6d<double> a(x[0], x[1], x[2], x[3], x[4], x[5]), s; s = 2 * a; for (int i = 0; i < 6; i++) CHECK(s[i] == 2 * x[i], "expr/Vector6d", "2a"); }
}

SECTION(products, 30000, 300000) {
  Rng &r = c.r;
  auto x = vals(r, 3), y = vals(r, 3);
  Vector3d<double> a(x[0], x[1], x[2]), b(y[0], y[1], y[2]);
  auto O = outer(a, b); auto O2 = outer(a);
  bool ok = true, ok2 = true;
  LD in = 0, mag = 0;
  for (int i = 0; i < 3; i++) { in += (LD) x[i] * y[i]; mag += labs_((LD) x[i] * y[i]); for (int j = 0; j < 3; j++) { ok = ok && O(i, j) == x[i] * y[j]; ok2 = ok2 && O2(i, j) == x[i] * x[j]; } }
  CHECK(ok, "outer/3", "outer(%s,%s)", vs(x).c_str(), vs(y).c_str());
  CHECK(ok2, "outer-self/3", "outer(%s)", vs(x).c_str());
  CHECK(near(inner(a, b), in, 8e-16L * mag), "inner/3", "inner(%s,%s)=%.17g", vs(x).c_str(), vs(y).c_str(), inner(a, b));
  c.obs("outer/3");
  auto p = vals(r, 6), q = vals(r, 6);
  Vector6d<double> e(p[0], p[1], p[2], p[3], p[4], p[5]), f(q[0], q[1], q[2], q[3], q[4], q[5]);
  auto O6 = outer(e, f); auto O62 = outer(e);
  ok = ok2 = true; in = mag = 0;
  for (int i = 0; i < 6; i++) { in += (LD) p[i] * q[i]; mag += labs_((LD) p[i] * q[i]); for (int j = 0; j < 6; j++) { ok = ok && O6(i, j) == p[i] * q[j]; ok2 = ok2 && O62(i, j) == p[i] * p[j]; } }
  CHECK(ok, "outer/6", "outer 6");
  CHECK(ok2, "outer-self/6", "outer self 6");
  CHECK(near(inner(e, f), in, 8e-16L * mag), "inner/6", "inner 6");
  // normalise / unit
  LD n = sqrtl((LD) x[0] * x[0] + (LD) x[1] * x[1] + (LD) x[2] * x[2]);
  if (n > 0) {
    Vector3d<double> u = a; u.Normalize();
    ok = true; for (int i = 0; i < 3; i++) ok = ok && near(u[i], x[i] / n, 1e-15L);
    CHECK(ok, "Normalize", "Normalize(%s) = (%.17g,%.17g,%.17g)", vs(x).c_str(), u[0], u[1], u[2]);
    CHECK(u.IsUnit(), "IsUnit-true", "normalised vector not unit: %s", vs(x).c_str());
    Vector3d<double> s = u * (r.chance(0.3) ? 1 + r.uni(1.1e-5, 1e-4) * r.sign() : r.chance(0.5) ? 1 + r.uni(1e-4, 2) : 1 - r.uni(1e-4, 0.99));
    CHECK(!s.IsUnit(), "IsUnit-false", "IsUnit true for norm %.9g", s.norm());
    Vector3d<double> s2 = u * (1 + r.uni(0, 0.9e-5) * r.sign());
    CHECK(s2.IsUnit(), "IsUnit-near", "IsUnit false for norm %.12g", s2.norm());
    c.obs("unit");
  }
  {  // coefficients among -1, 0, 1 and one of any size
    double w[3];
    for (auto &y : w) y = (double) r.range(-1, 1);
    if (r.chance(0.7)) w[r.range(0, 2)] = r.chance(0.5) ? r.uni(-2, 2) : r.sign() * std::pow(10., r.uni(-4, 3));
    LD wn = sqrtl((LD) w[0] * w[0] + (LD) w[1] * w[1] + (LD) w[2] * w[2]);
    Vector3d<double> q(w[0], w[1], w[2]);
    if (labs_(wn - 1) < 0.9e-5L) CHECK(q.IsUnit(), "IsUnit-special-true", "(%.17g,%.17g,%.17g) not unit", w[0], w[1], w[2]);
    else if (labs_(wn - 1) > 1.1e-5L * std::max(wn, 1.L)) CHECK(!q.IsUnit(), "IsUnit-special-false", "(%.17g,%.17g,%.17g) unit", w[0], w[1], w[2]);
    c.obs("unit/special");
  }
  // projected angles
  for (int k = 0; k < 3; k++) {
    double h = k == 0 ? x[1] : k == 1 ? x[2] : x[0], v = k == 0 ? x[2] : k == 1 ? x[0] : x[1];
    if (h == 0 && v == 0) continue;
    LD t = atan2l(v, h);
    double gr = k == 0 ? a.GetProjectedAngleAroundX(RAD) : k == 1 ? a.GetProjectedAngleAroundY(RAD) : a.GetProjectedAngleAroundZ(RAD);
    double gd = k == 0 ? a.GetProjectedAngleAroundX(DEG) : k == 1 ? a.GetProjectedAngleAroundY(DEG) : a.GetProjectedAngleAroundZ(DEG);
    auto closeang = [&](LD g, LD w, LD turn) { LD d = fabsl(g - w); return d <= 4e-15L * turn || (h < 0 && fabsl(d - turn) <= 4e-15L * turn); };
    CHECK(closeang(gr, t, 2 * PI_L), fmt("projected-angle-rad/%d", k), "axis %d of %s: %.17g, expected %.17Lg", k, vs(x).c_str(), gr, t);
    CHECK(closeang(gd, t * 180 / PI_L, 360), fmt("projected-angle-deg/%d", k), "axis %d of %s: %.17g, expected %.17Lg", k, vs(x).c_str(), gd, t * 180 / PI_L);
    c.obs(fmt("projected-angle/%d/quadrant%d", k, (h < 0) * 2 + (v < 0)));
  }
  c.nontrivial(H().add(x).add(y).h);
}

SECTION(dynamic, 20000, 200000) {
  Rng &r = c.r;
  int n = (int) r.range(1, 40);
  if (r.chance(0.05)) n = (int) r.range(200, 600);
  if (c.idx % 2000 == 77) { n = (int) r.range(1500, 3000); c.obs("very-long"); }
  auto x = vals(r, n);
  VectorN<double> w(n);
  for (int i = 0; i < n; i++) w[i] = x[i];
  auto s = x;
  std::sort(s.begin(), s.end());
  auto eq = [&](const VectorN<double> &g, const std::vector<double> &t) { if ((size_t) g.size() != t.size()) return false; for (size_t i = 0; i < t.size(); i++) if (g[i] != t[i]) return false; return true; };
  VectorN<double> a = w; a.Sort(); CHECK(eq(a, s), "Sort-ascending", "Sort() of %s", vs(x).c_str());
  a = w; a.Sort(true); CHECK(eq(a, s), "Sort-true", "Sort(true) of %s", vs(x).c_str());
  std::reverse(s.begin(), s.end());
  a = w; a.Sort(false); CHECK(eq(a, s), "Sort-descending", "Sort(false) of %s", vs(x).c_str());
  a = w; a.Reverse(); auto rv = x; std::reverse(rv.begin(), rv.end()); CHECK(eq(a, rv), "Reverse", "Reverse of %s", vs(x).c_str());
  a.Reverse(); CHECK(eq(a, x), "Reverse-twice", "Reverse twice of %s", vs(x).c_str());
  c.obs("sort"); c.obs(n > 100 ? "sort-large" : "sort-small");
  if (n <= 40) {
    auto S1 = w.GetMatrixSquare(); auto S2 = GetMatrixSquare(w); auto D1 = w.GetDiagonalMatrix(); auto D2 = GetDiagonalMatrix(w);
    MatrixMN<double> T = Transpose(w);
    bool ok = S1.rows() == n && S1.cols() == n && S2.rows() == n && S2.cols() == n && D1.rows() == n && D1.cols() == n && D2.rows() == n && D2.cols() == n;
    CHECK(ok, "matrix-shape", "shape for n=%d", n);
    if (ok) {
      bool s1 = true, s2 = true, d1 = true, d2 = true;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        s1 = s1 && S1(i, j) == x[i] * x[j]; s2 = s2 && S2(i, j) == x[i] * x[j];
        d1 = d1 && D1(i, j) == (i == j ? x[i] : 0); d2 = d2 && D2(i, j) == (i == j ? x[i] : 0);
      }
      CHECK(s1, "GetMatrixSquare-method", "n=%d", n); CHECK(s2, "GetMatrixSquare-free", "n=%d", n);
      CHECK(d1, "GetDiagonalMatrix-method", "n=%d", n); CHECK(d2, "GetDiagonalMatrix-free", "n=%d", n);
    }
    bool t = T.rows() == 1 && T.cols() == n; for (int i = 0; t && i < n; i++) t = T(0, i) == x[i];
    CHECK(t, "Transpose-vector", "n=%d", n);
  }
  CHECK(eq(w, x), "input-changed", "a const operation altered the vector");
  c.nontrivial(H().add(x).h);
  c.sample(fmt("VectorN %s", vs(x, 5).c_str()));
}

// the other scalar types the classes are instantiated with: single precision, complex, integers
template<class T> T pickv(Rng &r);
template<> float pickv<float>(Rng &r) { return (float) (r.chance(0.3) ? r.range(-3, 3) : r.logmag(1e-6, 1e6)); }
template<> std::complex<double> pickv<std::complex<double>>(Rng &r) { return r.chance(0.3) ? std::complex<double>((double) r.range(-2, 2), (double) r.range(-2, 2)) : std::complex<double>(r.gauss(), r.logmag(1e-3, 1e3)); }
template<> int pickv<int>(Rng &r) { return (int) r.range(-30000, 30000); }
inline bool close_(LD a, LD b, LD t) { return fabsl(a - b) <= t; }
inline bool sameprod(float g, float a, float b) { return close_(g, (LD) a * b, 1e-6L * fabsl((LD) a * b) + 1e-42L); }
inline bool sameprod(int g, int a, int b) { return g == a * b; }
inline bool sameprod(std::complex<double> g, std::complex<double> a, std::complex<double> b) {
  LD re = (LD) a.real() * b.real() - (LD) a.imag() * b.imag(), im = (LD) a.real() * b.imag() + (LD) a.imag() * b.real(), t = 1e-15L * std::abs(a) * std::abs(b);
  return close_(g.real(), re, t) && close_(g.imag(), im, t);
}
template<class T, class V> void scalar_common(Case &c, V &w, const std::vector<T> &x, const char *tn) {
  int n = (int) x.size();
  const V &cw = w;
  bool ok = true;
  for (int i = 0; i < n; i++) ok = ok && w[i] == x[i] && cw.at(i) == x[i] && w.at(i) == x[i];
  CHECK(ok, std::string("stored/") + tn, "%s does not hold the coefficients it was given", tn);
  LD m = 0; for (auto &v : x) m = std::max(m, (LD) std::abs(v));
  LD g = (LD) std::abs(w.infNorm());
  CHECK(close_(g, m, 1e-6L * m), std::string("infNorm/") + tn, "infNorm = %.9Lg, expected %.9Lg", g, m);
  nulling(w, n, tn);
  c.obs(std::string("scalars/") + tn);
}
template<class T> void scalar_case(Case &c, const char *tn) {
  Rng &r = c.r;
  auto gen = [&](int n) { std::vector<T> v(n); for (auto &x : v) x = pickv<T>(r); return v; };
  std::string t(tn);
  { auto x = gen(2); Vector2d<T> w(x[0], x[1]); scalar_common<T>(c, w, x, ("Vector2d<" + t + ">").c_str()); w.Set(x[0], x[1]); CHECK(w[0] == x[0] && w[1] == x[1], "Set/Vector2d", "Set"); ctor_null<Vector2d<T>>(2, ("Vector2d<" + t + ">").c_str()); }
  { auto x = gen(3); Vector3d<T> w(x[0], x[1], x[2]); scalar_common<T>(c, w, x, ("Vector3d<" + t + ">").c_str()); w.Set(x[0], x[1], x[2]); CHECK(w[0] == x[0] && w[1] == x[1] && w[2] == x[2], "Set/Vector3d", "Set"); ctor_null<Vector3d<T>>(3, ("Vector3d<" + t + ">").c_str());
    auto y = gen(3); Vector3d<T> u(y[0], y[1], y[2]); auto O = outer(w, u); auto O2 = outer(w); bool ok = true;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ok = ok && sameprod(O(i, j), x[i], y[j]) && sameprod(O2(i, j), x[i], x[j]);
    CHECK(ok, "outer/3/" + t, "outer of 3-vectors of %s", tn); }
  { auto x = gen(6); Vector6d<T> w(x[0], x[1], x[2], x[3], x[4], x[5]); scalar_common<T>(c, w, x, ("Vector6d<" + t + ">").c_str()); w.Set(x[0], x[1], x[2], x[3], x[4], x[5]); ctor_null<Vector6d<T>>(6, ("Vector6d<" + t + ">").c_str());
    auto y = gen(6); Vector6d<T> u(y[0], y[1], y[2], y[3], y[4], y[5]); auto O = outer(w, u); auto O2 = outer(w); bool ok = true;
    for (int i = 0; i < 6; i++) { ok = ok && w[i] == x[i]; for (int j = 0; j < 6; j++) ok = ok && sameprod(O(i, j), x[i], y[j]) && sameprod(O2(i, j), x[i], x[j]); }
    CHECK(ok, "outer/6/" + t, "outer of 6-vectors of %s", tn); }
  { int n = (int) r.range(1, 20); auto x = gen(n); VectorN<T> w(n); for (int i = 0; i < n; i++) w[i] = x[i];
    auto S1 = w.GetMatrixSquare(); auto S2 = GetMatrixSquare(w); auto D1 = w.GetDiagonalMatrix(); auto D2 = GetDiagonalMatrix(w); MatrixMN<T> Tr = Transpose(w);
    bool s = S1.rows() == n && S1.cols() == n && S2.rows() == n && S2.cols() == n, d = D1.rows() == n && D1.cols() == n && D2.rows() == n && D2.cols() == n, tr = Tr.rows() == 1 && Tr.cols() == n;
    for (int i = 0; i < n && s && d && tr; i++) { tr = Tr(0, i) == x[i];
      for (int j = 0; j < n; j++) { s = s && sameprod(S1(i, j), x[i], x[j]) && sameprod(S2(i, j), x[i], x[j]); d = d && D1(i, j) == (i == j ? x[i] : T(0)) && D2(i, j) == (i == j ? x[i] : T(0)); } }
    CHECK(s, "GetMatrixSquare/" + t, "square of a vector of %s, n=%d", tn, n);
    CHECK(d, "GetDiagonalMatrix/" + t, "diagonal matrix of %s, n=%d", tn, n);
    CHECK(tr, "Transpose/" + t, "transposed vector of %s, n=%d", tn, n);
    VectorN<T> rev = w; rev.Reverse(); bool rv = true; for (int i = 0; i < n; i++) rv = rv && rev[i] == x[n - 1 - i];
    CHECK(rv, "Reverse/" + t, "Reverse of %s, n=%d", tn, n);
    scalar_common<T>(c, w, x, ("VectorN<" + t + ">").c_str()); }
  c.nontrivial(H().add(r.uni(0, 1)).h);
}
template<class T> void sort_case(Case &c, const char *tn) {
  Rng &r = c.r; int n = (int) (r.chance(0.01) ? r.range(4000, 70000) : r.range(1, 40));
  std::vector<T> x(n); for (auto &v : x) v = r.chance(0.3) ? (T) r.range(-2, 2) : pickv<T>(r);
  for (int up = 0; up < 2; up++) {
    VectorN<T> w(n); for (int i = 0; i < n; i++) w[i] = x[i];
    w.Sort(up == 1);
    auto y = x; std::sort(y.begin(), y.end()); if (!up) std::reverse(y.begin(), y.end());
    bool ok = w.size() == n; for (int i = 0; i < n && ok; i++) ok = w[i] == y[i];
    CHECK(ok, std::string("Sort/") + tn, "Sort(%d) of %d values of %s", up, n, tn);
  }
  c.obs(std::string("sort/") + tn);
}
SECTION(scalars, 6000, 60000) {
  switch (c.idx % 3) {
    case 0: {
      scalar_case<float>(c, "float"); sort_case<float>(c, "float");
      Rng &r = c.r; Vector3d<float> v(pickv<float>(r), pickv<float>(r), pickv<float>(r));
      LD x[3] = {v[0], v[1], v[2]};
      for (int k = 0; k < 3; k++) {
        LD h = x[(k + 1) % 3], u = x[(k + 2) % 3]; if (h == 0 && u == 0) continue;
        LD a = atan2l(u, h), gr = k == 0 ? v.GetProjectedAngleAroundX(RAD) : k == 1 ? v.GetProjectedAngleAroundY(RAD) : v.GetProjectedAngleAroundZ(RAD),
           gd = k == 0 ? v.GetProjectedAngleAroundX(DEG) : k == 1 ? v.GetProjectedAngleAroundY(DEG) : v.GetProjectedAngleAroundZ(DEG);
        auto ca = [&](LD g, LD w, LD turn) { LD d = fabsl(g - w); return d <= 1e-6L * turn || (h < 0 && fabsl(d - turn) <= 1e-6L * turn); };
        CHECK(ca(gr, a, 2 * PI_L) && ca(gd, a * 180 / PI_L, 360), fmt("projected-angle-float/%d", k), "angle around axis %d", k);
      }
      LD nn = sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
      if (nn > 0) { v.Normalize(); for (int k = 0; k < 3; k++) CHECK(close_(v[k], x[k] / nn, 1e-6L), "Normalize/float", "coefficient %d", k); CHECK(v.IsUnit(), "IsUnit/float", "normalised vector"); }
      break;
    }
    case 1: scalar_case<std::complex<double>>(c, "complex"); break;
    default: scalar_case<int>(c, "int"); sort_case<int>(c, "int");
  }
}
}  // namespace mon
MON_MAIN
