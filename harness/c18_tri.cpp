// C18: quadrature over triangles
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
typedef std::complex<double> cd;
typedef Vector3d<double> V3;
typedef std::function<double(const V3 &)> F;

struct Fun : Integrand<double> {
  F f;
  mutable std::vector<V3> pts;
  explicit Fun(F g) : f(g) {}
  double Evaluate(const V3 &x) const override { pts.push_back(x); return f(x); }
};
struct P3 { LD x, y, z; };
static P3 p3(const V3 &v) { return {v[0], v[1], v[2]}; }
static P3 lin(P3 a, LD s, P3 b, LD t, P3 c, LD u) { return {a.x * s + b.x * t + c.x * u, a.y * s + b.y * t + c.y * u, a.z * s + b.z * t + c.z * u}; }
static LD area_of(const V3 &a, const V3 &b, const V3 &c) {
  P3 A = p3(a), B = p3(b), C = p3(c), u{A.x - C.x, A.y - C.y, A.z - C.z}, v{B.x - C.x, B.y - C.y, B.z - C.z};
  LD X = u.y * v.z - u.z * v.y, Y = u.z * v.x - u.x * v.z, Z = u.x * v.y - u.y * v.x;
  return 0.5L * sqrtl(X * X + Y * Y + Z * Z);
}
/// Gauss-Legendre on [0,1], 10 points, long double
static const std::vector<std::pair<LD, LD>> &gauss() {
  static std::vector<std::pair<LD, LD>> g;
  if (g.empty()) {
    const int n = 10;
    for (int i = 0; i < n; i++) {
      LD x = cosl(3.14159265358979323846264L * (i + 0.75L) / (n + 0.5L)), pp = 1;
      for (int it = 0; it < 60; it++) {
        LD p0 = 1, p1 = x;
        for (int k = 2; k <= n; k++) { LD p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
        pp = n * (x * p1 - p0) / (x * x - 1);
        x -= p1 / pp;
      }
      g.push_back({0.5L * (x + 1), 1 / ((1 - x * x) * pp * pp)});
    }
  }
  return g;
}
struct Poly {  // product of affine forms, in long double; deg factors; value and sum of absolute terms
  std::vector<std::array<LD, 4>> fac;
  P3 c;
  LD L;
  LD at(P3 x, LD *mag = nullptr) const {
    LD v = 1, m = 1;
    for (auto &f : fac) {
      LD a = f[0] * (x.x - c.x) / L, b = f[1] * (x.y - c.y) / L, d = f[2] * (x.z - c.z) / L;
      v *= a + b + d + f[3];
      m *= labs_(a) + labs_(b) + labs_(d) + labs_(f[3]);
    }
    if (mag) *mag = m;
    return v;
  }
  LD integral(const V3 &a, const V3 &b, const V3 &d) const {  // Duffy
    LD s = 0;
    P3 A = p3(a), B = p3(b), D = p3(d);
    for (auto &u : gauss()) for (auto &v : gauss()) {
      LD l2 = u.first, l3 = v.first * (1 - u.first);
      s += u.second * v.second * (1 - u.first) * at(lin(A, 1 - l2 - l3, B, l2, D, l3));
    }
    return s * 2 * area_of(a, b, d);
  }
  LD bound(const V3 &a, const V3 &b, const V3 &d) const { LD m1, m2, m3; at(p3(a), &m1); at(p3(b), &m2); at(p3(d), &m3); return std::max(m1, std::max(m2, m3)); }
};
struct Tri { V3 a, b, c; LD size, off, area, aspect; const char *kind; };
static Tri tri(Rng &r) {
  Tri t;
  double s = r.chance(0.5) ? 1 : std::pow(10., r.uni(-4, 4));
  auto rv = [&]() { return V3(r.gauss(), r.gauss(), r.gauss()); };
  V3 o = r.chance(0.4) ? V3(0, 0, 0) : V3(rv() * s * std::pow(10., r.uni(-1, 3)));
  V3 u = rv(), v = rv();
  t.kind = "general";
  switch (r.range(0, 5)) {
    case 0: u = V3(1, 0, 0); v = V3(0, 1, 0); o[2] = 0; t.kind = "axis-aligned"; break;
    case 1: v = V3(u * r.uni(-2, 2) + rv() * std::pow(10., r.uni(-3, -1))); t.kind = "skinny"; break;
    case 2: u[2] = v[2] = 0; t.kind = "horizontal"; break;
    case 3: u[0] = v[0] = 0; t.kind = "vertical"; break;
    case 5: {  // vertices on a small lattice
      s = 1; t.kind = "lattice";
      auto lv = [&]() { return V3((double) r.range(-2, 2), (double) r.range(-2, 2), (double) r.range(-2, 2)); };
      o = lv();
      do { u = lv(); v = lv(); if (r.chance(0.4)) u[2] = v[2] = 0; } while (area_of(V3(0, 0, 0), u, v) < 0.1L);
      break;
    }
    default: break;
  }
  t.a = o; t.b = V3(o + s * u); t.c = V3(o + s * v);
  if (r.chance(0.5)) std::swap(t.b, t.c);
  if (r.chance(0.3)) std::swap(t.a, t.c);
  t.size = std::max({(t.b - t.a).norm(), (t.c - t.a).norm(), (t.c - t.b).norm()});
  t.off = std::max({t.a.norm(), t.b.norm(), t.c.norm()});
  t.area = area_of(t.a, t.b, t.c);
  t.aspect = t.size * t.size / t.area;
  return t;
}
static Poly poly(Rng &r, const Tri &t, int deg) {
  Poly p;
  p.c = p3(V3((t.a + t.b + t.c) / 3.));
  if (r.chance(0.5)) p.c = p3(t.a);
  p.L = t.size;
  for (int i = 0; i < deg; i++) p.fac.push_back({(LD) r.uni(-1, 1), (LD) r.uni(-1, 1), (LD) r.uni(-1, 1), r.chance(0.3) ? 0 : (LD) r.uni(-1, 1)});
  return p;
}
static F fn(const Poly &p) { return [p](const V3 &x) { return (double) p.at(p3(x)); }; }
/// relative error allowed on max|f| * area: table digits, coordinate rounding through the offset and the aspect ratio of the area formula
static LD tol(const Tri &t, int deg) { return 4e-13L * (1 + deg) + 40 * DBL_EPSILON * (1 + deg) * (1 + t.off / t.size) * (1 + t.aspect); }
static double run(F f, int order, const V3 &a, const V3 &b, const V3 &c, std::vector<V3> *pts = nullptr) {
  Fun g(f);
  Integration2dTriangle<double> I(&g, order);
  double v = I.Compute(a, b, c);
  if (pts) *pts = g.pts;
  return v;
}
static bool inside(const Tri &t, const V3 &x) {
  // barycentric coordinates from areas; distance to the plane from the residual of the reconstruction
  P3 A = p3(t.a), B = p3(t.b), C = p3(t.c), X = p3(x);
  P3 u{B.x - A.x, B.y - A.y, B.z - A.z}, v{C.x - A.x, C.y - A.y, C.z - A.z}, w{X.x - A.x, X.y - A.y, X.z - A.z};
  LD uu = u.x * u.x + u.y * u.y + u.z * u.z, vv = v.x * v.x + v.y * v.y + v.z * v.z, uv = u.x * v.x + u.y * v.y + u.z * v.z;
  LD wu = w.x * u.x + w.y * u.y + w.z * u.z, wv = w.x * v.x + w.y * v.y + w.z * v.z, d = uu * vv - uv * uv;
  LD s = (vv * wu - uv * wv) / d, q = (uu * wv - uv * wu) / d;
  LD e = 1e-12L + 50 * DBL_EPSILON * (1 + t.off / t.size) * (1 + t.aspect) * (1 + t.aspect);
  P3 R{w.x - s * u.x - q * v.x, w.y - s * u.y - q * v.y, w.z - s * u.z - q * v.z};
  return s >= -e && q >= -e && 1 - s - q >= -e && sqrtl(R.x * R.x + R.y * R.y + R.z * R.z) <= e * t.size;
}
SECTION(exactness, 16000, 400000) {
  int order = 1 + (int) (c.idx % 8), deg = c.r.chance(0.6) ? order : (int) c.r.range(0, order);
  Tri t = tri(c.r);
  Poly p = poly(c.r, t, deg);
  std::vector<V3> pts;
  double got = run(fn(p), order, t.a, t.b, t.c, &pts);
  LD want = p.integral(t.a, t.b, t.c), scale = p.bound(t.a, t.b, t.c) * t.area;
  CHECK(near(got, want, tol(t, deg) * scale), fmt("exactness/order%d", order), "degree %d %s triangle (%g %g %g)(%g %g %g)(%g %g %g): got %.17g want %.17Lg scale %Lg", deg, t.kind, t.a[0], t.a[1], t.a[2], t.b[0], t.b[1], t.b[2], t.c[0], t.c[1], t.c[2], got, want, scale);
  bool in = !pts.empty();
  for (auto &x : pts) in = in && inside(t, x);
  CHECK(in, fmt("points-outside/order%d", order), "the integrand is evaluated outside the %s triangle", t.kind);
  c.obs(fmt("order%d/degree%d", order, deg));
  c.obs(std::string("triangle/") + t.kind);
  c.nontrivial(H().add(got).h);
  // subdivision (polynomials of admissible degree)
  V3 m = V3(t.a * 0.3 + t.b * 0.45 + t.c * 0.25);
  double s = run(fn(p), order, t.a, t.b, m) + run(fn(p), order, m, t.b, t.c) + run(fn(p), order, t.a, m, t.c);
  CHECK(near(s, got, 20 * tol(t, deg) * scale), fmt("subdivision/order%d", order), "sum over three parts %.17g, whole %.17g (%s)", s, got, t.kind);
}
/// every monomial of barycentric degree <= order on well-shaped triangles
SECTION(monomials, 165 * 4, 165 * 40) {
  // enumerate (order, i, j) with i + j <= order: sum over orders of (o+1)(o+2)/2 = 164
  long k = c.idx % 165, n = 0;
  int O = 0, I = 0, J = 0;
  for (int o = 1; o <= 8; o++) for (int i = 0; i <= o; i++) for (int j = 0; i + j <= o; j++, n++) if (n == k) { O = o; I = i; J = j; }
  if (!O) { O = 8; I = J = 4; }
  V3 a(c.r.gauss(), c.r.gauss(), c.r.gauss()), u(1, 0.2 * c.r.gauss(), 0), v(0.2 * c.r.gauss(), 1, 0.3 * c.r.gauss());
  V3 b = V3(a + u), d = V3(a + v);
  Eigen::Matrix<double, 3, 2> M;
  M.col(0) = u; M.col(1) = v;
  Eigen::Matrix<double, 2, 3> P = (M.transpose() * M).inverse() * M.transpose();
  F f = [=](const V3 &x) { Eigen::Vector2d l = P * (x - a); return std::pow(l[0], I) * std::pow(l[1], J); };
  double got = run(f, O, a, b, d);
  LD w = 2 * area_of(a, b, d);
  LD fa = 1;
  for (int i = 2; i <= I; i++) fa *= i;
  for (int i = 2; i <= J; i++) fa *= i;
  for (int i = 2; i <= I + J + 2; i++) fa /= i;
  CHECK(near(got, w * fa, 5e-12L * w), fmt("monomial/order%d", O), "l2^%d l3^%d over order %d: got %.17g want %.17Lg", I, J, O, got, w * fa);
  c.obs(fmt("monomial/order%d", O));
  c.nontrivial(H().add(got).h);
}
SECTION(invariance, 6000, 100000) {
  int order = 1 + (int) (c.idx % 8);
  Tri t = tri(c.r);
  Poly p = poly(c.r, t, (int) c.r.range(1, 3)), q = poly(c.r, t, 2);
  F f = [p](const V3 &x) { return (double) expl(0.3L * p.at(p3(x))); };
  F g = [q](const V3 &x) { return (double) sinl(2 * q.at(p3(x))); };
  LD bf = expl(0.3L * p.bound(t.a, t.b, t.c)), tl = 6 * tol(t, 4), S = tl * bf * (1 + p.bound(t.a, t.b, t.c)) * t.area;
  double v = run(f, order, t.a, t.b, t.c);
  V3 w[3] = {t.a, t.b, t.c};
  int pm[5][3] = {{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto &m : pm) {
    double x = run(f, order, w[m[0]], w[m[1]], w[m[2]]);
    CHECK(near(x, v, S), fmt("vertex-order/order%d", order), "vertices %d%d%d: %.17g instead of %.17g (%s)", m[0], m[1], m[2], x, v, t.kind);
  }
  double s = std::pow(10., c.r.uni(-2, 2));
  if (t.off / t.size < 100) {
    F fs = [f, s](const V3 &x) { return f(V3(x / s)); };
    double x = run(fs, order, V3(t.a * s), V3(t.b * s), V3(t.c * s));
    CHECK(near(x, (LD) s * s * v, 10 * s * s * S), fmt("area-scaling/order%d", order), "scaling by %g: %.17g instead of %.17g", s, x, s * s * v);
    c.obs("scaled");
  }
  double al = c.r.value(), be = c.r.value();
  F h = [=](const V3 &x) { return al * f(x) + be * g(x); };
  double x = run(h, order, t.a, t.b, t.c), gv = run(g, order, t.a, t.b, t.c);
  CHECK(near(x, (LD) al * v + (LD) be * gv, fabs(al) * S + fabs(be) * tl * t.area), fmt("linearity/order%d", order), "%.17g instead of %.17g", x, al * v + be * gv);
  // constants: area
  double one = run([](const V3 &) { return 1.; }, order, t.a, t.b, t.c);
  CHECK(near(one, t.area, tol(t, 0) * t.area), fmt("area/order%d", order), "integral of one %.17g, area %.17Lg (%s)", one, t.area, t.kind);
  c.nontrivial(H().add(v).h);
}
// ---- other result types: the same components as the scalar quadrature
template<class T> struct TF : Integrand<T> { std::function<T(const V3 &)> f; T Evaluate(const V3 &x) const override { return f(x); } };
SECTION(types, 4000, 60000) {
  int order = 1 + (int) (c.idx % 8);
  Tri t = tri(c.r);
  int n = (int) c.r.range(1, 9);
  std::vector<F> f;
  std::vector<LD> ref, sc;
  int deg = (int) c.r.range(0, order);
  for (int i = 0; i < 9; i++) { Poly p = poly(c.r, t, deg); f.push_back(fn(p)); ref.push_back(p.integral(t.a, t.b, t.c)); sc.push_back(tol(t, deg) * p.bound(t.a, t.b, t.c) * t.area); }
  auto ok = [&](double v, int i) { return near(v, ref[i], sc[i]); };
  {
    TF<cd> g; g.f = [&](const V3 &x) { return cd(f[0](x), f[1](x)); };
    Integration2dTriangle<cd> I(&g, order);
    cd v = I.Compute(t.a, t.b, t.c);
    CHECK(ok(v.real(), 0) && ok(v.imag(), 1), fmt("complex/order%d", order), "complex integrand: (%.17g,%.17g) want (%.17Lg,%.17Lg)", v.real(), v.imag(), ref[0], ref[1]);
  }
  {
    TF<VectorN<double>> g; g.f = [&](const V3 &x) { VectorN<double> v = VectorN<double>::Zero(n); for (int i = 0; i < n; i++) v[i] = f[i](x); return v; };
    std::unique_ptr<Integration2d<VectorN<double>>> I(new Integration2dTriangle<VectorN<double>>(&g, order));
    VectorN<double> v = I->Compute(t.a, t.b, t.c);
    bool good = v.size() == n;
    for (int i = 0; good && i < n; i++) good = ok(v[i], i);
    CHECK(good, fmt("vectorN/order%d", order), "vector integrand of %d components", n);
  }
  {
    TF<V3> g; g.f = [&](const V3 &x) { return V3(f[0](x), f[1](x), f[2](x)); };
    Integration2dTriangle<V3> I(&g, order);
    V3 v = I.Compute(t.a, t.b, t.c), v2 = I.Compute(t.a, t.b, t.c);
    CHECK(ok(v[0], 0) && ok(v[1], 1) && ok(v[2], 2), fmt("vector3/order%d", order), "3-vector integrand");
    CHECK(v == v2, "repeat", "computing again with the same object gives another value");
  }
  {
    TF<MatrixMN<double>> g; g.f = [&](const V3 &x) { MatrixMN<double> m(2, 3); for (int i = 0; i < 6; i++) m(i % 2, i / 2) = f[i](x); return m; };
    Integration2dTriangle<MatrixMN<double>> I(&g, order);
    MatrixMN<double> m = I.Compute(t.a, t.b, t.c);
    bool good = m.rows() == 2 && m.cols() == 3;
    for (int i = 0; good && i < 6; i++) good = ok(m(i % 2, i / 2), i);
    CHECK(good, fmt("matrix/order%d", order), "matrix integrand");
  }
  {
    TF<Matrix33<double>> g; g.f = [&](const V3 &x) { Matrix33<double> m; for (int i = 0; i < 9; i++) m(i % 3, i / 3) = f[i](x); return m; };
    Integration2dTriangle<Matrix33<double>> I(&g, order);
    Matrix33<double> m = I.Compute(t.a, t.b, t.c);
    bool good = true;
    for (int i = 0; i < 9; i++) good = good && ok(m(i % 3, i / 3), i);
    CHECK(good, fmt("matrix33/order%d", order), "3x3 integrand");
  }
  c.obs("types");
}
SECTION(refusal, 24, 60) {
  int bad[] = {0, -1, 9, 10, 100, -7, 9, 0, INT_MAX, INT_MIN};
  int o = bad[c.idx % 10];
  Outcome r = observe([&]() { Fun f([](const V3 &) { return 1.; }); Integration2dTriangle<double> I(&f, o); volatile double v = I.Compute(V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0)); (void) v; });
  CHECK(refused(r), "order-accepted", "order %d: %s", o, oname(r));
  c.obs(fmt("refused/%d", o));
}
}  // namespace mon
MON_MAIN
