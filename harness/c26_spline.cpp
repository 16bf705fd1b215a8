// C26: interpolating splines
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> VX;
/// long-double collocation with averaged knots: used only to scale the error bounds
struct Cond {
  int n, p; std::vector<LD> t, knots; std::vector<std::vector<LD>> inv; LD ninv = 0;
  std::vector<LD> basis(LD u) const {
    std::vector<LD> N(n + p + 1, 0);
    int span = p;
    while (span < n - 1 && u >= knots[span + 1]) span++;
    N[span] = 1;
    for (int d = 1; d <= p; d++) {
      std::vector<LD> M(n + p + 1, 0);
      for (int i = std::max(0, span - d); i <= span; i++) {
        LD a = knots[i + d] - knots[i], b = knots[i + d + 1] - knots[i + 1];
        M[i] = (a > 0 ? (u - knots[i]) / a * N[i] : 0) + (b > 0 ? (knots[i + d + 1] - u) / b * N[i + 1] : 0);
      }
      N = M;
    }
    N.resize(n);
    return N;
  }
  Cond(const std::vector<double> &x, int deg) : n((int) x.size()), p(std::min(deg, n - 1)) {
    for (double v : x) t.push_back(((LD) v - x.front()) / ((LD) x.back() - x.front()));
    for (int i = 0; i <= p; i++) knots.push_back(0);
    for (int j = 1; j < n - p; j++) { LD s = 0; for (int i = j; i < j + p; i++) s += t[i]; knots.push_back(s / p); }
    for (int i = 0; i <= p; i++) knots.push_back(1);
    std::vector<std::vector<LD>> A(n);
    for (int i = 0; i < n; i++) A[i] = basis(t[i]);
    inv.assign(n, std::vector<LD>(n, 0));
    for (int i = 0; i < n; i++) inv[i][i] = 1;
    for (int k = 0; k < n; k++) {
      int pv = k;
      for (int i = k + 1; i < n; i++) if (labs_(A[i][k]) > labs_(A[pv][k])) pv = i;
      std::swap(A[k], A[pv]); std::swap(inv[k], inv[pv]);
      LD d = A[k][k];
      for (int j = 0; j < n; j++) { A[k][j] /= d; inv[k][j] /= d; }
      for (int i = 0; i < n; i++) if (i != k && A[i][k] != 0) { LD f = A[i][k]; for (int j = 0; j < n; j++) { A[i][j] -= f * A[k][j]; inv[i][j] -= f * inv[k][j]; } }
    }
    for (auto &r : inv) { LD s = 0; for (LD v : r) s += labs_(v); ninv = std::max(ninv, s); }
  }
};
static std::vector<double> knots(Rng &r, int n, const char **k) {
  std::vector<double> x(n);
  double w = std::pow(10., r.chance(0.2) ? r.uni(-15, 15) : r.uni(-3, 3)), o = r.chance(0.3) ? 0 : r.gauss() * w * (r.chance(0.3) ? 30 : 1);
  int mode = (int) r.range(0, 3);
  *k = mode == 0 ? "uniform" : mode == 1 ? "jittered" : mode == 2 ? "non-uniform" : "clustered";
  double t = 0;
  for (int i = 0; i < n; i++) {
    x[i] = o + w * t;
    t += mode == 0 ? 1 : mode == 1 ? r.uni(0.7, 1.3) : mode == 2 ? r.uni(0.2, 2) : (r.chance(0.3) ? r.uni(0.08, 0.2) : r.uni(0.5, 1.5));
  }
  return x;
}
static double inside(Rng &r, const std::vector<double> &x, const char **k) {
  int i = (int) r.range(0, (long) x.size() - 2);
  switch (r.range(0, 6)) {
    case 6: {  // close to an end or to a knot
      double g = x[i + 1] - x[i], h = g * std::pow(10., -r.uni(2, 13));
      *k = "knot-close";
      if (r.chance(0.3)) return std::max(x.front(), x.back() - (x.back() - x.front()) * std::pow(10., -r.uni(2, 13)));
      return std::min(std::max(r.chance(0.5) ? x[i] + h : x[i + 1] - h, x.front()), x.back());
    }
    case 0: *k = "knot"; return x[r.range(0, (long) x.size() - 1)];
    case 1: *k = "first"; return x.front();
    case 2: *k = "last"; return x.back();
    case 3: *k = "knot-ulp"; return r.chance(0.5) ? ulp_up(x[i]) : ulp_down(x[i + 1]);
    default: *k = "between"; return x[i] + r.uni(0, 1) * (x[i + 1] - x[i]);
  }
}
template<int Deg> static void run(Case &c, bool many = false) {
  const char *k;
  int n = c.r.chance(0.35) ? (int) c.r.range(2, Deg + 2) : (int) c.r.range(2, 60);
  if (many) { n = (int) c.r.range(150, 300); c.obs("many-points"); }
  std::vector<double> x = knots(c.r, n, &k), y(n);
  for (int i = 1; i < n; i++) if (!(x[i] > x[i - 1])) return;
  int p = std::min(n - 1, Deg);
  c.obs(std::string("knots/") + k);
  c.obs(fmt("degree/%d", Deg));
  if (n - 1 < Deg) c.obs("reduced-degree");
  if (n == 2) c.obs("two-samples");
  double amp = c.r.chance(0.3) ? std::pow(10., c.r.uni(-8, 8)) : 1;
  LD Y = 0;
  for (auto &v : y) { v = amp * c.r.gauss(); Y = std::max(Y, labs_(v)); }
  Cond cd(x, Deg);
  LD width = (LD) x.back() - x.front(), kappa = 1 + (labs_(x.front()) + labs_(x.back())) / width;
  LD gap = 1;
  for (int i = 1; i < n; i++) gap = std::min(gap, ((LD) x[i] - x[i - 1]) / width);
  // rounding of the solve and of the mapped abscissas (slope bounded by coefficient size over the smallest gap)
  auto tol = [&](LD scale) { return epsof<double>() * 64 * n * cd.ninv * scale * (1 + cd.ninv) * (p + 1) * 1 + epsof<double>() * 16 * kappa * cd.ninv * cd.ninv * scale * (p + 1) / gap; };
  if (!(tol(1) < 1e-4L)) { c.obs("ill-conditioned-skipped"); return; }
  VX xe = Eigen::Map<VX>(x.data(), n), ye = Eigen::Map<VX>(y.data(), n);
  const VX xe0 = xe, ye0 = ye;
  std::vector<double> xs = x, ys = y;
  Spline<double, 1, Deg> se(xe, ye), ss(xs, ys);
  CHECK((xe.array() == xe0.array()).all() && (ye.array() == ye0.array()).all(), "inputs-changed-eigen", "Eigen inputs were altered");
  CHECK(xs == x && ys == y, "inputs-changed-std", "standard vectors were altered");
  std::string d = fmt("%d %s knots on [%.17g,%.17g], degree %d", n, k, x.front(), x.back(), Deg);
  for (int i = 0; i < n; i++) {
    double g = se(x[i]);
    CHECK(near(g, y[i], tol(Y)), "sample", "spline(%.17g) = %.17g, sample %.17g (tolerance %Lg): %s", x[i], g, y[i], tol(Y), d.c_str());
    c.nontrivial(H().add(x[i]).add(y[i]).h);
  }
  // other ordinates: linearity
  std::vector<double> y2(n), y3(n);
  double a = c.r.gauss(), b = c.r.gauss(); LD Y2 = 0;
  for (int i = 0; i < n; i++) { y2[i] = amp * c.r.gauss(); y3[i] = a * y[i] + b * y2[i]; Y2 = std::max(Y2, labs_(y2[i])); }
  Spline<double, 1, Deg> s2(x, y2), s3(x, y3);
  // shifted and scaled abscissas
  double sc = std::pow(2., (double) c.r.range(-4, 4)), sh = c.r.gauss() * (double) width;
  std::vector<double> xm(n);
  bool okm = true;
  for (int i = 0; i < n; i++) { xm[i] = sc * x[i] + sh; if (i && !(xm[i] > xm[i - 1])) okm = false; }
  LD kappam = 1 + (labs_(xm.front()) + labs_(xm.back())) / ((LD) xm.back() - xm.front());
  Spline<double, 1, Deg> sm(xm, y);
  // polynomial of the spline degree in the centred variable
  std::vector<LD> co(p + 1);
  LD P = 0;
  for (auto &v : co) { v = c.r.gauss() * amp; P += labs_(v); }
  if (c.r.chance(0.3)) { for (auto &v : co) v = 0; co[p] = amp; P = amp; c.obs("monomial"); }
  auto poly = [&](double v) { LD u = (2 * (LD) v - x.front() - x.back()) / width, s = 0; for (int i = p; i >= 0; i--) s = s * u + co[i]; return s; };
  std::vector<double> yp(n);
  for (int i = 0; i < n; i++) yp[i] = (double) poly(x[i]);
  Spline<double, 1, Deg> sp(x, yp);
  for (int q = 0; q < 12; q++) {
    const char *kq;
    double v = inside(c.r, x, &kq);
    c.obs(std::string("query/") + kq);
    double ge = se(v), gs = ss(v);
    CHECK(near(ge, gs, 1e-12L * std::max(labs_(ge), Y) + tol(Y)), "std-vs-eigen", "at %.17g: %.17g from Eigen, %.17g from standard vectors: %s", v, ge, gs, d.c_str());
    double gp = sp(v);
    LD rp = poly(v), tp = tol(P) + epsof<double>() * 16 * kappa * P * (p + 1) * (p + 1);
    CHECK(near(gp, rp, tp), "polynomial", "at %.17g: %.17g, polynomial of degree %d gives %.17Lg (tolerance %Lg): %s", v, gp, p, rp, tp, d.c_str());
    LD l = (LD) a * ge + (LD) b * s2(v), t3 = tol(labs_(a) * Y + labs_(b) * Y2) * 3;
    double g3 = s3(v);
    CHECK(near(g3, l, t3), "linear", "at %.17g: %.17g, combination of the two splines %.17Lg (tolerance %Lg): %s", v, g3, l, t3, d.c_str());
    if (okm && tol(1) * kappam / kappa < 1e-4L) {
      double vm = sc * v + sh;
      vm = std::min(std::max(vm, xm.front()), xm.back());
      double gm = sm(vm);
      LD tm = (tol(Y) + epsof<double>() * 16 * kappam * cd.ninv * cd.ninv * Y * (p + 1) / gap) * 3;
      CHECK(near(gm, ge, tm), "shift-scale", "at %.17g: %.17g on shifted and scaled abscissas, %.17g originally (tolerance %Lg): %s", v, gm, ge, tm, d.c_str());
      c.obs("shift-scale");
    }
    c.nontrivial(H().add(v).add(ge).h);
  }
  // copies evaluate like the original
  Spline<double, 1, Deg> cp(se);
  double v = x[n / 2];
  CHECK(cp(v) == se(v), "copy", "a copy evaluates to %.17g instead of %.17g", cp(v), se(v));
}
SECTION(degree1, 1500, 30000) { run<1>(c); }
SECTION(degree2, 1500, 30000) { run<2>(c); }
SECTION(degree3, 2500, 50000) { run<3>(c); }
SECTION(degree4, 1200, 20000) { run<4>(c); }
SECTION(degree5, 1200, 20000) { run<5>(c); }
SECTION(many_points, 24, 120) { switch (c.idx % 4) { case 0: run<2>(c, true); break; case 1: run<3>(c, true); break; case 2: run<4>(c, true); break; default: run<5>(c, true); } }
}  // namespace mon
MON_MAIN
