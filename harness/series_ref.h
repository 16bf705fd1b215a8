// Domains, separable Chebyshev polynomials in long double and error scales shared by the series harnesses.
#pragma once
#include "mon.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
namespace mon {
using namespace mathutils;
static const LD PI_L = 3.141592653589793238462643383279502884L;
struct Axis {
  bool open = false;
  double lo = -1, hi = 1;
  LD unit(double x) const { return open ? 1 - 2 * ((LD) lo / x) : (2 * (LD) x - lo - (LD) hi) / ((LD) hi - lo); }
  LD dunit(double x) const { return open ? 2 * (LD) lo / ((LD) x * x) : 2 / ((LD) hi - lo); }
  LD back(LD u) const { return open ? 2 * (LD) lo / (1 - u) : 0.5L * (((LD) hi - lo) * u + (LD) hi + lo); }
  LD kappa() const { return open ? 2 : 1 + (labs_(lo) + labs_(hi)) / ((LD) hi - lo); }
  bool inside(double x) const { return open ? x >= lo * (1 - 1e-14) : x >= lo - 4e-16 * (fabs(lo) + fabs(hi)) && x <= hi + 4e-16 * (fabs(lo) + fabs(hi)); }
  double pick(Rng &r, const char **kind) const {
    if (open) switch (r.range(0, 6)) {
      case 0: *kind = "open-start"; return lo;
      case 1: *kind = "open-start-ulp"; return ulp_up(lo);
      case 2: *kind = "open-far"; return lo * std::pow(10., r.uni(1, 12));
      case 3: *kind = "open-near"; return lo * (1 + std::pow(10., r.uni(-8, 0)));
      default: *kind = "open-middle"; return std::max(lo, (double) back(r.uni(-1, 0.98)));
    }
    switch (r.range(0, 7)) {
      case 0: *kind = "closed-start"; return lo;
      case 1: *kind = "closed-end"; return hi;
      case 2: *kind = "closed-middle"; return (double) back(0);
      case 3: *kind = "closed-ulp"; return r.chance(0.5) ? ulp_up(lo) : ulp_down(hi);
      default: *kind = "closed-inside"; return std::min(hi, std::max(lo, (double) back(r.uni(-1, 1))));
    }
  }
  std::string str() const { return open ? fmt("[%.17g,inf)", lo) : fmt("[%.17g,%.17g]", lo, hi); }
};
inline Axis closed(Rng &r) {
  Axis a;
  switch (r.range(0, 5)) {
    case 0: a.lo = -1; a.hi = 1; break;
    case 1: a.lo = 0; a.hi = std::pow(10., r.uni(-4, 4)); break;
    case 2: a.lo = -std::pow(10., r.uni(-4, 4)); a.hi = 0; break;
    case 3: { double o = r.gauss() * 100; a.lo = o; a.hi = o + std::pow(10., r.uni(-1, 2)); break; }  // offset domain
    case 4: { double o = r.logmag(1e-3, 1e5); a.lo = o; a.hi = o + std::pow(10., r.uni(-2, 5)); break; }
    default: a.lo = r.uni(-3, 1); a.hi = a.lo + r.uni(0.1, 5); break;
  }
  return a;
}
inline Axis opened(Rng &r) { Axis a; a.open = true; a.lo = r.chance(0.3) ? 1 : std::pow(10., r.uni(-4, 5)); a.hi = INFINITY; return a; }
/// T_0..T_n and T'_0..T'_n at u
inline void cheb(LD u, int n, std::vector<LD> &t, std::vector<LD> &d) {
  t.assign(n + 1, 1); d.assign(n + 1, 0);
  if (n >= 1) { t[1] = u; d[1] = 1; }
  for (int k = 2; k <= n; k++) { t[k] = 2 * u * t[k - 1] - t[k - 2]; d[k] = 2 * t[k - 1] + 2 * u * d[k - 1] - d[k - 2]; }
}
/// sum of products of Chebyshev sums, one per axis
struct Poly {
  int dim;
  std::vector<std::vector<std::vector<LD>>> c;  // [term][axis][degree]
  LD value(const LD *u, int der) const {  // der = axis to differentiate (in the mapped variable), or -1
    std::vector<std::vector<LD>> t(dim), d(dim);
    for (int a = 0; a < dim; a++) cheb(u[a], (int) c[0][a].size() - 1, t[a], d[a]);
    LD s = 0;
    for (auto &term : c) {
      LD p = 1;
      for (int a = 0; a < dim; a++) { LD q = 0; for (size_t k = 0; k < term[a].size(); k++) q += term[a][k] * (a == der ? d[a][k] : t[a][k]); p *= q; }
      s += p;
    }
    return s;
  }
  LD scale() const { LD s = 0; for (auto &t : c) { LD p = 1; for (int a = 0; a < dim; a++) { LD q = 0; for (LD x : t[a]) q += labs_(x); p *= q; } s += p; } return s; }
  LD coef(int i, int j = 0, int k = 0) const {
    LD s = 0;
    for (auto &t : c) { LD p = t[0][i]; if (dim > 1) p *= t[1][j]; if (dim > 2) p *= t[2][k]; s += p; }
    return s;
  }
};
inline Poly poly(Rng &r, int dim, const int *n) {
  Poly p; p.dim = dim;
  int terms = dim == 1 ? 1 : (int) r.range(1, 3), sparse = (int) r.range(0, 3);
  double amp = r.chance(0.4) ? std::pow(10., r.chance(0.5) ? r.uni(-6, 6) : r.uni(-100, 100)) : 1;
  for (int t = 0; t < terms; t++) {
    std::vector<std::vector<LD>> term;
    for (int a = 0; a < dim; a++) {
      std::vector<LD> v(n[a] + 1);
      for (auto &x : v) x = sparse == 0 && r.chance(0.7) ? 0 : r.gauss();
      if (sparse == 1) { for (auto &x : v) x = 0; v[r.range(0, n[a])] = 1; }   // a single basis polynomial
      if (a == 0) for (auto &x : v) x *= amp;
      term.push_back(v);
    }
    p.c.push_back(term);
  }
  return p;
}
/// orders with a bounded number of coefficients
inline void orders(Rng &r, int dim, int *n, int maxn, int maxprod) {
  for (;;) {
    int prod = 1;
    for (int a = 0; a < dim; a++) { n[a] = r.chance(0.15) ? (int) r.range(0, 1) : (int) r.range(0, r.chance(dim == 1 ? 1 : 0.3) ? maxn : 6); prod *= n[a] + 1; }
    if (prod <= maxprod) return;
  }
}
struct F1 : Function1d<double> { std::function<double(const double *)> f; double Evaluate(const double &x) const override { return f(&x); } };
struct F2 : Function2d<double> { std::function<double(const double *)> f; double Evaluate(const double &x, const double &y) const override { double p[2] = {x, y}; return f(p); } };
struct F3 : Function3d<double> { std::function<double(const double *)> f; double Evaluate(const double &x, const double &y, const double &z) const override { double p[3] = {x, y, z}; return f(p); } };
/// uniform view of the three dimensions and their domain kinds
struct Series {
  int dim; Axis ax[3]; int n[3] = {0, 0, 0}; std::string kind;
  F1 f1; F2 f2; F3 f3;
  std::unique_ptr<ChebyshevSeries1dBase<double>> s1; std::unique_ptr<ChebyshevSeries2dBase<double>> s2; std::unique_ptr<ChebyshevSeries3dBase<double>> s3;
  std::unique_ptr<PowerSeries1dBase<double>> p1; std::unique_ptr<PowerSeries2dBase<double>> p2; std::unique_ptr<PowerSeries3dBase<double>> p3;
  VectorN<double> b1; MatrixMN<double> b2; std::vector<MatrixMN<double>> b3;
  Series(Rng &r, int d) : dim(d) {
    int k = (int) r.range(0, dim == 1 ? 1 : 2);
    for (int a = 0; a < dim; a++) ax[a] = closed(r);
    if (dim == 1) { kind = k ? "1d-opened" : "1d-closed"; if (k) ax[0] = opened(r); }
    if (dim == 2) { kind = k == 0 ? "2d-closed" : k == 1 ? "2d-opened" : "2d-mixed"; if (k) ax[1] = opened(r); if (k == 1) ax[0] = opened(r); }
    if (dim == 3) { kind = k == 0 ? "3d-closed" : k == 1 ? "3d-yz-opened" : "3d-z-opened"; if (k) ax[2] = opened(r); if (k == 1) ax[1] = opened(r); }
  }
  void make_cheb(std::function<double(const double *)> f) {
    f1.f = f2.f = f3.f = f;
    const Axis &x = ax[0], &y = ax[1], &z = ax[2];
    if (kind == "1d-closed") s1.reset(new ChebyshevSeries1dClosed<double>(&f1, x.lo, x.hi, n[0]));
    if (kind == "1d-opened") s1.reset(new ChebyshevSeries1dOpened<double>(&f1, x.lo, n[0]));
    if (kind == "2d-closed") s2.reset(new ChebyshevSeries2dClosed<double>(&f2, x.lo, x.hi, y.lo, y.hi, n[0], n[1]));
    if (kind == "2d-opened") s2.reset(new ChebyshevSeries2dOpened<double>(&f2, x.lo, y.lo, n[0], n[1]));
    if (kind == "2d-mixed") s2.reset(new ChebyshevSeries2dMixed<double>(&f2, x.lo, x.hi, y.lo, n[0], n[1]));
    if (kind == "3d-closed") s3.reset(new ChebyshevSeries3dClosed<double>(&f3, x.lo, x.hi, y.lo, y.hi, z.lo, z.hi, n[0], n[1], n[2]));
    if (kind == "3d-yz-opened") s3.reset(new ChebyshevSeries3dYZOpenedXClosed<double>(&f3, x.lo, x.hi, y.lo, z.lo, n[0], n[1], n[2]));
    if (kind == "3d-z-opened") s3.reset(new ChebyshevSeries3dZOpenedXYClosed<double>(&f3, x.lo, x.hi, y.lo, y.hi, z.lo, n[0], n[1], n[2]));
  }
  void compute() { if (dim == 1) s1->Compute_ai(); if (dim == 2) s2->Compute_aij(); if (dim == 3) s3->Compute_aijk(); }
  void power_coefs() { if (dim == 1) b1 = s1->Compute_bi(); if (dim == 2) b2 = s2->Compute_bij(); if (dim == 3) b3 = s3->Compute_bijk(); }
  void make_power() {  // from b1, b2, b3; the caller's arrays are reused and released afterwards
    VectorN<double> b1 = this->b1; MatrixMN<double> b2 = this->b2; std::vector<MatrixMN<double>> b3 = this->b3;
    const Axis &x = ax[0], &y = ax[1], &z = ax[2];
    if (kind == "1d-closed") p1.reset(new PowerSeries1dClosed<double>(b1, x.lo, x.hi));
    if (kind == "1d-opened") p1.reset(new PowerSeries1dOpened<double>(b1, x.lo));
    if (kind == "2d-closed") p2.reset(new PowerSeries2dClosed<double>(b2, x.lo, x.hi, y.lo, y.hi));
    if (kind == "2d-opened") p2.reset(new PowerSeries2dOpened<double>(b2, x.lo, y.lo));
    if (kind == "2d-mixed") p2.reset(new PowerSeries2dMixed<double>(b2, x.lo, x.hi, y.lo));
    if (kind == "3d-closed") p3.reset(new PowerSeries3dClosed<double>(b3, x.lo, x.hi, y.lo, y.hi, z.lo, z.hi));
    if (kind == "3d-yz-opened") p3.reset(new PowerSeries3dYZOpenedXClosed<double>(b3, x.lo, x.hi, y.lo, z.lo));
    if (kind == "3d-z-opened") p3.reset(new PowerSeries3dZOpenedXYClosed<double>(b3, x.lo, x.hi, y.lo, y.hi, z.lo));
    if (dim == 1) b1.setConstant(0.12345); else if (dim == 2) b2.setConstant(0.12345); else for (auto &m : b3) m.setConstant(0.12345);
  }
  double cheb(const double *p, int der) const {
    if (dim == 1) return der < 0 ? s1->Evaluate(p[0]) : s1->Evaluate_derivative_x(p[0]);
    if (dim == 2) return der < 0 ? s2->Evaluate(p[0], p[1]) : der == 0 ? s2->Evaluate_derivative_x(p[0], p[1]) : s2->Evaluate_derivative_y(p[0], p[1]);
    return der < 0 ? s3->Evaluate(p[0], p[1], p[2]) : der == 0 ? s3->Evaluate_derivative_x(p[0], p[1], p[2]) : der == 1 ? s3->Evaluate_derivative_y(p[0], p[1], p[2]) : s3->Evaluate_derivative_z(p[0], p[1], p[2]);
  }
  double power(const double *p, int der) const {
    if (dim == 1) return der < 0 ? p1->Evaluate(p[0]) : p1->Evaluate_derivative_x(p[0]);
    if (dim == 2) return der < 0 ? p2->Evaluate(p[0], p[1]) : der == 0 ? p2->Evaluate_derivative_x(p[0], p[1]) : p2->Evaluate_derivative_y(p[0], p[1]);
    return der < 0 ? p3->Evaluate(p[0], p[1], p[2]) : der == 0 ? p3->Evaluate_derivative_x(p[0], p[1], p[2]) : der == 1 ? p3->Evaluate_derivative_y(p[0], p[1], p[2]) : p3->Evaluate_derivative_z(p[0], p[1], p[2]);
  }
  LD count() const { LD c = 1; for (int a = 0; a < dim; a++) c *= n[a] + 1; return c; }
  LD sens() const { LD s = 1; for (int a = 0; a < dim; a++) s += (LD) n[a] * n[a] * ax[a].kappa(); return s; }
  std::string str() const { std::string s = kind; for (int a = 0; a < dim; a++) s += fmt(" order %d on %s", n[a], ax[a].str().c_str()); return s; }
};
inline std::string ps(const double *p, int dim) { std::string s = "("; for (int a = 0; a < dim; a++) s += fmt(a ? ",%.17g" : "%.17g", p[a]); return s + ")"; }
}
