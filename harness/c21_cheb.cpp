// C21: Chebyshev series interpolate at the nodes, reproduce polynomials of the mapped coordinates, recompute identically
#include "series_ref.h"
namespace mon {
using namespace mathutils;
static const char *DER[4] = {"value", "dx", "dy", "dz"};
template<class G> static void audit(Case &c, Series &s, const Poly &p, const std::string &what, int npts, G &&tag) {
  LD S = p.scale(), E = epsof<double>() * 16 * s.count() * s.sens() * S;
  for (int q = 0; q < npts; q++) {
    double x[3] = {0, 0, 0}; LD u[3];
    for (int a = 0; a < s.dim; a++) { const char *k; x[a] = s.ax[a].pick(c.r, &k); u[a] = s.ax[a].unit(x[a]); c.obs(std::string("point/") + k); }
    for (int der = -1; der < s.dim; der++) {
      LD ref = p.value(u, der), tol = E;
      if (der >= 0) {
        LD d = s.ax[der].dunit(x[der]), m = d * ((LD) s.n[der] * s.n[der] + 1);
        ref *= d; tol *= m;
        // an end of the domain may be mapped one rounding outside [-1,1], where Boost evaluates U_n as a difference quotient over sqrt(u^2-1)
        if (labs_(u[der]) > 1 - 8 * epsof<double>() * s.ax[der].kappa()) { tol += 2e-8L * m * S; c.obs("domain-end-derivative"); }
      }
      tol += 1e-300L;
      double got = s.cheb(x, der);
      CHECK(near(got, ref, tol), what + "/" + s.kind + "/" + DER[der + 1], "%s at %s of %s: %.17g, expected %.17Lg (tolerance %Lg)", DER[der + 1], ps(x, s.dim).c_str(), s.str().c_str(), got, ref, tol);
    }
    c.nontrivial(H().add(x[0]).add(x[1]).add(x[2]).add(s.n[0]).add(s.n[1]).add(s.n[2]).h);
  }
  tag();
}
/// now and then one high order, the others zero or one
static void pick_orders(Case &c, int dim, int *n, int maxn, int maxprod) {
  orders(c.r, dim, n, maxn, maxprod);
  if (!c.r.chance(0.08)) return;
  int a = (int) c.r.range(0, dim - 1);
  for (int b = 0; b < dim; b++) n[b] = (int) c.r.range(0, 1);
  n[a] = (int) c.r.range(20, 70);
  c.obs(fmt("tall/%dd/%d", dim, a));
}
static void polynomials(Case &c, int dim, int maxn, int maxprod) {
  Series s(c.r, dim);
  pick_orders(c, dim, s.n, maxn, maxprod);
  c.obs("kind/" + s.kind);
  c.obs(fmt("order-x/%dd/%d", dim, s.n[0]));
  for (int a = 0; a < dim; a++) if (s.n[a] == 0) c.obs("order-zero");
  if (dim > 1 && s.n[0] != s.n[1]) c.obs("unequal-orders");
  Poly p = poly(c.r, dim, s.n), p2 = poly(c.r, dim, s.n);
  const Poly *cur = &p;
  long bad = 0; double badx = 0;
  s.make_cheb([&](const double *x) {
    LD u[3];
    for (int a = 0; a < dim; a++) { if (!s.ax[a].inside(x[a])) { bad++; badx = x[a]; } u[a] = s.ax[a].unit(x[a]); }
    return (double) cur->value(u, -1);
  });
  s.compute();
  CHECK(bad == 0, "sampled-outside/" + s.kind, "the function was sampled outside its domain (%.17g) for %s", badx, s.str().c_str());
  audit(c, s, p, "polynomial", 6, [] {});
  int again = (int) c.r.range(0, 2);
  for (int i = 0; i < again; i++) { s.compute(); audit(c, s, p, "recomputed", 3, [&] { c.obs(fmt("recomputed/%dd", dim)); }); }
  if (c.r.chance(0.3)) { cur = &p2; s.compute(); audit(c, s, p2, "recomputed-other", 3, [&] { c.obs("recomputed-other-function"); }); }
}
static void nodes(Case &c, int dim, int maxn, int maxprod) {
  Series s(c.r, dim);
  pick_orders(c, dim, s.n, maxn, maxprod);
  LD w[3], ph[3];
  for (int a = 0; a < 3; a++) { w[a] = c.r.uni(0.3, 30); ph[a] = c.r.uni(0, 6); }
  LD amp = c.r.chance(0.3) ? powl(10.L, c.r.uni(-60, 60)) : 1;
  auto g = [&](const LD *u) { LD v = amp; for (int a = 0; a < dim; a++) v *= sinl(w[a] * u[a] + ph[a]) + (a == 0 ? 0.3L : 0.1L); return v; };
  s.make_cheb([&](const double *x) { LD u[3]; for (int a = 0; a < dim; a++) u[a] = s.ax[a].unit(x[a]); return (double) g(u); });
  s.compute();
  if (c.r.chance(0.3)) s.compute();
  LD sens = 1;
  for (int a = 0; a < dim; a++) sens += ((LD) s.n[a] * s.n[a] + w[a]) * s.ax[a].kappa();
  LD N = s.count(), tol = amp * epsof<double>() * 16 * N * sens * 3 * N;  // series scale: sum of N coefficients of size <= 2
  for (int q = 0; q < 20; q++) {
    double x[3] = {0, 0, 0}; LD u[3];
    for (int a = 0; a < dim; a++) {
      long k = c.r.range(0, s.n[a]);
      if (q == 0) k = 0;
      if (q == 1) k = s.n[a];
      x[a] = (double) s.ax[a].back(cosl(PI_L / 2 * (2 * k + 1) / (s.n[a] + 1)));
      u[a] = s.ax[a].unit(x[a]);
    }
    double got = s.cheb(x, -1);
    LD ref = g(u);
    CHECK(near(got, ref, tol), "node/" + s.kind, "at the node %s of %s: %.17g, function %.17Lg (tolerance %Lg)", ps(x, dim).c_str(), s.str().c_str(), got, ref, tol);
    c.nontrivial(H().add(x[0]).add(x[1]).add(x[2]).h);
  }
  c.obs("nodes/" + s.kind);
  // the derivatives are those of the approximation itself (no polynomial assumption): difference quotients inside the domain
  for (int q = 0; q < 3; q++) {
    double x[3] = {0, 0, 0}; LD u[3];
    for (int a = 0; a < dim; a++) { u[a] = c.r.uni(-0.9, 0.9); x[a] = (double) s.ax[a].back(u[a]); }
    for (int der = 0; der < dim; der++) {
      LD nn = (LD) s.n[der] + 1, h = 1e-3L / (nn * nn), d = 0;
      // five-point stencil in the mapped variable
      double y[3] = {x[0], x[1], x[2]};
      LD uu[4], v[4];
      for (int k = 0; k < 4; k++) { static const int o[4] = {-2, -1, 1, 2}; y[der] = (double) s.ax[der].back(u[der] + o[k] * h); uu[k] = s.ax[der].unit(y[der]); v[k] = s.cheb(y, -1); }
      d = (8 * (v[2] - v[1]) - (v[3] - v[0])) / (8 * (uu[2] - uu[1]) - (uu[3] - uu[0])) * 1.0L;
      LD got = s.cheb(x, der) / s.ax[der].dunit(x[der]);
      // truncation h^4 f5/30, rounding eps*kappa*slope/h
      LD S = 3 * N * amp, t = S * nn * nn * 1e-6L + 8 * epsof<double>() * S * N * (1 + nn * nn * s.ax[der].kappa()) / h;
      if (t < S * nn * nn * 0.05L) {
        CHECK(near(got, d, t), "derivative-of-approximation/" + s.kind + "/" + DER[der + 1], "derivative %Lg, difference quotient %Lg (tolerance %Lg) at %s of %s", got, d, t, ps(x, dim).c_str(), s.str().c_str());
        c.obs("derivative-quotient");
      }
    }
  }
}
SECTION(polynomial_1d, 6000, 150000) { polynomials(c, 1, 24, 25); }
SECTION(polynomial_2d, 1500, 30000) { polynomials(c, 2, 20, 120); }
SECTION(polynomial_3d, 400, 6000) { polynomials(c, 3, 16, 120); }
SECTION(nodes_1d, 3000, 60000) { nodes(c, 1, 24, 25); }
SECTION(nodes_2d, 1000, 20000) { nodes(c, 2, 20, 120); }
SECTION(nodes_3d, 250, 4000) { nodes(c, 3, 12, 100); }
SECTION(dense_high, 4, 30) { polynomials(c, 3, 9, 600); polynomials(c, 2, 24, 500); }
}  // namespace mon
MON_MAIN
