// C22: the power series built from a Chebyshev series is the same function
#include "power_ref.h"
namespace mon {
using namespace mathutils;
static const char *DER[4] = {"value", "dx", "dy", "dz"};
static void agree(Case &c, int dim, int maxprod) {
  Series s(c.r, dim);
  orders(c.r, dim, s.n, 18, maxprod);
  int forced = -1;
  if (c.r.chance(0.25)) { forced = (int) c.r.range(0, dim - 1); for (int a = 0; a < dim; a++) s.n[a] = a == forced ? 18 : (int) c.r.range(0, dim == 2 ? 4 : 1); c.obs(fmt("order-18/%dd/axis%d", dim, forced)); }
  else if (dim > 1 && c.r.chance(dim == 2 ? 0.04 : 0.01)) { for (int a = 0; a < dim; a++) s.n[a] = (int) c.r.range(dim == 2 ? 11 : 7, dim == 2 ? 18 : 11); c.obs(fmt("high-orders-together/%dd", dim)); }
  c.obs("kind/" + s.kind);
  if (dim > 1 && s.n[0] != s.n[1]) c.obs("unequal-orders");
  if (dim > 2 && s.n[1] != s.n[2]) c.obs("unequal-orders-yz");
  Poly p = poly(c.r, dim, s.n);
  s.make_cheb([&](const double *x) { LD u[3]; for (int a = 0; a < dim; a++) u[a] = s.ax[a].unit(x[a]); return (double) p.value(u, -1); });
  s.compute();
  s.power_coefs();
  if (c.r.chance(0.3)) { s.power_coefs(); c.obs("coefficients-recomputed"); }
  if (c.r.chance(0.2)) { s.compute(); s.power_coefs(); c.obs("series-recomputed"); }
  s.make_power();
  LD S = p.scale(), N = s.count();
  for (int q = 0; q < 8; q++) {
    double x[3] = {0, 0, 0}; LD u[3];
    for (int a = 0; a < dim; a++) { const char *k; x[a] = s.ax[a].pick(c.r, &k); u[a] = s.ax[a].unit(x[a]); c.obs(std::string("point/") + k); }
    for (int der = -1; der < dim; der++) {
      // size of the power terms: product over axes of the largest |T_n| written in powers
      LD basis = 1;
      for (int a = 0; a < dim; a++) basis *= std::max((LD) 1, tabs(s.n[a], u[a], a == der)) + std::max((LD) 1, s.n[a] ? tabs(s.n[a] - 1, u[a], a == der) : 0);
      LD m = der < 0 ? 1 : s.ax[der].dunit(x[der]) * ((LD) s.n[der] * s.n[der] + 1);
      LD d = der < 0 ? 1 : s.ax[der].dunit(x[der]);
      LD tol = epsof<double>() * S * (16 * N * s.sens() * m + 16 * (N + 8) * basis * d) + 1e-300L;
      if (der >= 0 && labs_(u[der]) > 1 - 8 * epsof<double>() * s.ax[der].kappa()) tol += 2e-8L * m * S;
      double a = s.cheb(x, der), b = s.power(x, der);
      CHECK(near(a, b, tol), "power-vs-chebyshev/" + s.kind + "/" + DER[der + 1], "%s at %s of %s: power %.17g, Chebyshev %.17g (tolerance %Lg)", DER[der + 1], ps(x, dim).c_str(), s.str().c_str(), b, a, tol);
      LD ref = p.value(u, der) * d;
      CHECK(near(b, ref, tol), "power-vs-polynomial/" + s.kind + "/" + DER[der + 1], "%s at %s of %s: power %.17g, expected %.17Lg (tolerance %Lg)", DER[der + 1], ps(x, dim).c_str(), s.str().c_str(), b, ref, tol);
    }
    c.nontrivial(H().add(x[0]).add(x[1]).add(x[2]).add(s.n[0]).add(s.n[1]).add(s.n[2]).h);
  }
}
/// a power series evaluates the sum its coefficients define
static void direct(Case &c, int dim, int maxprod) {
  Series s(c.r, dim);
  orders(c.r, dim, s.n, 18, maxprod);
  random_power(c.r, s);
  s.make_power();
  Pow p; p.load(s);
  for (int q = 0; q < 6; q++) {
    double x[3] = {0, 0, 0}; LD u[3];
    for (int a = 0; a < dim; a++) { const char *k; x[a] = s.ax[a].pick(c.r, &k); u[a] = s.ax[a].unit(x[a]); }
    for (int der = -1; der < dim; der++) {
      LD mag, ref = p.eval(u, der, &mag), d = der < 0 ? 1 : s.ax[der].dunit(x[der]), tol = power_tol(s, p, u, der, mag) * d;
      double b = s.power(x, der);
      CHECK(near(b, ref * d, tol), "power-sum/" + s.kind + "/" + DER[der + 1], "%s at %s of %s: %.17g, expected %.17Lg (tolerance %Lg)", DER[der + 1], ps(x, dim).c_str(), s.str().c_str(), b, ref * d, tol);
    }
    if (dim < 3) {  // evaluation given the mapped coordinates
      double uu[2] = {c.r.uni(-1, 1), c.r.uni(-1, 1)}; LD ul[3] = {uu[0], uu[1], 0}, mag;
      LD ref = p.eval(ul, -1, &mag);
      double b = dim == 1 ? s.p1->Evaluate_unit(uu[0]) : s.p2->Evaluate_unit(uu[0], uu[1]);
      CHECK(near(b, ref, 64 * s.count() * epsof<double>() * mag + 1e-300L), "power-unit/" + s.kind, "at unit %s of %s: %.17g, expected %.17Lg", ps(uu, dim).c_str(), s.str().c_str(), b, ref);
    }
    c.nontrivial(H().add(x[0]).add(x[1]).add(x[2]).h);
  }
  c.obs("direct/" + s.kind);
}
SECTION(agree_1d, 5000, 120000) { agree(c, 1, 19); }
SECTION(agree_2d, 1500, 30000) { agree(c, 2, 120); }
SECTION(agree_3d, 320, 6000) { agree(c, 3, 100); }
SECTION(direct_1d, 4000, 60000) { direct(c, 1, 19); }
SECTION(direct_2d, 2000, 40000) { direct(c, 2, 120); }
SECTION(direct_3d, 1000, 20000) { direct(c, 3, 200); }
SECTION(agree_dense, 4, 40) { agree(c, 2, 361); agree(c, 3, 400); }
SECTION(refusal, 60, 400) {
  int dim = 1 + (int) (c.idx % 3);
  Series s(c.r, dim);
  int bad = (int) c.r.range(0, dim - 1);
  for (int a = 0; a < dim; a++) s.n[a] = a == bad ? (int) (c.r.chance(0.5) ? 19 : c.r.range(20, 40)) : (int) c.r.range(0, 3);
  s.make_cheb([](const double *) { return 1.; });
  Outcome o;
  { Quiet q; o = observe([&] { s.power_coefs(); }); }
  CHECK(refused(o), "order-accepted/" + s.kind, "conversion of %s was accepted (%s)", s.str().c_str(), oname(o));
  c.obs(fmt("refused/%dd/axis%d", dim, bad));
  if (s.n[bad] == 19) c.obs("refused-19");
  c.nontrivial(H().add(s.n[0]).add(s.n[1]).add(s.n[2]).add(dim).h);
}
}  // namespace mon
MON_MAIN
