// C23: shortcuts of the three-dimensional power series
#define RECYCLE_MAIN
#include "recycle.h"
#include "power_ref.h"
namespace mon {
using namespace mathutils;
static const double FAR = 1e300;
SECTION(histories, 3000, 80000) {
  Series s(c.r, 3);
  orders(c.r, 3, s.n, 18, 200);
  random_power(c.r, s);
  s.make_power();
  Pow p; p.load(s);
  PowerSeries3dBase<double> &P = *s.p3;
  c.obs("kind/" + s.kind);
  if (s.n[0] != s.n[1] && s.n[1] != s.n[2]) c.obs("unequal-orders");
  auto ok = [&](double got, const double *x, bool inf, int der, const std::string &what) {
    LD u[3];
    for (int a = 0; a < 3; a++) u[a] = a == 2 && inf ? 1 : s.ax[a].unit(x[a]);
    LD mag, d = der < 0 ? 1 : s.ax[der].dunit(x[der]), ref = p.eval(u, der, &mag) * d, tol = 2 * power_tol(s, p, u, der, mag) * d;
    CHECK(near(got, ref, tol), what + "/" + s.kind, "%s at %s%s of %s: %.17g, expected %.17Lg (tolerance %Lg)", what.c_str(), ps(x, 3).c_str(), inf ? " (z infinite)" : "", s.str().c_str(), got, ref, tol);
    return tol;
  };
  struct Fixed { MatrixMN<double> m; double z; bool inf; };
  std::vector<Fixed> fixed;
  int ops = (int) c.r.range(4, 20);
  for (int op = 0; op < ops; op++) {
    const char *k;
    double x[3];
    for (int a = 0; a < 3; a++) x[a] = s.ax[a].pick(c.r, &k);
    switch (fixed.empty() ? 0 : c.r.range(0, 5)) {
      case 0: case 1: {  // fix z (again), or the far end
        Fixed f; f.inf = s.ax[2].open && c.r.chance(0.3); f.z = x[2];
        f.m = f.inf ? P.Compute_cij_zinf() : P.Compute_cij(f.z);
        CHECK(f.m.rows() == s.n[0] + 1 && f.m.cols() == s.n[1] + 1, "cij-shape/" + s.kind, "coefficients are %dx%d for %s", (int) f.m.rows(), (int) f.m.cols(), s.str().c_str());
        if (fixed.size() > 3) fixed.erase(fixed.begin());
        fixed.push_back(f);
        c.obs(f.inf ? "fixed/far-end" : fixed.size() > 1 ? "fixed/again" : "fixed/first");
        break;
      }
      case 2: {  // general evaluation in between
        double f, fx, fy;
        P.Evaluate_f_dfdx_dfdy(x[0], x[1], x[2], f, fx, fy);
        ok(f, x, false, -1, "joint-value"); ok(fx, x, false, 0, "joint-dx"); ok(fy, x, false, 1, "joint-dy");
        ok(P.Evaluate(x[0], x[1], x[2]), x, false, -1, "general-value");
        ok(P.Evaluate_derivative_z(x[0], x[1], x[2]), x, false, 2, "general-dz");
        c.obs("general");
        break;
      }
      case 3: {
        if (!s.ax[2].open) break;
        LD t = ok(P.Evaluate_zinf(x[0], x[1]), x, true, -1, "zinf-value");
        LD tx = ok(P.Evaluate_derivative_x_zinf(x[0], x[1]), x, true, 0, "zinf-dx");
        LD ty = ok(P.Evaluate_derivative_y_zinf(x[0], x[1]), x, true, 1, "zinf-dy");
        double z = s.ax[2].lo * FAR > FAR ? FAR : s.ax[2].lo * FAR;
        CHECK(near(P.Evaluate_zinf(x[0], x[1]), P.Evaluate(x[0], x[1], z), 2 * t), "zinf-vs-general/" + s.kind, "differs from the general evaluation at z=%g for %s", z, s.str().c_str());
        CHECK(near(P.Evaluate_derivative_x_zinf(x[0], x[1]), P.Evaluate_derivative_x(x[0], x[1], z), 2 * tx), "zinf-vs-general-dx/" + s.kind, "differs from the general evaluation at z=%g for %s", z, s.str().c_str());
        CHECK(near(P.Evaluate_derivative_y_zinf(x[0], x[1]), P.Evaluate_derivative_y(x[0], x[1], z), 2 * ty), "zinf-vs-general-dy/" + s.kind, "differs from the general evaluation at z=%g for %s", z, s.str().c_str());
        c.obs("zinf");
        break;
      }
      default: break;
    }
    // every z fixed so far still gives the numbers of the general evaluation at that z
    for (auto &f : fixed) {
      double y[3] = {x[0], x[1], f.z}, v, vx, vy;
      LD t = ok(P.Evaluate_z_predefined(x[0], x[1], f.m), y, f.inf, -1, "predefined-value");
      LD tx = ok(P.Evaluate_derivative_x_z_predefined(x[0], x[1], f.m), y, f.inf, 0, "predefined-dx");
      LD ty = ok(P.Evaluate_derivative_y_z_predefined(x[0], x[1], f.m), y, f.inf, 1, "predefined-dy");
      P.Evaluate_f_dfdx_dfdy_z_predefined(x[0], x[1], f.m, v, vx, vy);
      ok(v, y, f.inf, -1, "predefined-joint-value"); ok(vx, y, f.inf, 0, "predefined-joint-dx"); ok(vy, y, f.inf, 1, "predefined-joint-dy");
      if (!f.inf) {
        CHECK(near(P.Evaluate_z_predefined(x[0], x[1], f.m), P.Evaluate(x[0], x[1], f.z), 2 * t), "predefined-vs-general/" + s.kind, "value differs from the general evaluation at %s", ps(y, 3).c_str());
        CHECK(near(P.Evaluate_derivative_x_z_predefined(x[0], x[1], f.m), P.Evaluate_derivative_x(x[0], x[1], f.z), 2 * tx), "predefined-vs-general-dx/" + s.kind, "x-derivative differs from the general evaluation at %s", ps(y, 3).c_str());
        CHECK(near(P.Evaluate_derivative_y_z_predefined(x[0], x[1], f.m), P.Evaluate_derivative_y(x[0], x[1], f.z), 2 * ty), "predefined-vs-general-dy/" + s.kind, "y-derivative differs from the general evaluation at %s", ps(y, 3).c_str());
      }
      c.nontrivial(H().add(x[0]).add(x[1]).add(f.z).h);
    }
  }
  // accessors
  auto B = P.bijk();
  bool same = B.size() == s.b3.size();
  for (size_t k = 0; same && k < B.size(); k++) same = B[k].rows() == s.b3[k].rows() && B[k].cols() == s.b3[k].cols() && (B[k].array() == s.b3[k].array()).all();
  CHECK(same, "accessor-coefficients/" + s.kind, "the coefficients of %s are not returned as given", s.str().c_str());
  CHECK(P.xmin() == s.ax[0].lo && P.ymin() == s.ax[1].lo && P.zmin() == s.ax[2].lo, "accessor-min/" + s.kind, "lower ends (%g,%g,%g) of %s", P.xmin(), P.ymin(), P.zmin(), s.str().c_str());
  CHECK(P.order_x() == s.n[0] && P.order_y() == s.n[1] && P.order_z() == s.n[2], "accessor-order/" + s.kind, "orders (%d,%d,%d) of %s", P.order_x(), P.order_y(), P.order_z(), s.str().c_str());
  std::string ty = s.kind == "3d-closed" ? "PowerSeries3dClosed" : s.kind == "3d-z-opened" ? "PowerSeries3dZOpenedXYClosed" : "PowerSeries3dYZOpenedXClosed";
  CHECK(P.type() == ty, "accessor-type/" + s.kind, "type '%s' of %s", P.type().c_str(), s.str().c_str());
  if (auto q = dynamic_cast<PowerSeries3dClosed<double> *>(&P)) CHECK(q->xmax() == s.ax[0].hi && q->ymax() == s.ax[1].hi && q->zmax() == s.ax[2].hi, "accessor-max/" + s.kind, "upper ends (%g,%g,%g) of %s", q->xmax(), q->ymax(), q->zmax(), s.str().c_str());
  if (auto q = dynamic_cast<PowerSeries3dZOpenedXYClosed<double> *>(&P)) CHECK(q->xmax() == s.ax[0].hi && q->ymax() == s.ax[1].hi, "accessor-max/" + s.kind, "upper ends (%g,%g) of %s", q->xmax(), q->ymax(), s.str().c_str());
  if (auto q = dynamic_cast<PowerSeries3dYZOpenedXClosed<double> *>(&P)) CHECK(q->xmax() == s.ax[0].hi, "accessor-max/" + s.kind, "upper end %g of %s", q->xmax(), s.str().c_str());
}
// z fixed once for one series and then, at the same value, for another one built where the first used to be
SECTION(rebuilt, 1500, 30000) {
  Series s(c.r, 3);
  orders(c.r, 3, s.n, 12, 120);
  const char *k;
  double z = s.ax[2].pick(c.r, &k);
  bool inf = s.ax[2].open && c.r.chance(0.3);
  for (int round = 0; round < 3; round++) {
    random_power(c.r, s);
    Recycling rec;
    s.make_power();
    Pow p; p.load(s);
    MatrixMN<double> m = inf ? s.p3->Compute_cij_zinf() : s.p3->Compute_cij(z);
    for (int i = 0; i < 3; i++) {
      double x[3] = {s.ax[0].pick(c.r, &k), s.ax[1].pick(c.r, &k), z};
      LD u[3];
      for (int a = 0; a < 3; a++) u[a] = a == 2 && inf ? 1 : s.ax[a].unit(x[a]);
      LD mag, ref = p.eval(u, -1, &mag), tol = 2 * power_tol(s, p, u, -1, mag);
      double got = s.p3->Evaluate_z_predefined(x[0], x[1], m);
      CHECK(near(got, ref, tol), "rebuilt/" + s.kind, "series %d built in turn, z fixed at %s: %.17g, expected %.17Lg (tolerance %Lg)", round, inf ? "the far end" : fmt("%.17g", z).c_str(), got, ref, tol);
      c.nontrivial(H().add(x[0]).add(got).add(round).h);
    }
    s.p3.reset();
  }
  c.obs(inf ? "rebuilt/far-end" : "rebuilt/value");
}
}  // namespace mon
MON_MAIN
