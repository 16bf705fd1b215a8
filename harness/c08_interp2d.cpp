// C08: bilinear interpolation
#include "bilin_ref.h"
namespace mon {
using namespace mathutils;

template<class R> void probe(Case &c, const Interp2d<R> &itp, const bil::Grid<R> &g, const std::string &tag) {
  CHECK(itp.GetXmin() == g.x.front() && itp.GetXmax() == g.x.back() && itp.GetYmin() == g.y.front() && itp.GetYmax() == g.y.back(), "bounds/" + tag,
        "bounds [%g,%g]x[%g,%g]", (double) itp.GetXmin(), (double) itp.GetXmax(), (double) itp.GetYmin(), (double) itp.GetYmax());
  int nq = (int) (c.idx % 4000 == 99 ? c.r.range(60000, 70000) : c.r.range(1, 16));
  std::vector<std::vector<R>> pts;
  for (int k = 0; k < nq; k++) {
    const char *kx, *ky;
    R qx = query_in(c.r, g.x, &kx), qy = query_in(c.r, g.y, &ky);
    c.obs(std::string("query-x/") + kx);
    c.obs(std::string("query-y/") + ky);
    pts.push_back({qx, qy});
  }
  auto l1 = itp.Eval(pts), l2 = itp(pts);
  CHECK((int) l1.size() == nq && (int) l2.size() == nq, "list-size/" + tag, "%zu values for %d points", l1.size(), nq);
  for (int k = 0; k < nq && k < (int) l1.size() && k < (int) l2.size(); k++) {
    R qx = pts[k][0], qy = pts[k][1];
    auto w = bil::eval(g, qx, qy);
    R v = itp.Eval(qx, qy), v2 = itp(qx, qy);
    CHECK(near(v, w.v, w.tol), "value/" + tag, "Eval(%.17g,%.17g) = %.17g, expected %.17Lg tol %Lg (%zux%zu grid, cell %d,%d)", (double) qx, (double) qy,
          (double) v, w.v, w.tol, g.x.size(), g.y.size(), w.i, w.j);
    CHECK(near(v2, w.v, w.tol), "operator/" + tag, "operator()(%.17g,%.17g) = %.17g, expected %.17Lg", (double) qx, (double) qy, (double) v2, w.v);
    CHECK(near(l1[k], w.v, w.tol) && near(l2[k], w.v, w.tol), "list-value/" + tag, "list evaluation at (%.17g,%.17g) = %.17g, expected %.17Lg", (double) qx,
          (double) qy, (double) l1[k], w.v);
    c.nontrivial(H().add((double) qx).add((double) qy).add((double) w.v).h);
  }
}
template<class R> void life(Case &c, const char *tn) {
  bool factory = c.r.chance(0.5);
  std::unique_ptr<Interp2d<R>> itp(factory ? Interp2d<R>::MakeInterp2d(LINEAR) : new Interp2dLinear<R>());
  int rounds = c.r.chance(0.4) ? (int) c.r.range(2, 4) : 1;
  const bool keep = c.r.chance(0.4);  // the caller keeps its vectors, refills them and initialises again from the same pointers
  auto kx = std::make_shared<std::vector<R>>(), ky = std::make_shared<std::vector<R>>(), kd = std::make_shared<std::vector<R>>();
  for (int k = 0; k < rounds; k++) {
    auto g = bil::grid<R>(c.r);
    if (keep && k && c.r.chance(0.5)) g = bil::grid_on<R>(c.r, sorted_axis<R>(c.r, (int) kx->size()), sorted_axis<R>(c.r, (int) ky->size()));
    if (keep) { *kx = g.x; *ky = g.y; *kd = g.d; itp->Initialize(kx, ky, kd); if (k) c.obs("same-pointers"); }
    else itp->Initialize(std::make_shared<std::vector<R>>(g.x), std::make_shared<std::vector<R>>(g.y), std::make_shared<std::vector<R>>(g.d));
    probe(c, *itp, g, std::string(tn) + (k ? "/again" : ""));
    if (k) c.obs("re-initialised");
    c.obs(g.x.size() == g.y.size() ? "grid/square" : g.x.size() > g.y.size() ? "grid/tall" : "grid/wide");
    if (g.x.size() == 2 || g.y.size() == 2) c.obs("grid/2-points");
    c.obs(std::string("type/") + tn);
  }
}
SECTION(d, 8000, 250000) { life<double>(c, "double"); }
SECTION(f, 4000, 100000) { life<float>(c, "float"); }
// a copy keeps its grid whatever becomes of the original, and the other way round
SECTION(copies, 1500, 40000) {
  typedef Interp2dLinear<double> I;
  auto fresh = [&](I &i, bil::Grid<double> &g) { g = bil::grid<double>(c.r); i.Initialize(std::make_shared<std::vector<double>>(g.x), std::make_shared<std::vector<double>>(g.y), std::make_shared<std::vector<double>>(g.d)); };
  std::unique_ptr<I> a(new I()), b;
  bil::Grid<double> ga, gb;
  fresh(*a, ga);
  if (c.r.chance(0.5)) b.reset(new I(*a)); else { b.reset(new I()); if (c.r.chance(0.5)) fresh(*b, gb); *b = *a; }
  gb = ga;
  for (int k = 0; k < 3; k++) {
    if (a) probe<double>(c, *a, ga, "original");
    probe<double>(c, *b, gb, "copy");
    switch (c.r.range(0, 2)) { case 0: if (a) fresh(*a, ga); break; case 1: fresh(*b, gb); break; default: a.reset(); }
  }
  c.obs("copied");
}
SECTION(outside, 240, 3000) {
  auto g = bil::grid<double>(c.r);
  double qx = query_in(c.r, g.x), qy = query_in(c.r, g.y);
  int side = (int) c.r.range(0, 3);
  double far = c.r.chance(0.4) ? 0 : c.r.uni(0.001, 5) * (side < 2 ? g.x.back() - g.x.front() : g.y.back() - g.y.front());
  if (side == 0) qx = far ? g.x.front() - far : ulp_down(g.x.front());
  if (side == 1) qx = far ? g.x.back() + far : ulp_up(g.x.back());
  if (side == 2) qy = far ? g.y.front() - far : ulp_down(g.y.front());
  if (side == 3) qy = far ? g.y.back() + far : ulp_up(g.y.back());
  int how = (int) c.r.range(0, 2);
  Outcome o = observe([&]() {
    Interp2dLinear<double> itp;
    itp.Initialize(std::make_shared<std::vector<double>>(g.x), std::make_shared<std::vector<double>>(g.y), std::make_shared<std::vector<double>>(g.d));
    if (how == 0) itp.Eval(qx, qy);
    else if (how == 1) itp(qx, qy);
    else itp.Eval(std::vector<std::vector<double>>{{g.x[0], g.y[0]}, {qx, qy}});
  });
  CHECK(refused(o), "outside-answered", "point (%.17g,%.17g) outside [%g,%g]x[%g,%g]: %s", qx, qy, g.x.front(), g.x.back(), g.y.front(), g.y.back(), oname(o));
  c.obs("outside/" + std::to_string(side));
}
}  // namespace mon
MON_MAIN
