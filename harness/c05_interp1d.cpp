// C05: 1D linear interpolation inside the table range
#include "interp_ref.h"
namespace mon {
using namespace mathutils;

template<class X, class Y>
void probe(Case &c, const Interp1d<X, Y> &itp, const std::vector<X> &x, const std::vector<Y> &y, const std::string &tag, int nq) {
  CHECK(itp.GetXmin() == x.front() && itp.GetXmax() == x.back(), "bounds/" + tag, "[%g,%g] reported for table %s", (double) itp.GetXmin(),
        (double) itp.GetXmax(), vs(ref::dv(x)).c_str());
  std::vector<X> qs;
  for (int k = 0; k < nq; k++) {
    const char *kind;
    X q = query_in(c.r, x, &kind);
    c.obs(std::string("query/") + kind);
    qs.push_back(q);
  }
  int order = (int) c.r.range(0, 3);
  if (order == 1) std::sort(qs.begin(), qs.end());
  if (order == 2) std::sort(qs.rbegin(), qs.rend());
  std::vector<Y> all = itp.Eval(qs), all2 = itp(qs);
  CHECK(all.size() == qs.size() && all2.size() == qs.size(), "vector-size/" + tag, "%zu values for %zu queries", all.size(), qs.size());
  for (size_t k = 0; k < qs.size() && k < all.size() && k < all2.size(); k++) {
    Y v = itp.Eval(qs[k]), v2 = itp(qs[k]);
    auto w = ref::eval(x, y, qs[k]);
    CHECK(ref::ok(ref::cl(v), w), "value/" + tag, "Eval(%.17g) = %s, expected (%.17Lg,%.17Lg) tol %Lg; x=%s n=%zu", (double) qs[k], ref::ys(v).c_str(),
          w.v.real(), w.v.imag(), w.tol, vs(ref::dv(x)).c_str(), x.size());
    CHECK(ref::ok(ref::cl(v2), w), "operator/" + tag, "operator()(%.17g) = %s, expected (%.17Lg,%.17Lg)", (double) qs[k], ref::ys(v2).c_str(), w.v.real(), w.v.imag());
    CHECK(ref::ok(ref::cl(all[k]), w) && ref::ok(ref::cl(all2[k]), w), "vector-value/" + tag, "vector evaluation at %.17g (element %zu of %zu) = %s, expected (%.17Lg,%.17Lg)",
          (double) qs[k], k, qs.size(), ref::ys(all[k]).c_str(), w.v.real(), w.v.imag());
    c.nontrivial(H().add(x[w.seg]).add(x[w.seg + 1]).add((double) qs[k]).add((double) std::abs(w.v)).h);
  }
}

template<class X, class Y> Interp1d<X, Y> *make(Rng &r, std::string &tag) {
  switch (r.range(0, 5)) {
    case 0: tag = "strict"; return new Interp1dLinear<X, Y>();
    case 1: tag = "saturate"; return new Interp1dLinearSaturate<X, Y>();
    case 2: tag = "extrapolate"; return new Interp1dLinearExtrapolate<X, Y>();
    case 3: tag = "factory-strict"; return Interp1d<X, Y>::MakeInterp1d(LINEAR);
    case 4: tag = "factory-saturate"; return Interp1d<X, Y>::MakeInterp1d(LINEAR_SATURATE);
    default: tag = "factory-extrapolate"; return Interp1d<X, Y>::MakeInterp1d(LINEAR_EXTRAPOLATE);
  }
}

template<class X, class Y> void life(Case &c, const char *tn) {
  std::string tag;
  std::unique_ptr<Interp1d<X, Y>> itp(make<X, Y>(c.r, tag));
  tag = std::string(tn) + "/" + tag;
  int rounds = c.r.chance(0.4) ? (int) c.r.range(2, 4) : 1;
  const bool keep = c.r.chance(0.4);  // the caller keeps its vectors, refills them and initialises again from the same pointers
  auto kx = std::make_shared<std::vector<X>>();
  auto ky = std::make_shared<std::vector<Y>>();
  for (int k = 0; k < rounds; k++) {
    int n = keep && k && c.r.chance(0.5) ? (int) kx->size() : ref::tsize(c.r);
    auto x = sorted_axis<X>(c.r, n);
    auto y = ref::ydata<Y>(c.r, n);
    std::shared_ptr<const std::vector<X>> px = std::make_shared<const std::vector<X>>(x);
    std::shared_ptr<const std::vector<Y>> py = std::make_shared<const std::vector<Y>>(y);
    if (keep) { *kx = x; *ky = y; px = kx; py = ky; if (k) c.obs("same-pointers"); }
    itp->Initialize(px, py);
    bool same = *px == x && *py == y;
    CHECK(same, "input-modified/" + tag, "Initialize changed its inputs");
    px.reset();
    py.reset();
    probe(c, *itp, x, y, k ? tag + "/again" : tag, (int) c.r.range(1, 24));
    c.obs(n == 2 ? "table/2-points" : n > 39 ? "table/large" : "table/medium");
    if (k) c.obs("re-initialised");
    c.obs(std::string("type/") + tn);
  }
}
SECTION(dd, 12000, 400000) { life<double, double>(c, "double"); }
SECTION(dc, 8000, 200000) { life<double, std::complex<double>>(c, "complex"); }
SECTION(ff, 5000, 120000) { life<float, float>(c, "float"); }
SECTION(df, 1000, 20000) { life<double, float>(c, "double-float"); }
SECTION(fd, 1000, 20000) { life<float, double>(c, "float-double"); }
SECTION(huge, 12, 120) {
  int n = (int) c.r.range(4000, 70000);
  auto x = sorted_axis<double>(c.r, n);
  auto y = ref::ydata<double>(c.r, n);
  Interp1dLinear<double, double> itp;
  itp.Initialize(std::make_shared<std::vector<double>>(x), std::make_shared<std::vector<double>>(y));
  probe<double, double>(c, itp, x, y, "huge", 40);
  c.obs("table/huge");
}
// a copy keeps its table whatever becomes of the original, and the other way round
template<class I> void copied(Case &c, const std::string &tag) {
  std::unique_ptr<I> a(new I());
  auto fresh = [&](I &i, std::vector<double> &x, std::vector<double> &y) { int n = ref::tsize(c.r); x = sorted_axis<double>(c.r, n); y = ref::ydata<double>(c.r, n); i.Initialize(std::make_shared<std::vector<double>>(x), std::make_shared<std::vector<double>>(y)); };
  std::vector<double> xa, ya, xb, yb;
  fresh(*a, xa, ya);
  std::unique_ptr<I> b;
  if (c.r.chance(0.5)) b.reset(new I(*a)); else { b.reset(new I()); if (c.r.chance(0.5)) fresh(*b, xb, yb); *b = *a; }
  xb = xa; yb = ya;
  for (int k = 0; k < 2; k++) {
    if (a) probe<double, double>(c, *a, xa, ya, tag + "/original", 4);
    probe<double, double>(c, *b, xb, yb, tag + "/copy", 4);
    switch (c.r.range(0, 2)) { case 0: if (a) fresh(*a, xa, ya); break; case 1: fresh(*b, xb, yb); break; default: a.reset(); }
  }
  if (a) probe<double, double>(c, *a, xa, ya, tag + "/original", 4);
  probe<double, double>(c, *b, xb, yb, tag + "/copy", 4);
  c.obs("copied");
}
SECTION(copies, 1500, 40000) { switch (c.idx % 3) { case 0: copied<Interp1dLinear<double, double>>(c, "strict"); break; case 1: copied<Interp1dLinearSaturate<double, double>>(c, "saturate"); break; default: copied<Interp1dLinearExtrapolate<double, double>>(c, "extrapolate"); } }
// long lists of queries
SECTION(long_list, 6, 60) {
  int n = ref::tsize(c.r);
  auto x = sorted_axis<double>(c.r, n);
  auto y = ref::ydata<double>(c.r, n);
  Interp1dLinearSaturate<double, double> itp;
  itp.Initialize(std::make_shared<std::vector<double>>(x), std::make_shared<std::vector<double>>(y));
  probe<double, double>(c, itp, x, y, "long-list", (int) c.r.range(60000, 70000));
  c.obs("long-list");
}
// empty query list
SECTION(empty_query, 20, 20) {
  Interp1dLinear<double, double> itp;
  itp.Initialize(std::make_shared<std::vector<double>>(std::vector<double>{0, 1}), std::make_shared<std::vector<double>>(std::vector<double>{1, 2}));
  CHECK(itp.Eval(std::vector<double>()).empty(), "empty", "values returned for no query");
}
}  // namespace mon
MON_MAIN
