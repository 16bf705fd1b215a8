// C06: out-of-range policies of 1D interpolators
#include "interp_ref.h"
namespace mon {
using namespace mathutils;

template<class X> X outside(Rng &r, const std::vector<X> &x, bool above, const char **kind) {
  X e = above ? x.back() : x.front();
  X span = x.back() - x.front();
  X q;
  switch (r.range(0, 4)) {
    case 0: q = above ? ulp_up(e) : ulp_down(e); *kind = "ulp"; break;
    case 1: q = e + (above ? 1 : -1) * span * (X) r.uni(1e-6, 1e-2); *kind = "close"; break;
    case 2: q = e + (above ? 1 : -1) * (X) r.range(1, 3); *kind = "integer"; break;
    case 3: q = e + (above ? 1 : -1) * span * (X) r.uni(10, 1e4); *kind = "far"; break;
    default: q = e + (above ? 1 : -1) * span * (X) r.uni(0.01, 3); *kind = "near"; break;
  }
  if (above && !(q > e)) q = ulp_up(e);
  if (!above && !(q < e)) q = ulp_down(e);
  return q;
}

// queries as far away as the type can go, infinities included
template<class X> X extreme(Rng &r, const std::vector<X> &x, bool above) {
  typedef std::numeric_limits<X> L;
  static const double frac[5] = {1.0, 0.6, 1e-3, 1e-12, 1e-20};
  X q = r.chance(0.3) ? L::infinity() : L::max() * (X) frac[r.range(0, 4)];
  if (!above) q = -q;
  if (above ? !(q > x.back()) : !(q < x.front())) q = above ? L::infinity() : -L::infinity();
  return q;
}

template<class X, class Y> void policy(Case &c, const char *tn) {
  int n = ref::tsize(c.r);
  auto x = sorted_axis<X>(c.r, n);
  auto y = ref::ydata<Y>(c.r, n);
  auto px = std::make_shared<std::vector<X>>(x);
  auto py = std::make_shared<std::vector<Y>>(y);
  bool factory = c.r.chance(0.5), lut = c.r.chance(0.3);
  Quiet quiet;
  std::unique_ptr<Interp1d<X, Y>> sat(factory ? Interp1d<X, Y>::MakeInterp1d(LINEAR_SATURATE) : new Interp1dLinearSaturate<X, Y>());
  std::unique_ptr<Interp1d<X, Y>> ext(factory ? Interp1d<X, Y>::MakeInterp1d(LINEAR_EXTRAPOLATE) : new Interp1dLinearExtrapolate<X, Y>());
  LookupTable1D<X, Y> lsat(LINEAR_SATURATE), lext(LINEAR_EXTRAPOLATE);
  sat->Initialize(px, py);
  ext->Initialize(px, py);
  if (lut) {
    lsat.SetX(x); lsat.AddY("s", y);
    lext.SetX(x); lext.AddY("s", y);
  }
  std::string t = tn;
  for (int k = 0; k < 12; k++) {
    bool above = c.r.chance(0.5);
    const char *kind;
    X q = outside(c.r, x, above, &kind);
    c.obs(std::string(above ? "above/" : "below/") + kind);
    Y vs_ = sat->Eval(q), ve = ext->Eval(q);
    if (k % 3 == 1) { std::vector<X> one{q}; vs_ = sat->Eval(one).at(0); ve = (*ext)(one).at(0); }
    if (k % 3 == 2) { vs_ = (*sat)(q); ve = (*ext)(q); }
    int seg = above ? n - 2 : 0;
    auto we = ref::segment(x, y, seg, (LD) q);
    auto ws = ref::segment(x, y, seg, above ? (LD) x.back() : (LD) x.front());
    std::string side = above ? "above/" : "below/";
    CHECK(ref::ok(ref::cl(vs_), ws), "saturate/" + side + t, "saturating value at %.17g = %s, end sample (%.17Lg,%.17Lg); x=%s", (double) q, ref::ys(vs_).c_str(),
          ws.v.real(), ws.v.imag(), vs(ref::dv(x)).c_str());
    CHECK(ref::ok(ref::cl(ve), we), "extrapolate/" + side + t, "extrapolated value at %.17g = %s, expected (%.17Lg,%.17Lg) tol %Lg; x=%s", (double) q, ref::ys(ve).c_str(),
          we.v.real(), we.v.imag(), we.tol, vs(ref::dv(x)).c_str());
    if (lut) {
      Y a = lsat.Eval("s", q), b = lext.Eval("s", q);
      Y a2 = lsat.Eval("s", std::vector<X>{q}).at(0), b2 = lext.template Eval<X, Y>(q).at("s");
      CHECK(ref::ok(ref::cl(a), ws) && ref::ok(ref::cl(a2), ws), "lut-saturate/" + side + t, "lookup table saturating at %.17g: %s", (double) q, ref::ys(a).c_str());
      CHECK(ref::ok(ref::cl(b), we) && ref::ok(ref::cl(b2), we), "lut-extrapolate/" + side + t, "lookup table extrapolating at %.17g: %s", (double) q, ref::ys(b).c_str());
      c.obs("through-lut/" + side + t);
    }
    c.nontrivial(H().add((double) q).add((double) x[0]).add((double) x[n - 1]).h);
  }
  for (int k = 0; k < 2; k++) {
    bool above = k == 0;
    X q = extreme(c.r, x, above);
    Y v = c.r.chance(0.5) ? sat->Eval(q) : sat->Eval(std::vector<X>{q}).at(0);
    auto ws = ref::segment(x, y, above ? n - 2 : 0, above ? (LD) x.back() : (LD) x.front());
    CHECK(ref::ok(ref::cl(v), ws), std::string("saturate-extreme/") + (above ? "above/" : "below/") + t, "saturating value at %.17g = %s, end sample (%.17Lg,%.17Lg)", (double) q,
          ref::ys(v).c_str(), ws.v.real(), ws.v.imag());
    c.obs(std::isinf(q) ? "query/infinite" : "query/huge");
  }
  // several queries at once, in any order, inside and outside mixed
  std::vector<X> qs;
  int m = (int) c.r.range(2, 24);
  const char *kind;
  double pin = c.r.chance(0.3) ? 0. : c.r.uni(0, 0.8);
  for (int k = 0; k < m; k++) {
    if (c.r.chance(pin)) {
      X q = (X) (x[0] + (x[n - 1] - x[0]) * (X) c.r.uni(0, 1));
      qs.push_back(std::min(std::max(q, x.front()), x.back()));
    } else qs.push_back(k && c.r.chance(0.1) ? qs.back() : outside(c.r, x, c.r.chance(0.5), &kind));
  }
  if (c.r.chance(0.4)) std::sort(qs.begin(), qs.end());
  if (c.r.chance(0.2)) std::sort(qs.begin(), qs.end(), [](X a, X b) { return a > b; });
  bool viacall = c.r.chance(0.5);
  std::vector<Y> rs = viacall ? (*sat)(qs) : sat->Eval(qs), re = viacall ? (*ext)(qs) : ext->Eval(qs);
  if (lut) {
    if (c.r.chance(0.5)) { rs = lsat.Eval("s", qs); re = lext.Eval("s", qs); }
    else { rs = lsat.template Eval<std::vector<X>, std::vector<Y>>(qs).at("s"); re = lext.template Eval<std::vector<X>, std::vector<Y>>(qs).at("s"); }
  }
  CHECK((int) rs.size() == m && (int) re.size() == m, "vector-size/" + t, "%d queries: %zu saturated, %zu extrapolated results", m, rs.size(), re.size());
  for (int k = 0; k < m; k++) {
    X q = qs[k];
    bool in = q >= x.front() && q <= x.back();
    int seg = q > x.back() ? n - 2 : 0;
    auto we = in ? ref::eval(x, y, q) : ref::segment(x, y, seg, (LD) q);
    auto ws = in ? we : ref::segment(x, y, seg, q > x.back() ? (LD) x.back() : (LD) x.front());
    CHECK(ref::ok(ref::cl(rs[k]), ws), "vector-saturate/" + t, "saturating value %d of %d, at %.17g = %s, expected (%.17Lg,%.17Lg); x=%s", k, m, (double) q, ref::ys(rs[k]).c_str(),
          ws.v.real(), ws.v.imag(), vs(ref::dv(x)).c_str());
    CHECK(ref::ok(ref::cl(re[k]), we), "vector-extrapolate/" + t, "extrapolated value %d of %d, at %.17g = %s, expected (%.17Lg,%.17Lg) tol %Lg; x=%s", k, m, (double) q,
          ref::ys(re[k]).c_str(), we.v.real(), we.v.imag(), we.tol, vs(ref::dv(x)).c_str());
  }
  c.obs(lut ? "query-vector/lut" : "query-vector/direct");
}
SECTION(dd, 8000, 200000) { policy<double, double>(c, "double"); }
SECTION(dc, 4000, 100000) { policy<double, std::complex<double>>(c, "complex"); }
SECTION(ff, 4000, 100000) { policy<float, float>(c, "float"); }

// the strict variant never returns a value outside (observed in a child process)
template<class X, class Y> void strict(Case &c, const char *tn) {
  int n = ref::tsize(c.r);
  auto x = sorted_axis<X>(c.r, n);
  auto y = ref::ydata<Y>(c.r, n);
  bool above = c.r.chance(0.5);
  const char *kind;
  X q = outside(c.r, x, above, &kind);
  if (c.r.chance(0.25)) { q = extreme(c.r, x, above); kind = "extreme"; }
  int how = (int) c.r.range(0, 4);
  std::vector<X> qv((size_t) c.r.range(0, 12));
  for (auto &v : qv) v = std::min(std::max((X) (x[0] + (x[n - 1] - x[0]) * (X) c.r.uni(0, 1)), x.front()), x.back());
  qv.insert(qv.begin() + c.r.range(0, (long) qv.size()), q);
  Outcome o = observe([&]() {
    if (how == 3) {
      LookupTable1D<X, Y> l(LINEAR);
      l.SetX(x); l.AddY("s", y);
      l.Eval("s", q);
      return;
    }
    std::unique_ptr<Interp1d<X, Y>> s(how == 1 ? new Interp1dLinear<X, Y>() : Interp1d<X, Y>::MakeInterp1d(LINEAR));
    s->Initialize(std::make_shared<std::vector<X>>(x), std::make_shared<std::vector<Y>>(y));
    if (how == 4) s->Eval(qv);
    else s->Eval(q);
  });
  CHECK(refused(o), std::string("strict-answers/") + (above ? "above/" : "below/") + tn, "strict interpolation at %.17g outside [%.17g,%.17g] (%s, route %d): %s",
        (double) q, (double) x.front(), (double) x.back(), kind, how, oname(o));
  c.obs(std::string("strict-refused/") + (above ? "above" : "below"));
  c.nontrivial(H().add((double) q).add(how).h);
  // the ends themselves are answered
  X e = above ? x.back() : x.front();
  Interp1dLinear<X, Y> in;
  in.Initialize(std::make_shared<std::vector<X>>(x), std::make_shared<std::vector<Y>>(y));
  CHECK(ref::ok(ref::cl(in.Eval(e)), ref::eval(x, y, e)), std::string("strict-end/") + tn, "end value wrong");
}
SECTION(strict_d, 300, 4000) { strict<double, double>(c, "double"); }
SECTION(strict_c, 120, 1500) { strict<double, std::complex<double>>(c, "complex"); }
SECTION(strict_f, 120, 1500) { strict<float, float>(c, "float"); }

SECTION(factory, 12, 24) {
  // behind the enumerators that work, the factory must refuse the one that is not implemented, directly or through a lookup table
  Outcome o = c.idx % 2 ? observe([&]() { std::unique_ptr<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(BSPLINE)); })
                        : observe([&]() {
                            LookupTable1D<double, double> l(BSPLINE);
                            l.SetX({0, 1});
                            l.AddY("s", {0, 1});
                            l.Eval("s", 0.5);
                          });
  CHECK(refused(o), "factory-unavailable", "BSPLINE: %s", oname(o));
  c.obs("factory-refused");
}
}  // namespace mon
MON_MAIN
