// interpolators and lookup tables
#include "c29_prog.h"
#include "MathUtils/MathUtils.h"
namespace mon { namespace o1 {
using namespace mathutils;
typedef std::complex<double> cd;
template<class Y> struct I1 : Obj {
  std::unique_ptr<Interp1d<double, Y>> p;
  std::vector<double> x;
  INTERP_METHOD m;
  bool factory;
  void init(Rng &r) {
    int n = hsize(r, 2, r.chance(0.03) ? 5000 : 60);
    x = sorted_axis(r, n);
    p->Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<Y>>(rvec<Y>(r, n)));
  }
  explicit I1(Rng &r) {
    static const INTERP_METHOD k[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
    m = k[r.range(0, 2)];
    factory = r.chance(0.5);
    if (factory) p.reset(Interp1d<double, Y>::MakeInterp1d(m));
    else if (m == LINEAR) p.reset(new Interp1dLinear<double, Y>());
    else if (m == LINEAR_SATURATE) p.reset(new Interp1dLinearSaturate<double, Y>());
    else p.reset(new Interp1dLinearExtrapolate<double, Y>());
    init(r);
  }
  I1() {}
  void step(Rng &r, Dig &d) override { if (r.chance(0.2)) init(r); eval(r, d); }
  bool shareable() const override { return true; }
  double q(Rng &r) const { return m != LINEAR && r.chance(0.3) ? (r.chance(0.5) ? x.back() + r.uni(0, 100) : x.front() - r.uni(0, 100)) : query_in(r, x); }
  void eval(Rng &r, Dig &d) const override {
    const Interp1d<double, Y> &c = *p;
    d.add(c.GetXmin()); d.add(c.GetXmax());
    d.add(c(q(r))); d.add(c.Eval(q(r)));
    std::vector<double> v((size_t) r.range(0, 9));
    for (auto &t : v) t = q(r);
    d.add(c.Eval(v)); d.add(c(v));
  }
  Obj *clone(Rng &r) override {
    I1 *o = new I1();
    o->x = x; o->m = m; o->factory = factory;
    if (m == LINEAR) o->p.reset(new Interp1dLinear<double, Y>(static_cast<const Interp1dLinear<double, Y> &>(*p)));
    else if (m == LINEAR_SATURATE) o->p.reset(new Interp1dLinearSaturate<double, Y>(static_cast<const Interp1dLinearSaturate<double, Y> &>(*p)));
    else o->p.reset(new Interp1dLinearExtrapolate<double, Y>(static_cast<const Interp1dLinearExtrapolate<double, Y> &>(*p)));
    return o;
  }
};
typedef I1<double> I1d; typedef I1<cd> I1c;
OBJECT("Interp1d", I1d) OBJECT("Interp1d-complex", I1c)

template<class Y> struct L1 : Obj {
  typedef LookupTable1D<double, Y> T;
  std::unique_ptr<T> t;
  INTERP_METHOD m;
  std::vector<double> x;
  std::vector<std::pair<std::string, std::vector<double>>> names;
  explicit L1(Rng &r) {
    static const INTERP_METHOD k[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
    m = k[r.range(0, 2)];
    t.reset(new T(m));
    x = sorted_axis(r, hsize(r, 2, r.chance(0.03) ? 3000 : 40));
    t->SetX(x);
  }
  L1() {}
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 6)) {
      case 0: x = sorted_axis(r, hsize(r, 2, r.chance(0.03) ? 3000 : 40)); t->SetX(x); break;
      case 1: case 2: {
        std::string n = "series-with-a-long-enough-name-" + std::to_string(r.range(0, 12));
        bool ok = t->AddY(n, rvec<Y>(r, (int) x.size()));
        d.add(ok);
        if (ok) names.push_back({n, x});
        break;
      }
      case 3: {
        T u(std::move(*t));
        if (r.chance(0.5)) t.reset(new T(std::move(u)));
        else { T w(LINEAR); w.SetX({0, 1}); w.AddY("other", rvec<Y>(r, 2)); w = std::move(u); t.reset(new T(std::move(w))); }
        break;
      }
      case 4: try { d.add(t->Eval("no such series", 0.)); } catch (std::exception &) { d.add(1); } break;
      default: eval(r, d);
    }
  }
  bool shareable() const override { return !names.empty(); }
  void eval(Rng &r, Dig &d) const override {
    d.add(t->GetNbSeries()); d.add(t->GetNbSample()); d.add(t->GetX());
    if (names.empty()) return;
    auto &k = r.pick(names);
    d.add(t->Eval(k.first, query_in(r, k.second)));
    std::vector<double> v((size_t) r.range(0, 5));
    for (auto &q : v) q = query_in(r, k.second);
    d.add(t->Eval(k.first, v));
    d.add(t->GetXmin(k.first)); d.add(t->GetXmax(k.first));
    double lo = -1e300, hi = 1e300;
    for (auto &n : names) { lo = std::max(lo, n.second.front()); hi = std::min(hi, n.second.back()); }
    if (lo <= hi) { auto e = t->template Eval<double, Y>(r.uni(lo, hi)); for (auto &n : names) d.add(e.at(n.first)); }
  }
};
typedef L1<double> L1d; typedef L1<cd> L1c;
OBJECT("LookupTable1D", L1d) OBJECT("LookupTable1D-complex", L1c)

template<class R> struct I2 : Obj {
  std::unique_ptr<Interp2d<R>> p;
  std::vector<R> x, y;
  void init(Rng &r) {
    x = sorted_axis<R>(r, hsize(r, 2, r.chance(0.03) ? 200 : 12)); y = sorted_axis<R>(r, hsize(r, 2, r.chance(0.03) ? 200 : 12));
    p->Initialize(std::make_shared<const std::vector<R>>(x), std::make_shared<const std::vector<R>>(y),
                  std::make_shared<const std::vector<R>>(rvec<R>(r, (int) (x.size() * y.size()))));
  }
  explicit I2(Rng &r) { if (r.chance(0.5)) p.reset(new Interp2dLinear<R>()); else p.reset(Interp2d<R>::MakeInterp2d(LINEAR)); init(r); }
  I2() {}
  void step(Rng &r, Dig &d) override { if (r.chance(0.2)) init(r); eval(r, d); }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override {
    const Interp2d<R> &c = *p;
    d.add(c.GetXmin()); d.add(c.GetXmax()); d.add(c.GetYmin()); d.add(c.GetYmax());
    R a = query_in(r, x);
    d.add(c.Eval(a, query_in(r, y)));
    a = query_in(r, x);
    d.add(c(a, query_in(r, y)));
    std::vector<std::vector<R>> v((size_t) r.range(0, 5));
    for (auto &q : v) { R u = query_in(r, x); q = {u, query_in(r, y)}; }
    d.add(c.Eval(v)); d.add(c(v));
  }
  Obj *clone(Rng &r) override { I2 *o = new I2(); o->x = x; o->y = y; o->p.reset(new Interp2dLinear<R>(static_cast<const Interp2dLinear<R> &>(*p))); return o; }
};
typedef I2<double> I2d; typedef I2<float> I2f;
OBJECT("Interp2d", I2d) OBJECT("Interp2d-float", I2f)

struct L2 : Obj {
  std::unique_ptr<LookupTable2d<double>> t;
  std::vector<double> x, y;
  struct S { std::string n; std::vector<double> x, y; };
  std::vector<S> names;
  explicit L2(Rng &r) : t(new LookupTable2d<double>()) { axes(r, 3); if (r.chance(0.5)) t->SetInterpolationMethod(LINEAR); }
  void axes(Rng &r, int w) {
    if (w & 1) { x = sorted_axis(r, hsize(r, 2, 10)); t->SetX(x); }
    if (w & 2) { y = sorted_axis(r, hsize(r, 2, 10)); t->SetY(y); }
  }
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 5)) {
      case 0: axes(r, (int) r.range(1, 3)); break;
      case 1: case 2: {
        std::string n = "grid-with-a-long-enough-name-" + std::to_string(r.range(0, 12));
        bool ok = t->AddData(n, rvec<double>(r, (int) (x.size() * y.size())));
        d.add(ok);
        if (ok) names.push_back({n, x, y});
        break;
      }
      case 3: try { d.add(t->Eval("no such grid", 0., 0.)); } catch (std::exception &) { d.add(1); } break;
      default: eval(r, d);
    }
  }
  bool shareable() const override { return !names.empty(); }
  void eval(Rng &r, Dig &d) const override {
    d.add(t->GetNbSeries()); d.add(t->GetNbSample()); d.add(t->GetX()); d.add(t->GetY());
    if (names.empty()) return;
    auto &k = r.pick(names);
    double a = query_in(r, k.x), b = query_in(r, k.y);
    d.add(t->Eval(k.n, a, b)); d.add(t->Eval(k.n, std::vector<double>{a, b}));
    std::vector<std::vector<double>> v((size_t) r.range(0, 4));
    for (auto &q : v) { double u = query_in(r, k.x); q = {u, query_in(r, k.y)}; }
    d.add(t->Eval(k.n, v));
    d.add(t->HasSerie(k.n)); d.add(t->HasSerie("other"));
  }
};
OBJECT("LookupTable2d", L2)

// refused calls
REFUSAL(interp1d_strict_outside) {
  auto x = sorted_axis(r, hsize(r, 2, 20)); Interp1dLinear<double, double> p;
  p.Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(rvec<double>(r, (int) x.size())));
  volatile double v = p(r.chance(0.5) ? ulp_up(x.back()) + r.uni(0, 10) : ulp_down(x.front()) - r.uni(0, 10)); (void) v;
}
REFUSAL(interp1d_sizes) {
  auto x = sorted_axis(r, (int) r.range(3, 20)); Interp1dLinearSaturate<double, double> p;
  p.Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(rvec<double>(r, (int) x.size() + (r.chance(0.5) ? 1 : -1))));
}
REFUSAL(interp1d_unsorted) {
  auto x = sorted_axis(r, (int) r.range(3, 20)); std::swap(x[0], x[r.range(1, (long) x.size() - 1)]); Interp1dLinear<double, double> p;
  p.Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(rvec<double>(r, (int) x.size())));
}
REFUSAL(interp1d_bspline) { auto p = Interp1d<double, double>::MakeInterp1d(BSPLINE); delete p; }
REFUSAL(interp2d_outside) {
  auto x = sorted_axis(r, hsize(r, 2, 9)), y = sorted_axis(r, hsize(r, 2, 9)); Interp2dLinear<double> p;
  p.Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(y), std::make_shared<const std::vector<double>>(rvec<double>(r, (int) (x.size() * y.size()))));
  double a = query_in(r, x), b = query_in(r, y);
  if (r.chance(0.5)) a = r.chance(0.5) ? x.back() + 1 : x.front() - 1; else b = r.chance(0.5) ? y.back() + 1 : y.front() - 1;
  volatile double v = p.Eval(a, b); (void) v;
}
REFUSAL(interp2d_sizes) {
  auto x = sorted_axis(r, hsize(r, 2, 9)), y = sorted_axis(r, hsize(r, 2, 9)); Interp2dLinear<double> p;
  p.Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(y), std::make_shared<const std::vector<double>>(rvec<double>(r, (int) (x.size() * y.size()) - 1)));
}
REFUSAL(lut1d_size_mismatch) { LookupTable1D<double, double> t(LINEAR); t.SetX(sorted_axis(r, 5)); t.AddY("a", rvec<double>(r, r.chance(0.5) ? 4 : 6)); }
REFUSAL(lut1d_unknown) { LookupTable1D<double, double> t(LINEAR); t.SetX(sorted_axis(r, 5)); t.AddY("a", rvec<double>(r, 5)); volatile double v = t.Eval("b", 0.); (void) v; }
REFUSAL(lut2d_unknown) { LookupTable2d<double> t; t.SetX({0, 1}); t.SetY({0, 1}); t.AddData("a", rvec<double>(r, 4)); volatile double v = t.Eval("b", 0., 0.); (void) v; }
REFUSAL(lut2d_undersized) { LookupTable2d<double> t; t.SetX({0, 1, 2}); t.SetY({0, 1}); t.AddData("a", rvec<double>(r, (int) r.range(0, 5))); }
REFUSAL(lut2d_bspline) { LookupTable2d<double> t; t.SetInterpolationMethod(BSPLINE); t.SetX({0, 1}); t.SetY({0, 1}); t.AddData("a", rvec<double>(r, 4)); }
}}  // namespace mon::o1
