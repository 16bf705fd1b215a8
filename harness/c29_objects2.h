// n-dimensional grids
#include "c29_prog.h"
#include "grid_ref.h"
#include "MathUtils/thirdparty/linterp.h"
namespace mon { namespace o2 {
using namespace mathutils;
template<class R, size_t N> struct GI : Obj {
  typedef RegularGridInterpolator<R, N> T;
  std::unique_ptr<T> t; G<R, N> g; bool var = false;
  explicit GI(Rng &r) : t(new T()) { int k = (int) r.range(0, 2); if (k) { complete(r); } }
  GI() {}
  void axis(Rng &r) { g.ax.push_back(sorted_axis<R>(r, hsize(r, 2, 6))); t->AddCoord(g.ax.back()); }
  void complete(Rng &r) { while (g.ax.size() < N) axis(r); fill(r, g); for (auto &v : g.f) v = (R) twisted(v); t->AddVar(array_of<R, R, N>(r, g, g.f)); var = true; }
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 6)) {
      case 0: if (g.ax.size() < N) axis(r); break;
      case 1: complete(r); break;
      case 2: { T &self = *t; *t = self; break; }
      case 3: { std::unique_ptr<T> c(new T(*t)); if (r.chance(0.5)) t.reset(); t = std::move(c); break; }
      case 4: { T o; o = *t; T p(std::move(o)); *t = p; break; }
      default: eval(r, d);
    }
  }
  bool shareable() const override { return var; }
  void eval(Rng &r, Dig &d) const override {
    d.add(t->IsValid()); d.add(t->GetDimension());
    for (size_t k = 0; k < g.ax.size(); k++) { d.add(t->GetCoord(k)); d.add(t->GetCoordMinVal(k)); d.add(t->GetCoordMaxVal(k)); }
    if (!var) return;
    for (int n = 0; n < 3; n++) {
      std::array<R, N> p;
      for (size_t k = 0; k < N; k++) p[k] = query_in(r, g.ax[k]);
      d.add(t->Interp(p)); d.add(t->Interp(p, true));
      p[r.range(0, N - 1)] += (R) r.logmag(1, 1e4);
      d.add(t->Interp(p));
      Idx<N> i; for (size_t k = 0; k < N; k++) i[k] = (size_t) r.range(0, (long) g.ax[k].size() - 1);
      d.add(t->EvalAtIndice(i));
    }
  }
  Obj *clone(Rng &r) override { GI *o = new GI(); o->t.reset(new T(*t)); o->g = g; o->var = var; return o; }
};
typedef GI<double, 1> GI1; typedef GI<double, 2> GI2; typedef GI<float, 3> GI3; typedef GI<double, 4> GI4;
OBJECT("RegularGridInterpolator-1", GI1) OBJECT("RegularGridInterpolator-2", GI2) OBJECT("RegularGridInterpolator-3f", GI3) OBJECT("RegularGridInterpolator-4", GI4)

template<class T, size_t N> struct LI : Obj {
  std::unique_ptr<T> t; G<double, N> g;
  void data(Rng &r, std::vector<double *> &pt, std::vector<int> &ln, std::vector<double> &f) {
    g.ax.clear();
    for (size_t k = 0; k < N; k++) g.ax.push_back(sorted_axis<double>(r, hsize(r, 2, 6)));
    size_t n = 1;
    for (auto &a : g.ax) { pt.push_back(a.data()); ln.push_back((int) a.size()); n *= a.size() * (T::m_bContinuous ? 1 : 2); }
    f = rvec<double>(r, (int) n);
  }
  explicit LI(Rng &r) { std::vector<double *> pt; std::vector<int> ln; std::vector<double> f; data(r, pt, ln, f); t.reset(new T(pt.begin(), ln.begin(), f.data(), f.data() + f.size())); }
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 4)) {
      case 0: { std::vector<double *> pt; std::vector<int> ln; std::vector<double> f; data(r, pt, ln, f); t->init(pt.begin(), ln.begin(), f.data(), f.data() + f.size()); break; }
      case 1: { std::unique_ptr<T> u(new T(std::move(*t))); t = std::move(u); break; }
      default: eval(r, d);
    }
  }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override {
    int n = (int) r.range(0, 4);
    std::vector<std::vector<double>> x(N, std::vector<double>(n));
    for (int i = 0; i < n; i++) for (size_t k = 0; k < N; k++) x[k][i] = query_in(r, g.ax[k]) + (r.chance(0.2) ? r.logmag(1, 1e4) : 0);
    std::vector<double> v(n);
    t->interp_vec(n, x.begin(), x.end(), v.begin());
    d.add(v);
    std::array<double, N> p;
    for (size_t k = 0; k < N; k++) p[k] = query_in(r, g.ax[k]);
    d.add(t->interp(p.begin()));
  }
};
typedef LI<InterpSimplex<3, double>, 3> LI3; typedef LI<InterpMultilinear<2, double, true, false>, 2> LI2;
OBJECT("InterpSimplex-3", LI3) OBJECT("InterpMultilinear-2d", LI2)

inline double val(double v) { return v; }
inline const std::string &val(const std::string &v) { return v; }
template<class V> V datum(size_t k);
template<> inline double datum<double>(size_t k) { return 0.5 + (double) k; }
template<> inline std::string datum<std::string>(size_t k) { return "a stored value that does not fit in place " + std::to_string(k); }
template<class V, size_t N> struct GN : Obj {
  typedef RegularGridNearest<V, N, double> T;
  std::unique_ptr<T> t; G<double, N> g;
  void fillvar(Rng &r) {
    size_t n = 1; for (auto &a : g.ax) n *= a.size();
    std::vector<V> f(n); size_t o = (size_t) r.range(0, 99) + 7 * (size_t) data_twist(); for (size_t k = 0; k < n; k++) f[k] = datum<V>(k + o);
    t->AddVar(array_of<V, double, N>(r, g, f));
  }
  explicit GN(Rng &r) : t(new T()) { g.ax = axes<double, N>(r, 1); for (auto &a : g.ax) t->AddCoord(a); fillvar(r); }
  GN() {}
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 4)) {
      case 0: { std::unique_ptr<T> c(new T(*t)); t.reset(); t = std::move(c); break; }
      case 1: { T &self = *t; *t = self; break; }
      case 2: { T o; o = *t; *t = o; break; }
      default: eval(r, d);
    }
  }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override {
    d.add(t->GetDimension());
    for (size_t k = 0; k < N; k++) { d.add(t->GetCoord(k)); d.add(t->GetCoordMinVal(k)); d.add(t->GetCoordMaxVal(k)); }
    std::array<double, N> p;
    for (size_t k = 0; k < N; k++) p[k] = g.ax[k].front() + r.uni(-0.3, 1.3) * (g.ax[k].back() - g.ax[k].front() + 1);
    auto n = t->Nearest(p);
    d.add(val(n.val())); for (auto i : n.indices()) d.add((unsigned long) i); for (auto x : n.coords()) d.add(x);
    d.add(val(t->GetData(p)));
    for (auto &s : t->GetSurroundingGridNodes(p)) { d.add(val(s.val())); for (auto i : s.indices()) d.add((unsigned long) i); for (auto x : s.coords()) d.add(x); }
  }
  Obj *clone(Rng &r) override { GN *o = new GN(); o->t.reset(new T(*t)); o->g = g; return o; }
};
typedef GN<double, 1> GN1; typedef GN<std::string, 2> GN2; typedef GN<double, 3> GN3;
OBJECT("RegularGridNearest-1", GN1) OBJECT("RegularGridNearest-2s", GN2) OBJECT("RegularGridNearest-3", GN3)

REFUSAL(grid_axis) { RegularGridInterpolator<double, 2> t; t.AddCoord({0, 2, 1}); }
REFUSAL(grid_too_many) { RegularGridInterpolator<double, 2> t; for (int i = 0; i < 4; i++) t.AddCoord({0, 1}); }
REFUSAL(grid_missing) { RegularGridInterpolator<double, 2> t; t.AddCoord({0, 1}); boost::multi_array<double, 2> a(boost::extents[2][2]); t.AddVar(a); std::array<double, 2> p{{0, 0}}; volatile double v = t.Interp(p); (void) v; }
REFUSAL(grid_wrong_size) { RegularGridInterpolator<double, 2> t; t.AddCoord({0, 1}); t.AddCoord({0, 1, 2}); boost::multi_array<double, 2> a(boost::extents[2][2 + 2 * (int) r.range(0, 1)]); t.AddVar(a); std::array<double, 2> p{{1, 2}}; volatile double v = t.Interp(p); (void) v; }
REFUSAL(grid_bounds) { RegularGridInterpolator<double, 2> t; t.AddCoord({0, 1}); t.AddCoord({0, 1}); boost::multi_array<double, 2> a(boost::extents[2][2]); t.AddVar(a); std::array<double, 2> p{{r.uni(1.1, 9), 0.5}}; volatile double v = t.Interp(p, true); (void) v; }
REFUSAL(grid_index) { RegularGridInterpolator<double, 2> t; t.AddCoord({0, 1}); volatile double v = t.GetCoordMinVal((unsigned) r.range(1, 5)); (void) v; }
}}  // namespace mon::o2
