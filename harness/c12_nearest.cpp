// C12: nearest node / surrounding nodes
#include "grid_ref.h"
namespace mon {
using namespace mathutils;

template<class V> V datum(size_t k);
template<> double datum<double>(size_t k) { return 0.5 + (double) k; }
template<> int datum<int>(size_t k) { return (int) k * 3 + 1; }
template<> std::string datum<std::string>(size_t k) { return "node number " + std::to_string(k) + " of the grid"; }

template<class C> C step_up(C x) { return ulp_up(x); }
template<class C> C step_down(C x) { return ulp_down(x); }
template<> int step_up<int>(int x) { return x + 1; }
template<> int step_down<int>(int x) { return x - 1; }
template<class C> C inside(Rng &r, const std::vector<C> &a, const char **kind) { return query_in(r, a, kind); }
template<> int inside<int>(Rng &r, const std::vector<int> &a, const char **kind) {
  if (r.chance(0.3)) { *kind = "node"; return r.pick(a); }
  size_t i = (size_t) r.range(0, (long) a.size() - 2);
  if (r.chance(0.5)) { *kind = "integer-middle"; return (int) std::min<long>(a[i + 1], std::max<long>(a[i], ((long) a[i] + a[i + 1]) / 2 + r.range(-1, 1))); }
  *kind = "interior";
  return (int) r.range(a[i], a[i + 1]);
}
template<class C, size_t N> struct MakeGrid { static G<C, N> make(Rng &r) { return grid<C, N>(r, 1); } };
template<size_t N> struct MakeGrid<int, N> {  // integer coordinates
  static G<int, N> make(Rng &r) {
    G<int, N> g;
    size_t n = 1;
    for (size_t d = 0; d < N; d++) {
      std::vector<int> a((size_t) r.range(1, 7));
      int w = r.chance(0.3) ? 1000000 : 9, x = (int) r.range(-w, w);
      for (auto &v : a) { v = x; x += (int) r.range(1, w); }
      g.ax.push_back(a);
      n *= a.size();
    }
    g.f.resize(n);
    return g;
  }
};

template<class V, size_t N, class C> void audit(Case &c, const RegularGridNearest<V, N, C> &t, const G<C, N> &g, const std::vector<V> &f, const std::string &tag) {
  CHECK(t.GetDimension() == N, "dimension/" + tag, "dimension");
  for (size_t d = 0; d < N; d++)
    CHECK(t.GetCoord(d) == g.ax[d] && t.GetCoordMinVal(d) == g.ax[d].front() && t.GetCoordMaxVal(d) == g.ax[d].back(), "bounds/" + tag, "axis %zu", d);
  for (int k = 0; k < 10; k++) {
    std::array<C, N> p;
    std::string P;
    std::vector<std::string> kinds;
    for (size_t d = 0; d < N; d++) {
      auto &a = g.ax[d];
      const char *kind;
      switch (c.r.range(0, 4)) {
        case 0: p[d] = c.r.chance(0.5) ? step_down(a.front()) : a.front() - (C) c.r.uni(1.01, 100); kind = "below"; break;
        case 1: p[d] = c.r.chance(0.5) ? step_up(a.back()) : a.back() + (C) c.r.uni(1.01, 100); kind = "above"; break;
        default: if (a.size() > 1) p[d] = inside(c.r, a, &kind); else { p[d] = a[0]; kind = "single"; }
      }
      if (std::is_floating_point<C>::value && c.r.chance(0.03)) { bool up = c.r.chance(0.5); p[d] = (C) (c.r.chance(0.5) ? 1e30 : std::numeric_limits<double>::infinity()); if (!up) p[d] = -p[d]; kind = up ? "above" : "below"; }
      c.obs(std::string("query/") + kind);
      P += fmt("%.17g ", (double) p[d]);
    }
    auto node = t.Nearest(p);
    auto idx = node.indices();
    auto co = node.coords();
    bool inrange = true, dist = true, cons = true;
    for (size_t d = 0; d < N; d++) {
      auto &a = g.ax[d];
      if (idx[d] >= a.size()) { inrange = false; continue; }
      cons = cons && co[d] == a[idx[d]];
      if (p[d] < a.front()) { dist = dist && idx[d] == 0; continue; }
      if (p[d] > a.back()) { dist = dist && idx[d] == a.size() - 1; continue; }
      LD best = 1e300L;
      LD mag = 0;
      for (C x : a) best = std::min(best, fabsl((LD) x - (LD) p[d]));
      for (C x : a) if (fabsl((LD) x - (LD) p[d]) <= best * 1.01L) mag = std::max(mag, fabsl((LD) x));
      LD got = fabsl((LD) a[idx[d]] - (LD) p[d]);
      dist = dist && got <= best + 4 * (std::is_integral<C>::value ? 0.0L : epsof<C>()) * (mag + fabsl((LD) p[d]));
    }
    CHECK(inrange, "nearest-index/" + tag, "index out of the grid for %s", P.c_str());
    CHECK(dist, "nearest-distance/" + tag, "node not at minimal distance of %s", P.c_str());
    CHECK(cons, "nearest-coords/" + tag, "coordinates do not match the indices for %s", P.c_str());
    if (inrange) {
      CHECK(node.val() == f[g.flat(idx)], "nearest-value/" + tag, "value does not belong to the node returned for %s", P.c_str());
      V v = t.GetData(p);
      CHECK(v == f[g.flat(idx)], "GetData/" + tag, "GetData is not the nearest node's value for %s", P.c_str());
    }
    // surrounding nodes
    auto sur = t.GetSurroundingGridNodes(p);
    CHECK(sur.size() == (1u << N), "surround-count/" + tag, "%zu nodes", sur.size());
    if (sur.size() != (1u << N)) continue;
    bool okr = true, okc = true, okv = true, oke = true;
    for (unsigned v = 0; v < (1u << N); v++) {
      auto si = sur[v].indices();
      auto sc = sur[v].coords();
      bool in = true;
      for (size_t d = 0; d < N; d++) {
        auto &a = g.ax[d];
        if (si[d] >= a.size()) { in = false; continue; }
        okc = okc && sc[d] == a[si[d]];
        unsigned bit = (v >> (N - 1 - d)) & 1;  // last dimension fastest
        size_t i = si[d], last = a.size() - 1;
        bool e;
        if (p[d] < a.front()) e = i == 0;
        else if (p[d] > a.back()) e = i == last;
        else if (a.size() == 1) e = i == 0;
        else {
          // the same dimension bit must select the lower (0) / upper (1) end of one cell containing the coordinate
          auto lo = sur[v & ~(1u << (N - 1 - d))].indices()[d], hi = sur[v | (1u << (N - 1 - d))].indices()[d];
          bool cell = hi == lo + 1 && hi <= last && a[lo] <= p[d] && p[d] <= a[hi];
          bool border = p[d] == a.back() && lo == last && hi == last;
          e = cell || border;
          (void) bit;
        }
        oke = oke && e;
      }
      okr = okr && in;
      if (in) okv = okv && sur[v].val() == f[g.flat(si)];
    }
    // every dimension uses one and the same cell for all corners
    for (unsigned v = 0; v < (1u << N); v++)
      for (size_t d = 0; d < N; d++) {
        unsigned b = 1u << (N - 1 - d);
        oke = oke && sur[v].indices()[d] == sur[v & b].indices()[d];
      }
    CHECK(okr, "surround-index/" + tag, "index out of the grid for %s", P.c_str());
    CHECK(okc, "surround-coords/" + tag, "coordinates do not match indices for %s", P.c_str());
    CHECK(okv, "surround-value/" + tag, "values do not match indices for %s", P.c_str());
    CHECK(oke, "surround-cell/" + tag, "not the corners of the enclosing cell (or border) for %s", P.c_str());
    c.nontrivial(H().add(P).h);
  }
}
template<class V, size_t N, class C> void run(Case &c, const char *tn) {
  typedef RegularGridNearest<V, N, C> T;
  auto mk = [&](G<C, N> &g, std::vector<V> &f) {
    g = MakeGrid<C, N>::make(c.r);
    size_t n = g.f.size(), base = (size_t) c.r.range(0, 1000);
    f.resize(n);
    for (size_t k = 0; k < n; k++) f[k] = datum<V>(k + base);
    std::unique_ptr<T> t(new T());
    for (auto &a : g.ax) t->AddCoord(a);
    t->AddVar(array_of<V, C, N>(c.r, g, f));
    return t;
  };
  G<C, N> g, g2;
  std::vector<V> f, f2;
  auto t = mk(g, f);
  std::string tag = tn;
  audit(c, *t, g, f, tag);
  T cp(*t);
  t->AddVar(array_of<V, C, N>(c.r, g, std::vector<V>(f.rbegin(), f.rend())));  // replacing the original's variable
  audit(c, *t, g, std::vector<V>(f.rbegin(), f.rend()), tag + "/replaced");
  audit(c, cp, g, f, tag + "/copy");
  auto u = mk(g2, f2);
  *u = cp;
  t.reset();
  audit(c, *u, g, f, tag + "/assigned");
  T &self = *u;
  *u = self;
  audit(c, *u, g, f, tag + "/self-assigned");
  c.obs("copied");
  c.obs("dim/" + tag);
}
SECTION(d1, 600, 20000) { run<double, 1, double>(c, "double/1"); }
SECTION(d2, 800, 25000) { run<double, 2, double>(c, "double/2"); }
SECTION(d3, 400, 12000) { run<double, 3, double>(c, "double/3"); }
SECTION(d4, 120, 3000) { run<double, 4, double>(c, "double/4"); }
SECTION(i2, 300, 8000) { run<int, 2, double>(c, "int/2"); }
SECTION(f2, 400, 10000) { run<double, 2, float>(c, "float-coord/2"); }
SECTION(ic1, 400, 10000) { run<double, 1, int>(c, "int-coord/1"); }
SECTION(ic2, 400, 10000) { run<double, 2, int>(c, "int-coord/2"); }
SECTION(s2, 200, 4000) { run<std::string, 2, double>(c, "string/2"); }
}  // namespace mon
MON_MAIN
