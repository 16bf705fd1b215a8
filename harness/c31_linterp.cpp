// C31: the bundled N-dimensional interpolators (thirdparty/linterp.h), multilinear and simplicial.
#include "grid_ref.h"
#include "MathUtils/thirdparty/linterp.h"
namespace mon {
template<class R> R outside(Rng &r, const std::vector<R> &a, bool above) {
  R s = a.back() - a.front();
  if (!(s > 0)) s = 1;
  R e = above ? a.back() : a.front();
  if (r.chance(0.3)) return above ? ulp_up(e) : ulp_down(e);
  if (r.chance(0.05)) return above ? std::numeric_limits<R>::infinity() : -std::numeric_limits<R>::infinity();
  R d = (R) (s * std::exp(r.uni(-6, 9)));
  return above ? e + d : e - d;
}
/// linear interpolant on the simplex of the cell that contains p (vertices reached by raising the coordinates in decreasing order of their fraction)
template<class R, size_t N> Val<R, N> simplex(const G<R, N> &g, const std::array<R, N> &p) {
  Idx<N> c;
  LD t[N];
  LD m = 0;
  for (size_t d = 0; d < N; d++) {
    auto &a = g.ax[d];
    if (a.size() == 1) { c[d] = 0; t[d] = 0; continue; }
    R q = std::min(std::max(p[d], a.front()), a.back());
    size_t i = 0;
    while (i + 2 < a.size() && q >= a[i + 1]) i++;
    c[d] = i;
    t[d] = ((LD) q - a[i]) / ((LD) a[i + 1] - a[i]);
  }
  // near ties both orders give the same value up to the difference of the fractions: continuous, covered by the tolerance
  std::array<size_t, N> o;
  for (size_t d = 0; d < N; d++) o[d] = d;
  std::sort(o.begin(), o.end(), [&](size_t x, size_t y) { return t[x] > t[y]; });
  LD w = 1 - t[o[0]], v = w * (LD) g.f[g.flat(c)];
  for (unsigned k = 0; k < (1u << N); k++) {
    Idx<N> i = c;
    for (size_t d = 0; d < N; d++) if (((k >> d) & 1) && g.ax[d].size() > 1) i[d]++;
    m += std::fabs((LD) g.f[g.flat(i)]);
  }
  for (size_t j = 0; j < N; j++) {
    if (g.ax[o[j]].size() > 1) c[o[j]]++;
    w = t[o[j]] - (j + 1 < N ? t[o[j + 1]] : 0);
    v += w * (LD) g.f[g.flat(c)];
  }
  return {v, 32 * epsof<R>() * m * N + (epsof<R>() > 1e-10L ? 1e-34L : 1e-290L)};
}
/// data with separate limits on both sides of each node: index 2i before, 2i+1 after node i; every cell is interpolated from the limits inside it
template<class R, size_t N> G<R, N> piece(const G<R, N> &g, const std::vector<R> &ff, const std::array<R, N> &p) {
  // the cell containing p (nodes belong to the cell on their right, the outside to the outer limits) as a 2^N grid of its own
  G<R, N> h;
  h.ax.resize(N);
  std::array<std::array<size_t, 2>, N> ix;
  for (size_t d = 0; d < N; d++) {
    auto &a = g.ax[d];
    size_t n = a.size();
    if (p[d] < a[0]) { h.ax[d] = {p[d]}; ix[d] = {0, 0}; }
    else if (p[d] >= a[n - 1]) { h.ax[d] = {p[d]}; ix[d] = {2 * n - 1, 2 * n - 1}; }
    else {
      size_t i = 0;
      while (p[d] >= a[i + 1]) i++;
      h.ax[d] = {a[i], a[i + 1]};
      ix[d] = {2 * i + 1, 2 * i + 2};
    }
  }
  size_t m = 1;
  for (auto &a : h.ax) m *= a.size();
  h.f.resize(m);
  for (size_t k = 0; k < m; k++) {
    auto i = unflat(h, k);
    size_t f = 0;
    for (size_t d = 0; d < N; d++) f = f * 2 * g.ax[d].size() + ix[d][i[d]];
    h.f[k] = ff[f];
  }
  return h;
}
template<bool ML, class R, size_t N, bool Copy, bool Cont> struct Kind;
template<class R, size_t N, bool Copy, bool Cont> struct Kind<true, R, N, Copy, Cont> { typedef InterpMultilinear<(int) N, R, Copy, Cont> type; };
template<class R, size_t N, bool Copy, bool Cont> struct Kind<false, R, N, Copy, Cont> { typedef InterpSimplex<(int) N, R, Copy, Cont> type; };

template<class R, size_t N> std::array<R, N> somewhere(Case &c, const G<R, N> &g, bool &out) {
  std::array<R, N> p;
  out = false;
  bool try_out = c.r.chance(0.4), tie = c.r.chance(0.2);
  double frac = c.r.chance(0.5) ? 0.5 : c.r.unit();
  for (size_t d = 0; d < N; d++) {
    auto &a = g.ax[d];
    if (try_out && c.r.chance(0.5)) { bool ab = c.r.chance(0.5); p[d] = outside(c.r, a, ab); out = true; c.obs(std::string("outside/") + (ab ? "above" : "below") + "/axis" + std::to_string(d)); }
    else if (a.size() == 1) p[d] = a[0];
    else if (tie) { size_t i = c.r.range(0, (long) a.size() - 2); p[d] = (R) (a[i] + frac * (a[i + 1] - a[i])); p[d] = std::min(std::max(p[d], a[i]), a[i + 1]); c.obs("inside/equal-fractions"); }
    else { const char *k; p[d] = query_in(c.r, a, &k); c.obs(std::string("inside/") + k); }
  }
  return p;
}
template<class R, size_t N> std::vector<R *> pointers(std::vector<std::vector<R>> &a) { std::vector<R *> v; for (auto &x : a) v.push_back(x.data()); return v; }
template<class R, size_t N> std::vector<int> lengths(const std::vector<std::vector<R>> &a) { std::vector<int> v; for (auto &x : a) v.push_back((int) x.size()); return v; }

template<bool ML, class R, size_t N, class T> void audit(Case &c, const T &t, const G<R, N> &g, const std::string &what, int npts, const std::string &tn) {
  std::vector<std::vector<R>> co(N, std::vector<R>(npts));
  std::vector<Val<R, N>> want;
  for (int k = 0; k < npts; k++) {
    bool out;
    std::array<R, N> p;
    if (c.r.chance(0.2)) { size_t f = c.r.range(0, (long) g.f.size() - 1); auto i = unflat(g, f); for (size_t d = 0; d < N; d++) p[d] = g.ax[d][i[d]]; out = false; c.obs("node"); }
    else p = somewhere<R, N>(c, g, out);
    auto w = ML ? eval<R, N>(g, p) : simplex<R, N>(g, p);
    for (size_t d = 0; d < N; d++) co[d][k] = p[d];
    want.push_back(w);
    R v = t.interp(p.begin());
    std::string P;
    for (auto x : p) P += fmt("%.17g ", (double) x);
    CHECK(near(v, w.v, w.tol), what + (out ? "/clamped/" : "/value/") + tn, "interp(%s) = %.17g, expected %.17Lg tol %Lg", P.c_str(), (double) v, w.v, w.tol);
    c.nontrivial(H().add((double) w.v).add((double) p[0]).add((double) p[N - 1]).add(ML ? 1. : 0.).h);
  }
  std::vector<R> res(npts + 2, (R) 777);
  t.interp_vec(npts, co.begin(), co.end(), res.begin());
  for (int k = 0; k < npts; k++)
    CHECK(near(res[k], want[k].v, want[k].tol), what + "/list/" + tn, "interp_vec element %d of %d = %.17g, expected %.17Lg tol %Lg", k, npts, (double) res[k], want[k].v, want[k].tol);
  CHECK(res[npts] == (R) 777 && res[npts + 1] == (R) 777, what + "/list-overrun/" + tn, "interp_vec of %d points wrote beyond its results", npts);
}
template<bool ML, class R, size_t N, bool Copy> void values(Case &c, const std::string &tn) {
  typedef typename Kind<ML, R, N, Copy, true>::type T;
  G<R, N> g = grid<R, N>(c.r, c.r.chance(0.2) ? 1 : 2);
  // arrays given by the caller, released or overwritten at will afterwards
  std::unique_ptr<std::vector<std::vector<R>>> ax(new std::vector<std::vector<R>>(g.ax));
  std::unique_ptr<std::vector<R>> f(new std::vector<R>(g.f));
  std::unique_ptr<T> t;
  { auto pt = pointers<R, N>(*ax); auto ln = lengths<R, N>(*ax); t.reset(new T(pt.begin(), ln.begin(), f->data(), f->data() + f->size())); }
  audit<ML, R, N>(c, *t, g, "built", c.idx % 500 == 123 ? (int) c.r.range(17000, 70000) : 8, tn);
  for (auto &a : g.ax) if (a.size() == 1) c.obs("axis/single");
  for (auto &a : g.ax) if (a.size() == 2) c.obs("axis/2-points");
  int steps = (int) c.r.range(0, 3);
  for (int s = 0; s < steps; s++) {
    switch (c.r.range(0, 3)) {
      case 0: {  // the caller changes or releases its arrays
        if (Copy) {
          if (c.r.chance(0.5)) { ax.reset(); f.reset(); c.obs("caller/released"); }
          else if (f) { for (auto &x : *f) x = (R) 1e9; for (auto &a : *ax) for (auto &x : a) x = (R) 1e9; c.obs("caller/overwritten"); }
        } else {
          fill(c.r, g);
          for (size_t i = 0; i < f->size(); i++) (*f)[i] = g.f[i];
          c.obs("caller/updated-shared-data");
        }
        break;
      }
      case 1: {  // initialised again with other data of another size
        G<R, N> h = grid<R, N>(c.r, 2);
        std::unique_ptr<std::vector<std::vector<R>>> ax2(new std::vector<std::vector<R>>(h.ax));
        std::unique_ptr<std::vector<R>> f2(new std::vector<R>(h.f));
        auto pt = pointers<R, N>(*ax2);
        auto ln = lengths<R, N>(*ax2);
        t->init(pt.begin(), ln.begin(), f2->data(), f2->data() + f2->size());
        ax = std::move(ax2);
        f = std::move(f2);
        g = h;
        c.obs("re-initialised");
        break;
      }
      case 2: {  // moved elsewhere
        std::unique_ptr<T> u(new T(std::move(*t)));
        t = std::move(u);
        c.obs("moved");
        break;
      }
      default: {  // another interpolator in between
        G<R, N> h = grid<R, N>(c.r, 2);
        auto pt = pointers<R, N>(h.ax);
        auto ln = lengths<R, N>(h.ax);
        T o(pt.begin(), ln.begin(), h.f.data(), h.f.data() + h.f.size());
        audit<ML, R, N>(c, o, h, "other", 2, tn);
        break;
      }
    }
    audit<ML, R, N>(c, *t, g, "history", 4, tn);
  }
  c.obs("type/" + tn);
}
/// affine data: both kinds are exact
template<bool ML, class R, size_t N> void affine(Case &c, const std::string &tn) {
  typedef typename Kind<ML, R, N, true, true>::type T;
  G<R, N> g;
  for (size_t d = 0; d < N; d++) g.ax.push_back(sorted_axis<R>(c.r, (int) c.r.range(2, N <= 2 ? 12 : N == 3 ? 7 : 4)));
  size_t n = 1;
  for (auto &a : g.ax) n *= a.size();
  g.f.resize(n);
  LD b[N], b0 = c.r.gauss();
  // unit variation over each axis so that rounding of the data is small compared with it
  for (size_t d = 0; d < N; d++) b[d] = c.r.gauss() / ((LD) g.ax[d].back() - g.ax[d].front());
  LD m = 0;
  auto aff = [&](const std::array<R, N> &p) { LD v = b0; for (size_t d = 0; d < N; d++) { R q = std::min(std::max(p[d], g.ax[d].front()), g.ax[d].back()); v += b[d] * ((LD) q - g.ax[d].front()); } return v; };
  for (size_t k = 0; k < n; k++) { auto i = unflat(g, k); std::array<R, N> p; for (size_t d = 0; d < N; d++) p[d] = g.ax[d][i[d]]; LD v = aff(p); g.f[k] = (R) v; m = std::max(m, labs_(v)); }
  auto pt = pointers<R, N>(g.ax);
  auto ln = lengths<R, N>(g.ax);
  T t(pt.begin(), ln.begin(), g.f.data(), g.f.data() + n);
  for (int k = 0; k < 8; k++) {
    bool out;
    auto p = somewhere<R, N>(c, g, out);
    R v = t.interp(p.begin());
    LD w = aff(p), tol = 64 * N * (1 << N) * epsof<R>() * m;
    CHECK(near(v, w, tol), "affine/" + tn, "affine data: %.17g, expected %.17Lg tol %Lg", (double) v, w, tol);
  }
  c.obs("affine/" + tn);
}
template<bool ML, class R, size_t N> void jumps(Case &c, const std::string &tn) {
  typedef typename Kind<ML, R, N, true, false>::type T;
  G<R, N> g;
  int cap = N == 1 ? 8 : N == 2 ? 5 : 3;
  size_t n = 1;
  for (size_t d = 0; d < N; d++) { g.ax.push_back(sorted_axis<R>(c.r, (int) c.r.range(2, cap))); n *= 2 * g.ax[d].size(); }
  std::vector<R> ff(n);
  for (auto &x : ff) x = (R) c.r.gauss();
  auto pt = pointers<R, N>(g.ax);
  auto ln = lengths<R, N>(g.ax);
  std::unique_ptr<std::vector<R>> src(new std::vector<R>(ff));
  T t(pt.begin(), ln.begin(), src->data(), src->data() + n);
  src.reset();
  for (int k = 0; k < 12; k++) {
    bool out;
    auto p = somewhere<R, N>(c, g, out);
    auto h = piece<R, N>(g, ff, p);
    auto w = ML ? eval<R, N>(h, p) : simplex<R, N>(h, p);
    R v = t.interp(p.begin());
    std::string P;
    for (auto x : p) P += fmt("%.17g ", (double) x);
    CHECK(near(v, w.v, w.tol), "jumps/" + tn, "piecewise data: interp(%s) = %.17g, expected %.17Lg tol %Lg", P.c_str(), (double) v, w.v, w.tol);
    c.nontrivial(H().add((double) w.v).add((double) p[0]).h);
  }
  c.obs("jumps/" + tn);
}
template<bool ML, class R, size_t N> void refusals(Case &c, const std::string &tn) {
  typedef typename Kind<ML, R, N, true, true>::type T;
  typedef typename Kind<ML, R, N, true, false>::type TJ;
  typedef typename Kind<ML, R, N, false, true>::type TN;
  G<R, N> g = grid<R, N>(c.r, 2);
  long n = (long) g.f.size(), nj = n << N;
  auto pt = pointers<R, N>(g.ax);
  auto ln = lengths<R, N>(g.ax);
  std::vector<R> big(2 * nj + 64, (R) 1);
  auto bad = [&](long right) { long m; do { switch (c.r.range(0, 4)) { case 0: m = right - 1; break; case 1: m = right + 1; break; case 2: m = 0; break; case 3: m = right / 2; break; default: m = c.r.range(1, 2 * right); } } while (m == right); return m; };
  long m = bad(n), mj = bad(nj), mn = bad(n);
  if (N > 1 && c.r.chance(0.3)) mj = 2 * n;
  Outcome o = observe([&]() { T t(pt.begin(), ln.begin(), big.data(), big.data() + m); });
  CHECK(refused(o), "wrong-size/" + tn, "%ld values for %ld nodes: %s", m, n, oname(o));
  o = observe([&]() { TN t(pt.begin(), ln.begin(), big.data(), big.data() + mn); });
  CHECK(refused(o), "wrong-size-shared/" + tn, "%ld values for %ld nodes: %s", mn, n, oname(o));
  o = observe([&]() { TJ t(pt.begin(), ln.begin(), big.data(), big.data() + mj); });
  CHECK(refused(o), "wrong-size-jumps/" + tn, "%ld values for %ld nodes of discontinuous data (%ld expected): %s", mj, n, nj, oname(o));
  c.obs("refused/" + tn);
}
template<size_t N, class F> void cface(Case &c, F fn) {
  G<double, N> g = grid<double, N>(c.r, 2);
  auto pt = pointers<double, N>(g.ax);
  auto ln = lengths<double, N>(g.ax);
  auto data = g.f;
  int n = (int) c.r.range(0, 9);
  std::vector<std::vector<double>> co(N, std::vector<double>(n + 1));
  std::vector<Val<double, N>> want;
  for (int k = 0; k < n; k++) { bool out; auto p = somewhere<double, N>(c, g, out); for (size_t d = 0; d < N; d++) co[d][k] = p[d]; want.push_back(simplex<double, N>(g, p)); }
  std::vector<double *> xp;
  for (auto &x : co) xp.push_back(x.data());
  std::vector<double> res(n + 1, 777.);
  fn(pt.data(), ln.data(), data.data(), n, xp.data(), res.data());
  for (int k = 0; k < n; k++) CHECK(near(res[k], want[k].v, want[k].tol), fmt("c-interface/%zu", N), "element %d = %.17g, expected %.17Lg", k, res[k], want[k].v);
  CHECK(res[n] == 777., fmt("c-interface-overrun/%zu", N), "wrote beyond %d results", n);
  CHECK(data == g.f, fmt("c-interface-input/%zu", N), "the data were modified");
  c.obs(fmt("c-interface/%zu", N));
}
/// data owned through reference counts handed over at construction: they live as long as the interpolator does
template<bool ML, size_t N> void counted(Case &c, const std::string &tn) {
  typedef std::shared_ptr<std::vector<double>> Ref;
  typedef typename std::conditional<ML, InterpMultilinear<(int) N, double, false, true, Ref, Ref>, InterpSimplex<(int) N, double, false, true, Ref, Ref>>::type T;
  G<double, N> g = grid<double, N>(c.r, 2);
  Ref f(new std::vector<double>(g.f));
  std::vector<Ref> ax;
  for (auto &a : g.ax) ax.push_back(Ref(new std::vector<double>(a)));
  std::weak_ptr<std::vector<double>> wf = f;
  {
    std::vector<double *> pt;
    for (auto &a : ax) pt.push_back(a->data());
    auto ln = lengths<double, N>(g.ax);
    T t(pt.begin(), ln.begin(), f->data(), f->data() + f->size(), f, ax.begin());
    f.reset();
    ax.clear();
    CHECK(!wf.expired(), "counted-released/" + tn, "the counted data were released while the interpolator lives");
    if (!wf.expired()) audit<ML, double, N>(c, t, g, "counted", 4, tn);
  }
  CHECK(wf.expired(), "counted-kept/" + tn, "the counted data outlive the interpolator");
  c.obs("counted/" + tn);
}
#if IN_PART(5)
SECTION(counted, 300, 8000) { counted<true, 1>(c, "multilinear/1"); counted<true, 3>(c, "multilinear/3"); counted<false, 2>(c, "simplex/2"); counted<false, 4>(c, "simplex/4"); }
#endif
#define DIMS(P, N, q, t) \
  SECTION(ml##N, q, t) { values<true, double, N, true>(c, "multilinear/" #N); } \
  SECTION(sx##N, q, t) { values<false, double, N, true>(c, "simplex/" #N); } \
  SECTION(mls##N, q / 2, t / 2) { values<true, double, N, false>(c, "multilinear-shared/" #N); } \
  SECTION(sxs##N, q / 2, t / 2) { values<false, double, N, false>(c, "simplex-shared/" #N); } \
  SECTION(mla##N, q / 3, t / 3) { affine<true, double, N>(c, "multilinear/" #N); } \
  SECTION(sxa##N, q / 3, t / 3) { affine<false, double, N>(c, "simplex/" #N); }
#if IN_PART(6)
DIMS(0, 1, 900, 30000)
DIMS(0, 2, 900, 30000)
#endif
#if IN_PART(1)
DIMS(0, 3, 900, 30000)
#endif
#if IN_PART(2)
DIMS(1, 4, 450, 12000)
#endif
#if IN_PART(3)
DIMS(1, 5, 200, 5000)
#endif
#if IN_PART(4)
SECTION(mlf, 400, 10000) { values<true, float, 2, true>(c, "multilinear-float/2"); affine<true, float, 3>(c, "multilinear-float/3"); }
SECTION(sxf, 400, 10000) { values<false, float, 2, true>(c, "simplex-float/2"); values<false, float, 3, true>(c, "simplex-float/3"); }
SECTION(jump1, 400, 10000) { jumps<true, double, 1>(c, "multilinear/1"); jumps<false, double, 1>(c, "simplex/1"); }
SECTION(jump2, 400, 10000) { jumps<true, double, 2>(c, "multilinear/2"); jumps<false, double, 2>(c, "simplex/2"); }
SECTION(jump3, 400, 10000) { jumps<true, double, 3>(c, "multilinear/3"); jumps<false, double, 3>(c, "simplex/3"); }
#endif
#if IN_PART(5)
SECTION(refuse, 60, 600) {
  switch (c.idx % 6) {
    case 0: refusals<true, double, 1>(c, "multilinear/1"); break;
    case 1: refusals<true, double, 2>(c, "multilinear/2"); break;
    case 2: refusals<true, double, 3>(c, "multilinear/3"); break;
    case 3: refusals<false, double, 1>(c, "simplex/1"); break;
    case 4: refusals<false, double, 2>(c, "simplex/2"); break;
    default: refusals<false, double, 3>(c, "simplex/3"); break;
  }
}
#endif
#if IN_PART(3)
SECTION(cinterface, 600, 15000) { cface<1>(c, linterp_simplex_1); cface<2>(c, linterp_simplex_2); cface<3>(c, linterp_simplex_3); }
#endif
}  // namespace mon
MON_MAIN
