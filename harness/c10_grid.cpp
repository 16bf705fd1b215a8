// C10: N-dimensional regular grid interpolation
#include "grid_ref.h"
namespace mon {
using namespace mathutils;

template<class R, size_t N> RegularGridInterpolator<R, N> build(Rng &r, const G<R, N> &g) {
  RegularGridInterpolator<R, N> t;
  for (auto &a : g.ax) t.AddCoord(a);
  t.AddVar(array_of<R, R, N>(r, g, g.f));
  return t;
}
template<class R> R beyond(Rng &r, const std::vector<R> &a, bool above) {
  R span = a.size() > 1 ? a.back() - a.front() : (R) 1;
  R q;
  switch (r.range(0, 3)) {
    case 3: q = r.chance(0.5) ? (R) 1e30 : std::numeric_limits<R>::infinity(); if (!above) q = -q; break;
    case 0: q = above ? ulp_up(a.back()) : ulp_down(a.front()); break;
    case 1: q = above ? a.back() + span * (R) r.uni(0.01, 2) : a.front() - span * (R) r.uni(0.01, 2); break;
    default: q = above ? a.back() + span * (R) 1e5 : a.front() - span * (R) 1e5;
  }
  return q;
}
template<class R, size_t N> void values(Case &c, const char *tn) {
  auto g = grid<R, N>(c.r);
  auto keep = g;
  RegularGridInterpolator<R, N> t;
  for (size_t d = 0; d < N; d++) {
    t.AddCoord(g.ax[d]);
    CHECK(t.GetCoord(d) == g.ax[d] && t.GetCoordMinVal(d) == g.ax[d].front() && t.GetCoordMaxVal(d) == g.ax[d].back(), std::string("axis-before-var/") + tn,
          "axis %zu or its bounds read back wrong before the variable is set", d);
  }
  auto arr = array_of<R, R, N>(c.r, g, g.f);
  auto arr0 = arr;
  t.AddVar(arr);
  CHECK(arr == arr0, std::string("input-modified/") + tn, "AddVar changed its argument");
  CHECK(t.IsValid() && t.GetDimension() == N, std::string("valid/") + tn, "IsValid/GetDimension");
  for (size_t d = 0; d < N; d++)
    CHECK(t.GetCoord(d) == g.ax[d] && t.GetCoordMinVal(d) == g.ax[d].front() && t.GetCoordMaxVal(d) == g.ax[d].back(), std::string("axis/") + tn,
          "axis %zu or its bounds read back wrong", d);
  for (int k = 0; k < 6; k++) {
    size_t f = (size_t) c.r.range(0, (long) g.f.size() - 1);
    Idx<N> i = unflat(g, f);
    std::array<R, N> p;
    for (size_t d = 0; d < N; d++) p[d] = g.ax[d][i[d]];
    R v = t.EvalAtIndice(i), w = t.Interp(p);
    CHECK(v == g.f[f], std::string("indice/") + tn, "EvalAtIndice returns %.17g, datum %.17g", (double) v, (double) g.f[f]);
    LD tol = eval<R, N>(g, p).tol;
    CHECK(near(w, g.f[f], tol), std::string("node/") + tn, "Interp at a node = %.17g, datum %.17g", (double) w, (double) g.f[f]);
    CHECK(near(t.Interp(p, true), g.f[f], tol), std::string("node-checked/") + tn, "bound-checked Interp at a node differs from the datum");
  }
  for (int k = 0; k < 16; k++) {
    std::array<R, N> p;
    int out = 0;
    bool try_out = c.r.chance(0.5);
    for (size_t d = 0; d < N; d++) {
      if (try_out && c.r.chance(0.5)) { bool ab = c.r.chance(0.5); p[d] = beyond(c.r, g.ax[d], ab); out++; c.obs(std::string("outside/") + (ab ? "above" : "below") + "/axis" + std::to_string(d)); }
      else { const char *kind; p[d] = query_in(c.r, g.ax[d], &kind); c.obs(std::string("inside/") + kind); }
    }
    if (N > 1 && c.r.chance(0.15)) {  // the same coordinate several times
      size_t from = (size_t) c.r.range(0, (long) N - 1);
      for (size_t d = 0; d < N; d++) if (c.r.chance(0.7)) p[d] = p[from];
      out = 0;
      for (size_t d = 0; d < N; d++) out += p[d] < g.ax[d].front() || p[d] > g.ax[d].back();
      c.obs("point/equal-coordinates");
    }
    auto w = eval<R, N>(g, p);
    R v = t.Interp(p);
    std::string P;
    for (auto x : p) P += fmt("%.17g ", (double) x);
    CHECK(near(v, w.v, w.tol), std::string(out ? "clamped-value/" : "value/") + tn, "Interp(%s) = %.17g, expected %.17Lg tol %Lg", P.c_str(), (double) v, w.v, w.tol);
    if (!out) {
      R u = t.Interp(p, true);
      CHECK(near(u, w.v, w.tol), std::string("checked-value/") + tn, "bound-checked Interp(%s) = %.17g, expected %.17Lg", P.c_str(), (double) u, w.v);
    } else if (k < 5) {
      // refusal is an exception today; a child process tells it apart from an answer without trusting that
      bool threw = false;
      if (c.idx % 25 == 0) { threw = refused(observe([&]() { t.Interp(p, true); })); c.obs("refused-in-child"); }
      else { try { t.Interp(p, true); } catch (...) { threw = true; } }
      CHECK(threw, std::string("bound-check/") + tn, "bound-checked Interp answered outside the grid at %s", P.c_str());
      c.obs("bound-refused");
    }
    c.nontrivial(H().add((double) w.v).add((double) p[0]).add((double) p[N - 1]).h);
  }
  c.obs(std::string("dim/") + tn);
  for (size_t d = 0; d < N; d++) if (g.ax[d].size() == 2) c.obs("axis/2-points");
}
SECTION(d1, 1500, 40000) { values<double, 1>(c, "double/1"); }
SECTION(d2, 2500, 60000) { values<double, 2>(c, "double/2"); }
SECTION(d3, 2500, 60000) { values<double, 3>(c, "double/3"); }
SECTION(d4, 1000, 20000) { values<double, 4>(c, "double/4"); }
SECTION(f1, 600, 15000) { values<float, 1>(c, "float/1"); }
SECTION(f2, 1000, 25000) { values<float, 2>(c, "float/2"); }
SECTION(f3, 1000, 25000) { values<float, 3>(c, "float/3"); }
SECTION(f4, 500, 10000) { values<float, 4>(c, "float/4"); }

template<class R, size_t N> void refusals(Case &c, const char *tn) {
  auto g = grid<R, N>(c.r);
  // an axis that is not strictly increasing
  auto bad = g.ax[0];
  bad.push_back(bad.back() + (bad[1] - bad[0]) + (bad.back() - bad[0]));
  bad.push_back(bad.back() + (bad[1] - bad[0]) + (bad.back() - bad[0]));
  int k = (int) c.r.range(0, 3), at = (int) c.r.range(0, (long) bad.size() - 2);
  if (k == 0) bad[at + 1] = bad[at];
  else if (k == 1) std::swap(bad[at], bad[at + 1]);
  else if (k == 2) std::reverse(bad.begin(), bad.end());
  else { bad[bad.size() - 1] = bad[bad.size() - 2]; }
  Outcome o = observe([&]() { RegularGridInterpolator<R, N> t; t.AddCoord(bad); });
  CHECK(refused(o), std::string("bad-axis-accepted/") + tn, "AddCoord of a non-increasing axis (kind %d): %s", k, oname(o));
  c.obs("refusal/axis");
  o = observe([&]() { RegularGridInterpolator<R, N> t; for (auto &a : g.ax) t.AddCoord(a); t.AddCoord(g.ax[0]); });
  CHECK(refused(o), std::string("extra-axis-accepted/") + tn, "%zu axes accepted: %s", N + 1, oname(o));
  c.obs("refusal/too-many");
  int have = (int) c.r.range(0, (long) N - 1);
  o = observe([&]() { RegularGridInterpolator<R, N> t; for (int d = 0; d < have; d++) t.AddCoord(g.ax[d]); t.AddVar(array_of<R, R, N>(c.r, g, g.f)); });
  CHECK(refused(o), std::string("missing-axis-accepted/") + tn, "variable accepted with %d of %zu axes: %s", have, N, oname(o));
  c.obs("refusal/missing");
  unsigned idx = c.r.chance(0.4) ? N : c.r.chance(0.5) ? (unsigned) c.r.range(N, 100) : c.r.chance(0.5) ? 0xFFFFFFFFu : 0x80000000u + (unsigned) c.r.range(0, 5);
  int what = (int) c.r.range(0, 2);
  auto t = build<R, N>(c.r, g);
  o = observe([&]() { if (what == 0) t.GetCoord(idx); else if (what == 1) t.GetCoordMinVal(idx); else t.GetCoordMaxVal(idx); });
  CHECK(refused(o), std::string("bad-index-answered/") + tn, "axis index %u of %zu (getter %d): %s", idx, N, what, oname(o));
  c.obs("refusal/index" + std::to_string(what));
  auto gw = g;  // a variable that does not fit the axes
  size_t d = (size_t) c.r.range(0, (long) N - 1);
  if (c.r.chance(0.5) || gw.ax[d].size() < 2) { int add = (int) c.r.range(1, 3); while (add--) gw.ax[d].push_back(2 * gw.ax[d].back() - gw.ax[d].front() + 1); }
  else gw.ax[d].resize((size_t) c.r.range(1, (long) gw.ax[d].size() - 1));
  fill(c.r, gw);
  auto wrong = array_of<R, R, N>(c.r, gw, gw.f);
  o = observe([&]() { RegularGridInterpolator<R, N> t; for (auto &a : g.ax) t.AddCoord(a); t.AddVar(wrong); });
  CHECK(refused(o), std::string("wrong-shape-accepted/") + tn, "variable with %zu values along axis %zu of %zu points accepted: %s", gw.ax[d].size(), d, g.ax[d].size(), oname(o));
  c.obs("refusal/shape");
}
SECTION(refuse1, 30, 300) { refusals<double, 1>(c, "double/1"); }
SECTION(refuse2, 30, 300) { refusals<double, 2>(c, "double/2"); }
SECTION(refuse3, 30, 300) { refusals<float, 3>(c, "float/3"); }
SECTION(refuse4, 20, 200) { refusals<double, 4>(c, "double/4"); }
}  // namespace mon
MON_MAIN
