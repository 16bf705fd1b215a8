// C11: build / copy / destroy histories of grid interpolators, under AddressSanitizer
#include "grid_ref.h"
namespace mon {
using namespace mathutils;

template<class R, size_t N> struct M { size_t naxes = 0; bool var = false; G<R, N> g; };

template<class R, size_t N> void audit(Case &c, const RegularGridInterpolator<R, N> &t, const M<R, N> &m, const std::string &after) {
  CHECK(t.IsValid() == m.var, "valid/" + after, "IsValid %d, variable %s", (int) t.IsValid(), m.var ? "present" : "absent");
  CHECK(t.GetDimension() == N, "dimension/" + after, "dimension %zu", t.GetDimension());
  for (size_t d = 0; d < m.naxes; d++)
    CHECK(t.GetCoord(d) == m.g.ax[d] && t.GetCoordMinVal(d) == m.g.ax[d].front() && t.GetCoordMaxVal(d) == m.g.ax[d].back(), "axis/" + after, "axis %zu wrong", d);
  if (!m.var || !t.IsValid()) return;
  for (int k = 0; k < 4; k++) {
    std::array<R, N> p;
    for (size_t d = 0; d < N; d++) p[d] = query_in(c.r, m.g.ax[d]);
    auto w = eval<R, N>(m.g, p);
    R v = t.Interp(p), u = t.Interp(p, true);
    CHECK(near(v, w.v, w.tol) && near(u, w.v, w.tol), "value/" + after, "Interp = %.17g / %.17g (checked), expected %.17Lg", (double) v, (double) u, w.v);
    { size_t d = (size_t) c.r.range(0, N - 1); p[d] += 10 * (m.g.ax[d].back() - m.g.ax[d].front()); }
    auto w2 = eval<R, N>(m.g, p);
    CHECK(near(t.Interp(p), w2.v, w2.tol), "outside-value/" + after, "clamped value wrong");
    bool ref_ = false;
    try { t.Interp(p, true); } catch (...) { ref_ = true; }
    CHECK(ref_, "bound-check/" + after, "bound check passed far outside");
    size_t f = (size_t) c.r.range(0, (long) m.g.f.size() - 1);
    CHECK(t.EvalAtIndice(unflat(m.g, f)) == m.g.f[f], "indice/" + after, "EvalAtIndice wrong");
    c.nontrivial(H().add((double) w.v).add((double) p[0]).add(after).h);
  }
}
template<class R, size_t N> void life(Case &c, const std::string &tn) {
  typedef RegularGridInterpolator<R, N> T;
  std::vector<std::unique_ptr<T>> t;
  std::vector<M<R, N>> m;
  auto fresh = [&]() { t.emplace_back(new T()); m.emplace_back(); };
  auto complete = [&](int k) {
    while (m[k].naxes < N) { m[k].g.ax.push_back(sorted_axis<R>(c.r, (int) c.r.range(2, 6))); t[k]->AddCoord(m[k].g.ax.back()); m[k].naxes++; }
    fill(c.r, m[k].g);
    t[k]->AddVar(array_of<R, R, N>(c.r, m[k].g, m[k].g.f));
    m[k].var = true;
  };
  fresh();
  int steps = (int) c.r.range(5, 25);
  for (int s = 0; s < steps; s++) {
    int k = (int) c.r.range(0, (long) t.size() - 1);
    std::string op = "evaluate";
    switch (c.r.range(0, 13)) {
      case 0: if (t.size() < 6) { fresh(); op = "new"; } break;
      case 1:
        if (m[k].naxes < N) { m[k].g.ax.push_back(sorted_axis<R>(c.r, (int) c.r.range(2, 6))); t[k]->AddCoord(m[k].g.ax.back()); m[k].naxes++; op = "AddCoord"; break; }
        // fallthrough
      case 2: { bool had = m[k].var; complete(k); op = had ? "replace-variable" : "AddVar"; break; }
      case 3: case 4:  // copy construction
        if (t.size() < 6) {
          t.emplace_back(new T(*t[k])); m.push_back(m[k]);
          op = std::string("copy-") + (m[k].var ? "complete" : m[k].naxes ? "partial" : "empty");
          k = (int) t.size() - 1;
        }
        break;
      case 5: case 6:  // assignment onto another object
        if (t.size() > 1) {
          int j = (k + 1) % (int) t.size();
          op = std::string("assign-") + (m[k].var ? "complete" : m[k].naxes ? "partial" : "empty") + "-onto-" + (m[j].var ? "complete" : "incomplete");
          *t[j] = *t[k]; m[j] = m[k];
          k = j;
        }
        break;
      case 7: { T &self = *t[k]; *t[k] = self; op = m[k].var ? "self-assign" : "self-assign-incomplete"; break; }
      case 8: case 9:
        if (t.size() > 1) { t.erase(t.begin() + k); m.erase(m.begin() + k); k = 0; op = "destroy"; }
        break;
      case 10:  // refused axis
      {
        std::vector<R> bad{(R) 1, (R) 2, (R) 2};
        if (m[k].naxes < N) { try { t[k]->AddCoord(bad); } catch (...) {} op = "rejected-axis"; }
        break;
      }
      case 11:  // refused variable (wrong size)
        if (m[k].naxes == N) {
          G<R, N> g2 = m[k].g;
          size_t d = (size_t) c.r.range(0, N - 1);
          if (c.r.chance(0.5) || g2.ax[d].size() < 2) g2.ax[d].push_back(2 * g2.ax[d].back() - g2.ax[d].front()); else g2.ax[d].pop_back();
          fill(c.r, g2);
          auto arr = array_of<R, R, N>(c.r, g2, g2.f);
          Outcome o = observe([&]() { t[k]->AddVar(arr); });
          CHECK(refused(o), "wrong-size-accepted/" + tn, "variable of a wrong size accepted: %s", oname(o));
          if (o == THREW) { try { t[k]->AddVar(arr); } catch (...) {} }
          op = m[k].var ? "rejected-variable" : "rejected-first-variable";
        }
        break;
      case 12: {  // through a function returning by value / a vector reallocation
        std::vector<T> v;
        v.push_back(*t[k]);
        v.push_back(v[0]);
        v.reserve(v.capacity() * 4);
        audit(c, v[0], m[k], "in-vector/" + tn);
        T moved(std::move(v[1]));
        audit(c, moved, m[k], "move-constructed/" + tn);
        T assigned;
        assigned = std::move(v[0]);
        audit(c, assigned, m[k], "move-assigned/" + tn);
        op = "vector-of-copies";
        break;
      }
      default: {
        if (m[k].var && t.size() < 6) {  // chain: copy, destroy the original, replace in the copy
          std::unique_ptr<T> cp(new T(*t[k]));
          t[k].reset();
          t[k] = std::move(cp);
          op = "copy-then-destroy-original";
        }
      }
    }
    c.obs("op/" + op);
    for (size_t i = 0; i < t.size(); i++) audit(c, *t[i], m[i], ((int) i == k ? op : "other-object") + "/" + tn);
  }
}
SECTION(d1, 800, 20000) { life<double, 1>(c, "double1"); }
SECTION(d2, 1200, 30000) { life<double, 2>(c, "double2"); }
SECTION(d3, 600, 15000) { life<double, 3>(c, "double3"); }
SECTION(f2, 500, 10000) { life<float, 2>(c, "float2"); }
SECTION(d4, 150, 4000) { life<double, 4>(c, "double4"); }
}  // namespace mon
MON_MAIN
