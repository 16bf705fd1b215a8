// C09: histories over 2D lookup tables against a map model
#include "bilin_ref.h"
#include "names_ref.h"
namespace mon {
using namespace mathutils;

template<class R> struct Model { bool hx = false, hy = false; std::vector<R> x, y; std::map<std::string, bil::Grid<R>> s; };

template<class R> void audit(Case &c, const LookupTable2d<R> &t, const Model<R> &m, const std::string &after) {
  CHECK(t.GetNbSeries() == m.s.size(), "count/" + after, "%lu series reported, %zu stored", t.GetNbSeries(), m.s.size());
  if (m.hx) CHECK(t.GetX() == m.x, "GetX/" + after, "x axis read back differs");
  if (m.hy) CHECK(t.GetY() == m.y, "GetY/" + after, "y axis read back differs");
  if (m.hx && m.hy) CHECK(t.GetNbSample() == m.x.size() * m.y.size(), "GetNbSample/" + after, "%lu samples, expected %zu", t.GetNbSample(), m.x.size() * m.y.size());
  for (const char *n : names::USUAL) CHECK(t.HasSerie(n) == (m.s.count(n) > 0), "HasSerie/" + after, "HasSerie('%s') = %d", n, (int) t.HasSerie(n));
  for (int k = 0; k < 3; k++) {
    std::string n = names::any(c.r, m.s);
    CHECK(t.HasSerie(n) == (m.s.count(n) > 0), "HasSerie/" + after, "HasSerie('%s', %zu characters) = %d", n.c_str(), n.size(), (int) t.HasSerie(n));
  }
  CHECK(!t.HasSerie("no such serie"), "HasSerie/" + after, "HasSerie of an unknown name");
  for (auto &kv : m.s) {
    int nq = (int) c.r.range(1, 4);
    std::vector<std::vector<R>> pts;
    for (int k = 0; k < nq; k++) pts.push_back({query_in(c.r, kv.second.x), query_in(c.r, kv.second.y)});
    auto l = t.Eval(kv.first, pts);
    bool okl = l.size() == pts.size();
    for (int k = 0; k < nq; k++) {
      auto w = bil::eval(kv.second, pts[k][0], pts[k][1]);
      R v = t.Eval(kv.first, pts[k][0], pts[k][1]);
      R v2 = t.Eval(kv.first, pts[k]);
      CHECK(near(v, w.v, w.tol), "value/" + after, "'%s' at (%.17g,%.17g) = %.17g, expected %.17Lg", kv.first.c_str(), (double) pts[k][0], (double) pts[k][1], (double) v, w.v);
      CHECK(near(v2, w.v, w.tol), "pair-value/" + after, "'%s' at coordinate pair = %.17g, expected %.17Lg", kv.first.c_str(), (double) v2, w.v);
      okl = okl && near(l[k], w.v, w.tol);
      c.nontrivial(H().add((double) pts[k][0]).add((double) pts[k][1]).add((double) w.v).add(kv.first).h);
    }
    CHECK(okl, "list-value/" + after, "point-list evaluation of '%s' wrong", kv.first.c_str());
  }
}
// another axis, sometimes with the same ends and number of points as the one it replaces
template<class R> std::vector<R> new_axis(Case &c, const std::vector<R> &old) {
  auto z = old;
  if (old.size() > 2 && c.r.chance(0.4)) {
    bool inc = true, moved = false;
    for (size_t i = 1; i + 1 < z.size(); i++) {
      R q = z[i] + (R) c.r.uni(-0.45, 0.45) * (std::min)(z[i] - z[i - 1], z[i + 1] - z[i]);
      if (q > z[i - 1] && q < z[i + 1]) { moved = moved || q != z[i]; z[i] = q; }
    }
    for (size_t i = 1; i < z.size(); i++) inc = inc && z[i] > z[i - 1];
    if (inc && moved) { c.obs("axis/same-ends"); return z; }
  }
  return sorted_axis<R>(c.r, (int) c.r.range(2, 9));
}
template<class R> void history(Case &c, const char *tn) {
  Quiet quiet;
  LookupTable2d<R> t;
  Model<R> m;
  bool method_ok = true;
  int steps = (int) c.r.range(4, 24);
  for (int s = 0; s < steps; s++) {
    std::string op = "evaluate";
    int sel = (int) c.r.range(0, 15);
    auto fresh_name = [&]() { std::string n = names::any(c.r, m.s); return m.s.count(n) ? "fresh" + std::to_string(s) : n; };
    if (!m.hx || sel == 0) { m.x = new_axis(c, m.x); t.SetX(m.x); m.hx = true; op = m.s.empty() ? "SetX" : "SetX-after-data"; }
    else if (!m.hy || sel == 1) { m.y = new_axis(c, m.y); t.SetY(m.y); m.hy = true; op = m.s.empty() ? "SetY" : "SetY-after-data"; }
    else if (sel <= 8) {
      std::string n = names::any(c.r, m.s);
      if (n.find('\0') != std::string::npos) c.obs("name/embedded-nul");
      if (n.size() > 60) c.obs("name/long");
      bool dup = m.s.count(n) > 0;
      if (!method_ok && !dup) { t.SetInterpolationMethod(LINEAR); method_ok = true; }
      auto g = bil::grid_on(c.r, m.x, m.y);
      bool r = t.AddData(n, g.d);
      CHECK(r == !dup, dup ? "duplicate-accepted" : "addition-rejected", "AddData('%s') returned %d", n.c_str(), (int) r);
      if (!dup) m.s[n] = g;
      op = dup ? "AddData-duplicate" : "AddData";
    } else if (sel <= 10) {  // unsupported method
      const INTERP_METHOD bad[] = {LINEAR_EXTRAPOLATE, LINEAR_SATURATE, BSPLINE};
      t.SetInterpolationMethod(bad[c.r.range(0, 2)]);
      method_ok = false;
      std::string n = fresh_name();
      auto g = bil::grid_on(c.r, m.x, m.y);
      Outcome o = observe([&]() { t.AddData(n, g.d); });
      CHECK(refused(o), "unsupported-method-accepted", "AddData with an unsupported method: %s", oname(o));
      if (o == THREW) { try { t.AddData(n, g.d); } catch (...) {} }
      CHECK(!t.HasSerie(n), "failed-addition-registered", "HasSerie true after a failed addition");
      op = "AddData-unsupported";
      if (c.r.chance(0.6)) { t.SetInterpolationMethod(LINEAR); method_ok = true; }
    } else if (sel <= 12) {  // undersized data
      std::string n = fresh_name();
      auto g = bil::grid_on(c.r, m.x, m.y);
      g.d.resize(c.r.range(0, (long) g.d.size() - 1));
      Outcome o = observe([&]() { t.AddData(n, g.d); });
      CHECK(refused(o), "undersized-data-accepted", "AddData of %zu values on a %zux%zu grid: %s", g.d.size(), m.x.size(), m.y.size(), oname(o));
      if (o == THREW) { try { t.AddData(n, g.d); } catch (...) {} }
      CHECK(!t.HasSerie(n), "failed-addition-registered", "HasSerie true after a failed addition");
      op = "AddData-undersized";
      // the same name can still be added properly afterwards
      if (method_ok && c.r.chance(0.6)) {
        auto g2 = bil::grid_on(c.r, m.x, m.y);
        CHECK(t.AddData(n, g2.d), "addition-rejected", "AddData('%s') rejected after a failed attempt", n.c_str());
        m.s[n] = g2;
        op = "AddData-after-failure";
      }
    } else if (sel == 13 && c.r.chance(0.4)) {
      std::string n = names::unknown(c.r, m.s);
      R qx = m.s.empty() ? m.x[0] : m.s.begin()->second.x[0], qy = m.s.empty() ? m.y[0] : m.s.begin()->second.y[0];
      int how = (int) c.r.range(0, 2);
      Outcome o = observe([&]() {
        if (how == 0) t.Eval(n, qx, qy);
        else if (how == 1) t.Eval(n, std::vector<R>{qx, qy});
        else t.Eval(n, std::vector<std::vector<R>>{{qx, qy}});
      });
      CHECK(refused(o), "unknown-name-answered", "Eval of an unknown name: %s", oname(o));
      op = "unknown-name";
    }
    c.obs("op/" + op);
    audit(c, t, m, op + "/" + tn);
  }
}
SECTION(d, 1500, 40000) { history<double>(c, "double"); }
SECTION(f, 600, 15000) { history<float>(c, "float"); }

SECTION(many, 24, 240) {
  Quiet quiet;
  LookupTable2d<double> t;
  Model<double> m;
  m.x = sorted_axis<double>(c.r, (int) c.r.range(2, 4)); m.y = sorted_axis<double>(c.r, (int) c.r.range(2, 4));
  m.hx = m.hy = true;
  t.SetX(m.x); t.SetY(m.y);
  int n = c.idx % 3 ? (int) c.r.range(40, 200) : (int) c.r.range(300, 700);
  for (int i = 0; i < n; i++) {
    std::string nm = c.r.chance(0.1) ? names::any(c.r, m.s) : "s" + std::to_string(c.r.range(0, 2 * n));
    auto g = bil::grid_on(c.r, m.x, m.y);
    bool dup = m.s.count(nm) > 0;
    CHECK(t.AddData(nm, g.d) == !dup, "many-add", "AddData('%s')", nm.c_str());
    if (!dup) m.s[nm] = g;
  }
  audit(c, t, m, "many");
  std::string unk = c.r.chance(0.5) ? "s" + std::to_string(2 * n + 1 + c.r.range(0, 100)) : names::unknown(c.r, m.s);
  int form = (int) c.r.range(0, 2);
  Outcome o = observe([&]() { if (form == 0) t.Eval(unk, m.x[0], m.y[1]); else if (form == 1) t.Eval(unk, std::vector<double>{m.x[0], m.y[1]}); else t.Eval(unk, std::vector<std::vector<double>>{{m.x[0], m.y[1]}}); });
  CHECK(refused(o), "many-unknown-name-answered", "unknown name in a table of %zu series (form %d): %s", m.s.size(), form, oname(o));
  m.x = sorted_axis<double>(c.r, (int) m.x.size());
  t.SetX(m.x);
  for (int i = 0; i < 4; i++) {
    std::string nm = "late" + std::to_string(i);
    auto g = bil::grid_on(c.r, m.x, m.y);
    CHECK(t.AddData(nm, g.d), "many-late-add", "AddData to a large table");
    m.s[nm] = g;
  }
  audit(c, t, m, "many-late");
  c.obs(m.s.size() > 256 ? "op/hundreds-of-series" : "op/many-series");
}
}  // namespace mon
MON_MAIN
