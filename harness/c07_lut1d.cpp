// C07: histories over 1D lookup tables against a map model
#include "interp_ref.h"
#include "names_ref.h"
namespace mon {
using namespace mathutils;

template<class X, class Y> struct Model {
  INTERP_METHOD method;
  bool hasx = false;
  std::vector<X> x;
  struct S { std::vector<X> x; std::vector<Y> y; };
  std::map<std::string, S> s;
};

template<class X, class Y> ref::Val expected(const Model<X, Y> &m, const std::string &n, X q) {
  auto &s = m.s.at(n);
  X p = q;
  if (m.method == LINEAR_SATURATE) p = std::min(std::max(q, s.x.front()), s.x.back());
  return ref::eval(s.x, s.y, p);
}
template<class X, class Y> X query(Rng &r, const Model<X, Y> &m, const std::vector<X> &x) {
  if (m.method != LINEAR && r.chance(0.25)) { X span = x.back() - x.front(); return r.chance(0.5) ? (X) (x.back() + span * (X) r.uni(0.01, 2)) : (X) (x.front() - span * (X) r.uni(0.01, 2)); }
  return query_in(r, x);
}

template<class X, class Y> void audit(Case &c, const LookupTable1D<X, Y> &t, const Model<X, Y> &m, const std::string &after) {
  CHECK(t.GetNbSeries() == m.s.size(), "count/" + after, "%lu series reported, %zu stored", t.GetNbSeries(), m.s.size());
  if (m.hasx) {
    CHECK(t.GetX() == m.x, "GetX/" + after, "abscissas read back differ");
    CHECK(t.GetNbSample() == m.x.size(), "GetNbSample/" + after, "%lu samples reported, %zu set", t.GetNbSample(), m.x.size());
  }
  for (auto &kv : m.s) {
    CHECK(t.GetXmin(kv.first) == kv.second.x.front() && t.GetXmax(kv.first) == kv.second.x.back(), "bounds/" + after, "bounds of '%s': [%g,%g], expected [%g,%g]",
          kv.first.c_str(), (double) t.GetXmin(kv.first), (double) t.GetXmax(kv.first), (double) kv.second.x.front(), (double) kv.second.x.back());
    std::vector<X> qs;
    int nq = (int) c.r.range(1, 4);
    for (int k = 0; k < nq; k++) qs.push_back(query(c.r, m, kv.second.x));
    auto all = t.Eval(kv.first, qs);
    bool okv = all.size() == qs.size();
    for (int k = 0; k < nq; k++) {
      auto w = expected(m, kv.first, qs[k]);
      Y v = t.Eval(kv.first, qs[k]);
      CHECK(ref::ok(ref::cl(v), w), "value/" + after, "'%s' at %.17g = %s, expected (%.17Lg,%.17Lg) [%zu series]", kv.first.c_str(), (double) qs[k],
            ref::ys(v).c_str(), w.v.real(), w.v.imag(), m.s.size());
      okv = okv && ref::ok(ref::cl(all[k]), w);
      c.nontrivial(H().add((double) qs[k]).add((double) w.v.real()).add(kv.first).h);
    }
    CHECK(okv, "vector-value/" + after, "vector evaluation of '%s' wrong", kv.first.c_str());
  }
  // all series at once at one abscissa accepted by each of them
  if (!m.s.empty()) {
    X lo = m.s.begin()->second.x.front(), hi = m.s.begin()->second.x.back();
    for (auto &kv : m.s) { lo = std::max(lo, kv.second.x.front()); hi = std::min(hi, kv.second.x.back()); }
    if (m.method != LINEAR || lo <= hi) {
      X q = m.method != LINEAR ? (X) c.r.uni((double) lo - 3, (double) lo + 5) : c.r.chance(0.3) ? lo : c.r.chance(0.3) ? hi : (X) c.r.uni(lo, hi);
      if (m.method == LINEAR) q = std::min(std::max(q, lo), hi);
      auto map = t.template Eval<X, Y>(q);
      CHECK(map.size() == m.s.size(), "eval-all-size/" + after, "%zu values for %zu series", map.size(), m.s.size());
      for (auto &kv : m.s) {
        auto it = map.find(kv.first);
        auto w = expected(m, kv.first, q);
        CHECK(it != map.end() && ref::ok(ref::cl(it->second), w), "eval-all/" + after, "all-series evaluation at %.17g: '%s' wrong or missing", (double) q, kv.first.c_str());
      }
      c.obs("eval-all");
    }
  }
}

template<class X, class Y> void history(Case &c, const char *tn) {
  typedef LookupTable1D<X, Y> T;
  typedef Model<X, Y> M;
  Quiet quiet;
  const INTERP_METHOD methods[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
  std::vector<std::unique_ptr<T>> t;
  std::vector<M> m;
  auto fresh = [&]() { M mm; mm.method = methods[c.r.range(0, 2)]; t.emplace_back(new T(mm.method)); m.push_back(mm); };
  fresh();
  int steps = (int) c.r.range(4, 30);
  std::string trace;
  auto setx = [&](int k) {
    auto x = sorted_axis<X>(c.r, ref::tsize(c.r) > 39 ? 50 : (int) c.r.range(2, 20));
    if (m[k].x.size() > 2 && c.r.chance(0.4)) {  // same ends and number of samples as before, another spacing inside
      auto z = m[k].x;
      for (size_t i = 1; i + 1 < z.size(); i++) {
        X q = z[i] + (X) c.r.uni(-0.45, 0.45) * (std::min)(z[i] - z[i - 1], z[i + 1] - z[i]);
        if (q > z[i - 1] && q < z[i + 1]) z[i] = q;
      }
      bool inc = true;
      for (size_t i = 1; i < z.size(); i++) inc = inc && z[i] > z[i - 1];
      if (inc) { x = z; c.obs("SetX/same-ends"); }
    }
    t[k]->SetX(x); m[k].x = x; m[k].hasx = true;
  };
  for (int s = 0; s < steps; s++) {
    int k = (int) c.r.range(0, (long) t.size() - 1);
    std::string op;
    int sel = (int) c.r.range(0, 19);
    if (!m[k].hasx || sel == 0) { setx(k); op = m[k].s.empty() ? "SetX" : "SetX-after-AddY"; }
    else if (sel <= 9) {  // add (maybe duplicate)
      std::string n = names::any(c.r, m[k].s);
      if (n.find('\0') != std::string::npos) c.obs("name/embedded-nul");
      if (n.size() > 60) c.obs("name/long");
      if (m[k].x.empty()) { setx(k); }
      auto y = ref::ydata<Y>(c.r, (int) m[k].x.size());
      bool dup = m[k].s.count(n) > 0;
      bool r = t[k]->AddY(n, y);
      CHECK(r == !dup, dup ? "duplicate-accepted" : "addition-rejected", "AddY('%s') returned %d on a table %s it", n.c_str(), (int) r, dup ? "holding" : "not holding");
      if (!dup) m[k].s[n] = {m[k].x, y};
      op = dup ? "AddY-duplicate" : "AddY";
    } else if (sel == 10 && !m[k].s.empty()) {  // duplicate with data of another size: still just rejected
      std::string n = m[k].s.begin()->first;
      if (m[k].x.empty()) setx(k);
      bool r = t[k]->AddY(n, ref::ydata<Y>(c.r, (int) m[k].x.size()));
      CHECK(!r, "duplicate-accepted", "AddY('%s') accepted twice", n.c_str());
      op = "AddY-duplicate";
    } else if (sel == 11) {  // failing addition: nothing to build an interpolator from
      std::vector<X> keep = m[k].x;
      std::string n = names::any(c.r, m[k].s);
      if (!m[k].s.count(n)) {
        t[k]->SetX({}); m[k].x.clear();
        Outcome o = observe([&]() { t[k]->AddY(n, {}); });
        CHECK(refused(o), "empty-series-accepted", "AddY of an empty series on an empty abscissa: %s", oname(o));
        if (o == THREW) { try { t[k]->AddY(n, {}); } catch (...) {} }
        op = "AddY-failed";
        if (c.r.chance(0.7)) { t[k]->SetX(keep); m[k].x = keep; }
      }
    } else if (sel == 12 && m[k].x.size() > 1 && c.r.chance(0.3)) {  // wrong size: refused
      std::string n = "fresh" + std::to_string(s);
      int d = c.r.chance(0.5) ? 1 : -1;
      auto y = ref::ydata<Y>(c.r, (int) m[k].x.size() + d);
      Outcome o = observe([&]() { t[k]->AddY(n, y); });
      CHECK(refused(o), "size-mismatch-accepted", "series of %zu values over %zu abscissas: %s", y.size(), m[k].x.size(), oname(o));
      if (o == THREW) { try { t[k]->AddY(n, y); } catch (...) {} }
      op = "AddY-size-mismatch";
    } else if (sel == 13) {  // move construction
      t.emplace_back(new T(std::move(*t[k])));
      M mm = m[k];
      m.push_back(mm);
      t.erase(t.begin() + k); m.erase(m.begin() + k);
      k = (int) t.size() - 1;
      op = "move-construct";
    } else if (sel == 14 && t.size() > 1) {  // move assignment over a populated table
      int j = (k + 1) % (int) t.size();
      *t[j] = std::move(*t[k]);
      m[j] = m[k];
      t.erase(t.begin() + k); m.erase(m.begin() + k);
      if (j > k) j--;
      k = j;
      op = "move-assign";
    } else if (sel == 15) {  // move out and back in
      T tmp(std::move(*t[k]));
      if (c.r.chance(0.3)) { T tmp2(LINEAR); tmp2.SetX({0, 1}); tmp2.AddY("Cx", {Y(1), Y(2)}); tmp2 = std::move(tmp); *t[k] = std::move(tmp2); }
      else *t[k] = std::move(tmp);
      op = "move-round-trip";
    } else if (sel == 16 && t.size() < 4) { fresh(); k = (int) t.size() - 1; op = "new-table"; }
    else if (sel == 17 && c.r.chance(0.4)) {
      std::string n = names::unknown(c.r, m[k].s);
      int how = (int) c.r.range(0, 3);
      X q = m[k].s.empty() ? (m[k].x.empty() ? X(0) : m[k].x[0]) : m[k].s.begin()->second.x[0];
      Outcome o = observe([&]() {
        if (how == 0) t[k]->GetXmin(n);
        else if (how == 1) t[k]->GetXmax(n);
        else if (how == 2) t[k]->Eval(n, std::vector<X>{q});
        else t[k]->Eval(n, q);
      });
      CHECK(refused(o), "unknown-name-answered", "Eval of an unknown name: %s", oname(o));
      op = "unknown-name";
    } else op = "evaluate";
    if (op.empty()) op = "evaluate";
    c.obs("op/" + op);
    for (size_t i = 0; i < t.size(); i++) audit(c, *t[i], m[i], ((int) i == k ? op : "other-table") + "/" + tn);
  }
}
SECTION(dd, 2500, 60000) { history<double, double>(c, "double"); }
SECTION(dc, 1200, 30000) { history<double, std::complex<double>>(c, "complex"); }
SECTION(ff, 600, 15000) { history<float, float>(c, "float"); }

// many series: rehashing of the name map must not disturb the association
SECTION(many, 60, 600) {
  Quiet quiet;
  LookupTable1D<double, double> t(LINEAR);
  Model<double, double> m;
  m.method = LINEAR;
  m.x = sorted_axis<double>(c.r, 8);
  m.hasx = true;
  t.SetX(m.x);
  int n = c.idx % 4 ? (int) c.r.range(40, 200) : (int) c.r.range(300, 700);
  for (int i = 0; i < n; i++) {
    std::string nm = "s" + std::to_string(c.r.range(0, 2 * n));
    auto y = ref::ydata<double>(c.r, 8);
    bool dup = m.s.count(nm) > 0;
    CHECK(t.AddY(nm, y) == !dup, "many-add", "AddY('%s')", nm.c_str());
    if (!dup) m.s[nm] = {m.x, y};
  }
  audit(c, t, m, "many");
  std::string unk = c.r.chance(0.5) ? "s" + std::to_string(2 * n + 1 + c.r.range(0, 100)) : names::unknown(c.r, m.s);
  int form = (int) c.r.range(0, 3);
  Outcome o = observe([&]() { if (form == 0) t.Eval(unk, m.x[1]); else if (form == 1) t.Eval(unk, m.x); else if (form == 2) t.GetXmin(unk); else t.GetXmax(unk); });
  CHECK(refused(o), "many-unknown-name-answered", "unknown name '%s' in a table of %zu series (form %d): %s", unk.c_str(), m.s.size(), form, oname(o));
  LookupTable1D<double, double> u(LINEAR_SATURATE);
  u.SetX({0., 1.});
  u.AddY("s1", {5., 6.});
  u = std::move(t);
  m.x = sorted_axis<double>(c.r, (int) c.r.range(2, 12));
  u.SetX(m.x);
  for (int i = 0; i < 5; i++) {
    std::string nm = "late" + std::to_string(i);
    auto y = ref::ydata<double>(c.r, (int) m.x.size());
    CHECK(u.AddY(nm, y), "many-late-add", "AddY after a move of a large table");
    m.s[nm] = {m.x, y};
  }
  audit(c, u, m, "many-moved");
  c.obs(m.s.size() > 256 ? "op/hundreds-of-series" : "op/many-series");
}
}  // namespace mon
MON_MAIN
