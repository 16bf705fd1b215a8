// C13: linspace / logspace / arange
#include "mon.h"
#include "MathUtils/VectorGeneration.h"
namespace mon {
using namespace mathutils;

template<class R> void ends(Rng &r, R &a, R &b) {
  double big = std::is_same<R, float>::value ? 1e15 : 1e100;
  double tiny = std::is_same<R, float>::value ? 1e-30 : 1e-200;
  switch (r.range(0, 9)) {
    case 7: a = 0; b = (R) std::fabs(r.logmag(tiny, 1e-3)); break;                       // from zero, tiny
    case 8: a = (R) r.logmag(tiny, tiny * 1e6); b = (R) r.logmag(tiny, tiny * 1e6); break;
    case 9: a = (R) r.uni(-1, 1); b = std::nextafter(a, (R) 10); break;                      // neighbours
    case 0: a = (R) r.range(-5, 5); b = a + (R) r.range(0, 10); break;
    case 1: a = (R) r.value(); b = (R) r.value(); break;
    case 2: a = (R) r.logmag(1e-10, big); b = (R) r.logmag(1e-10, big); break;
    case 3: a = (R) r.value(); b = a + (R) (std::fabs((double) a) * r.uni(0, 1e-5)); break;
    case 4: a = (R) r.value(); b = a; break;
    case 5: a = (R) -r.uni(1, 100); b = 0; break;
    default: a = (R) r.uni(1e6, 1e7); b = a + (R) r.uni(1, 10); break;
  }
  if (b < a) std::swap(a, b);
}
static unsigned count(Rng &r) { switch (r.range(0, 7)) { case 0: return 2; case 1: return 3; case 2: return (unsigned) r.range(100, 5000); default: return (unsigned) r.range(2, 60); } }

template<class R> void lin(Case &c, const char *tn, unsigned n) {
  R a, b;
  ends(c.r, a, b);
  auto v = linspace<R>(a, b, n);
  std::string t = tn;
  CHECK(v.size() == n, "size/" + t, "linspace(%.17g,%.17g,%u) has %zu values", (double) a, (double) b, n, v.size());
  if (v.size() != n) return;
  CHECK(v.front() == a, "first/" + t, "linspace(%.17g,%.17g,%u) starts at %.17g", (double) a, (double) b, n, (double) v.front());
  CHECK(v.back() == b, "last/" + t, "linspace(%.17g,%.17g,%u) ends at %.17g", (double) a, (double) b, n, (double) v.back());
  bool mono = true, even = true;
  unsigned bad = 0;
  LD tol = 8 * epsof<R>() * (fabsl((LD) a) + fabsl((LD) b)) + (LD) std::numeric_limits<R>::denorm_min() * 4 * n;
  for (unsigned i = 0; i < n; i++) {
    if (i && v[i] < v[i - 1]) mono = false;
    LD e = (LD) a + ((LD) b - (LD) a) * i / (n - 1);
    if (!near(v[i], e, tol) && even) { even = false; bad = i; }
  }
  CHECK(mono, "monotone/" + t, "linspace(%.17g,%.17g,%u) decreases", (double) a, (double) b, n);
  CHECK(even, "even/" + t, "linspace(%.17g,%.17g,%u)[%u] = %.17g is not evenly spaced", (double) a, (double) b, n, bad, (double) v[bad]);
  c.nontrivial(H().add((double) a).add((double) b).add(n).h);
  c.obs(std::string("linspace/") + tn);
}
SECTION(lin_d, 20000, 400000) { lin<double>(c, "double", count(c.r)); }
SECTION(lin_f, 10000, 200000) { lin<float>(c, "float", count(c.r)); }
SECTION(lin_big, 40, 400) { lin<double>(c, "double-large", (unsigned) (c.idx % 4 ? c.r.range(20000, 100000) : c.r.range(100000, 600000))); c.obs(c.idx % 4 ? "large" : "very-large"); }

template<class R> void logs(Case &c, const char *tn) {
  R a = (R) c.r.uni(-6, 6), b = a + (R) c.r.uni(0, 6);
  if (c.r.chance(0.3)) { a = (R) c.r.range(-5, 3); b = a + (R) c.r.range(0, 5); }
  unsigned n = (unsigned) (c.r.chance(0.01) ? c.r.range(1000, 70000) : c.r.range(2, 60));
  const double bases[] = {10, 2, 2.718281828459045, 0.5, 3.7, 1.5, 16, 10, 1, 0.01, 1e3, 1.0009765625};
  int k = (int) c.r.range(0, 11);
  R base = k == 7 ? (R) 10 : (R) bases[k];
  auto v = k == 7 ? logspace<R>(a, b, n) : logspace<R>(a, b, n, base);
  CHECK(v.size() == n, std::string("log-size/") + tn, "logspace has %zu values for %u", v.size(), n);
  bool ok = v.size() == n;
  unsigned bad = 0;
  for (unsigned i = 0; ok && i < n; i++) {
    LD ex = (LD) a + ((LD) b - (LD) a) * i / (n - 1);
    LD e = powl((LD) base, ex);
    LD L = fabsl(logl((LD) base));
    if (!near(v[i], e, e * epsof<R>() * (16 + 16 * L * (fabsl((LD) a) + fabsl((LD) b))))) { ok = false; bad = i; }
  }
  CHECK(ok, std::string("log-value/") + tn, "logspace(%.17g,%.17g,%u,base %g)[%u] = %.17g", (double) a, (double) b, n, (double) base, bad, bad < v.size() ? (double) v[bad] : 0);
  c.nontrivial(H().add((double) a).add((double) b).add(n).add((double) base).h);
  if (base == 1) c.obs("logspace/base-one");
  c.obs(k == 7 ? "logspace/default-base" : "logspace/base");
}
SECTION(log_d, 6000, 100000) { logs<double>(c, "double"); }
SECTION(log_f, 3000, 50000) { logs<float>(c, "float"); }

template<class R> void ar(Case &c, const char *tn, bool many = false) {
  R a, st, stop;
  int kind = (int) c.r.range(0, 6);
  if (many) { a = (R) c.r.range(-20, 20); st = (R) c.r.uni(0.5, 2); stop = a + st * (R) c.r.range(30000, 300000); c.obs("arange/many"); }
  else if (kind >= 5) {  // the last value lies just below (kept) or just above (left out) stop
    a = kind == 5 ? (R) 0 : (R) c.r.range(-20, 20);
    st = (R) std::fabs(c.r.logmag(1e-3, 1e3));
    int k = (int) c.r.range(1, 40);
    stop = (R) ((LD) a + (LD) st * (k + c.r.sign() * (LD) std::pow(10., c.r.uni(std::is_same<R, float>::value ? -4 : -12, -2))));
    c.obs("arange/near-stop");
  }
  else if (kind == 0) { a = (R) c.r.range(-20, 20); st = (R) c.r.range(1, 5); stop = a + (R) c.r.range(1, 60); }
  else if (kind == 1) { a = (R) c.r.value(); st = (R) c.r.uni(0.01, 3); stop = a + st * (R) c.r.uni(0.2, 80); }
  else if (kind == 2) { a = (R) c.r.range(-20, 20); st = (R) 0.25; stop = a + st * (R) c.r.range(1, 200); }
  else if (kind == 3) { a = (R) c.r.value(); st = (R) c.r.uni(1, 3); stop = a + (R) c.r.uni(0.01, 0.9); }   // a single value
  else { a = 0; st = (R) 0.1; stop = (R) (0.1 * (double) c.r.range(1, 60)); }
  if (!(a < stop)) stop = a + 1;
  bool dflt = c.r.chance(0.2);
  if (dflt) st = 1;
  else if (c.r.chance(0.25)) {  // the same request at another scale
    R k = (R) std::ldexp(1., (int) c.r.range(-60, 60));
    a *= k; st *= k; stop *= k;
    c.obs("arange/scaled");
  }
  auto v = dflt ? arange<R>(a, stop) : arange<R>(a, stop, st);
  std::string t = tn;
  bool ok = !v.empty();
  unsigned bad = 0;
  for (unsigned i = 0; i < v.size(); i++) {
    LD e = (LD) a + (LD) i * (LD) st;
    LD tol = 8 * epsof<R>() * (fabsl((LD) a) + fabsl((LD) i * (LD) st) + fabsl((LD) stop));
    if (!near(v[i], e, tol)) { ok = false; bad = i; break; }
  }
  CHECK(ok, "arange-value/" + t, "arange(%.17g,%.17g,%.17g)[%u] = %.17g (of %zu)", (double) a, (double) stop, (double) st, bad, v.size() > bad ? (double) v[bad] : 0, v.size());
  if (!v.empty()) {
    bool below = true;
    for (R x : v) below = below && x < stop;
    CHECK(below, "arange-below/" + t, "arange(%.17g,%.17g,%.17g) reaches %.17g", (double) a, (double) stop, (double) st, (double) v.back());
    LD nextv = (LD) a + (LD) v.size() * (LD) st;
    LD tol = 16 * epsof<R>() * (fabsl((LD) a) + fabsl((LD) stop) + fabsl((LD) v.size() * (LD) st));
    CHECK(nextv >= (LD) stop - tol, "arange-complete/" + t, "arange(%.17g,%.17g,%.17g) stops after %zu values, the next one %.17Lg is below stop", (double) a, (double) stop,
          (double) st, v.size(), nextv);
    CHECK(v[0] == a, "arange-first/" + t, "arange starts at %.17g instead of %.17g", (double) v[0], (double) a);
  }
  c.nontrivial(H().add((double) a).add((double) stop).add((double) st).h);
  c.obs(dflt ? "arange/default-step" : kind == 1 ? "arange/non-dividing" : "arange/other");
  if (a != 0) c.obs("arange/non-zero-start");
}
SECTION(arange_d, 8000, 150000) { ar<double>(c, "double"); }
SECTION(arange_many, 24, 200) { if (c.idx % 2) ar<double>(c, "double", true); else ar<float>(c, "float", true); }
SECTION(arange_f, 4000, 80000) { ar<float>(c, "float"); }

SECTION(refuse, 180, 1200) {
  double a = c.r.value(), b = a + c.r.uni(0.1, 5);
  Outcome o;
  std::string what;
  switch (c.idx % 14) {
    case 0: what = "linspace-1"; o = observe([&]() { linspace<double>(a, b, 1); }); break;
    case 1: what = "linspace-0"; o = observe([&]() { linspace<double>(a, b, 0); }); break;
    case 2: what = "linspace-reversed"; o = observe([&]() { linspace<double>(b, a, (unsigned) c.r.range(2, 9)); }); break;
    case 3: what = "logspace-1"; o = observe([&]() { logspace<double>(a, b, 1); }); break;
    case 4: what = "logspace-reversed"; o = observe([&]() { logspace<double>(b, a, 5); }); break;
    case 5: what = "arange-reversed"; o = observe([&]() { arange<double>(b, a, 0.5); }); break;
    case 6: what = "arange-zero-step"; o = observe([&]() { arange<double>(a, b, 0.); }, 5); break;
    case 7: what = "arange-negative-step"; o = observe([&]() { arange<double>(a, b, -c.r.uni(0.1, 2)); }, 5); break;
    case 8: what = "linspace-slightly-reversed"; o = observe([&]() { linspace<double>(b, std::nextafter(b, b - 1), (unsigned) c.r.range(2, 9)); }); break;
    case 9: what = "arange-tiny-negative-step"; o = observe([&]() { arange<double>(a, b, -std::pow(10., -c.r.uni(3, 300))); }, 5); break;
    case 10: what = "logspace-slightly-reversed"; o = observe([&]() { logspace<double>(b, b - 1e-9, 5, 2.); }); break;
    case 11: what = "arange-slightly-reversed"; o = observe([&]() { arange<double>(b, b - 1e-9, 1.); }, 5); break;
    case 12: what = "logspace-0"; o = observe([&]() { logspace<double>(a, b, 0); }); break;
    default: what = "linspace-float-reversed"; o = observe([&]() { linspace<float>((float) b, (float) a, 3); });
  }
  CHECK(refused(o), "accepted/" + what, "%s: %s", what.c_str(), oname(o));
  c.obs("refused/" + what);
}
}  // namespace mon
MON_MAIN
