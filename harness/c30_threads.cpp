// C30: concurrent evaluation of shared objects, and concurrent use of distinct objects, under ThreadSanitizer
#include "c29_prog.h"
#if PART <= 1
#include <atomic>
#include <sched.h>
#include <thread>
namespace mon {
struct Barrier { std::atomic<int> n{0}; void wait(int total) { n.fetch_add(1); while (n.load() < total) {} } };
static std::unique_ptr<Obj> prepared(Rng &r, int kind) {
  std::unique_ptr<Obj> o(makers()[kind].make(r));
  Dig d;
  int steps = (int) r.range(0, 6);
  for (int i = 0; i < steps; i++) o->step(r, d);
  for (int i = 0; i < 40 && !o->shareable(); i++) o->step(r, d);
  return o;
}
static Dig evaluate(const Obj &o, uint64_t seed, int n, bool yields) {
  Rng r(seed), y(seed ^ 77);
  Dig d;
  for (int i = 0; i < n; i++) { o.eval(r, d); if (yields && y.chance(0.3)) sched_yield(); }
  return d;
}
static Dig work(uint64_t seed, int kind, int n, bool yields) {
  Rng r(seed), y(seed ^ 77);
  Dig d;
  std::unique_ptr<Obj> o(makers()[kind].make(r));
  for (int i = 0; i < n; i++) {
    o->step(r, d);
    if (r.chance(0.15)) { std::unique_ptr<Obj> k(o->clone(r)); if (k) { k->eval(r, d); if (r.chance(0.5)) o = std::move(k); } }
    if (yields && y.chance(0.3)) sched_yield();
  }
  return d;
}
template<class F> std::vector<Dig> together(int nt, F f) {
  std::vector<Dig> out(nt);
  Barrier b;
  std::vector<std::thread> t;
  for (int i = 0; i < nt; i++) t.emplace_back([&, i]() { b.wait(nt); out[i] = f(i); });
  for (auto &x : t) x.join();
  return out;
}
SECTION(shared, 3600, 60000) {
  printing() = false;
  int kind = (int) ((c.idx * 7 + st().shard * 3) % (long) makers().size());
  auto o = prepared(c.r, kind);
  if (!o->shareable()) { c.obs("not-shareable"); return; }
  int nt = (int) c.r.range(2, 6), n = (int) c.r.range(1, 12);
  bool y = c.r.chance(0.5);
  std::vector<uint64_t> s(nt);
  for (auto &x : s) x = c.r.chance(0.3) && &x != &s[0] ? s[0] : c.r.u64();  // some threads ask the same questions
  const Obj &ref = *o;
  auto got = together(nt, [&](int i) { return evaluate(ref, s[i], n, y); });  // first touch of the object is concurrent
  for (int i = 0; i < nt; i++) {
    Dig w = evaluate(ref, s[i], n, false);
    CHECK(got[i].h == w.h && got[i].n == w.n, std::string("shared-results/") + makers()[kind].name, "thread %d of %d got other results than a single thread", i, nt);
    c.nontrivial(w.h);
  }
  c.obs(std::string("shared/") + makers()[kind].name);
  c.obs("threads", nt); c.obs("evaluations-in-threads", nt * n);
}
SECTION(distinct, 2400, 40000) {
  printing() = false;
  int nt = (int) c.r.range(2, 6), n = (int) c.r.range(1, 14);
  int kind = (int) ((c.idx * 11 + st().shard * 5) % (long) makers().size());
  bool same = c.r.chance(0.7), y = c.r.chance(0.5);
  std::vector<uint64_t> s(nt);
  std::vector<int> k(nt);
  for (int i = 0; i < nt; i++) { s[i] = c.r.u64(); k[i] = same ? kind : (int) c.r.range(0, (long) makers().size() - 1); }
  auto got = together(nt, [&](int i) { return work(s[i], k[i], n, y); });
  for (int i = 0; i < nt; i++) {
    Dig w = work(s[i], k[i], n, false);
    CHECK(got[i].h == w.h && got[i].n == w.n, std::string("distinct-results/") + makers()[k[i]].name, "a thread working on its own object got other results than alone");
    c.obs(std::string("own/") + makers()[k[i]].name);
    c.nontrivial(w.h);
  }
  c.obs("threads", nt);
}
}  // namespace mon
#endif
#if PART == 1
#include "c29_objects1.h"
#elif PART == 2
#include "c29_objects2.h"
#elif PART == 3
#define MATPART 1
#include "c29_objects3.h"
#elif PART == 4
#include "c29_objects4.h"
#elif PART == 5
#include "c29_objects5.h"
#elif PART == 6
#define MATPART 3
#include "c29_objects3.h"
#endif
MON_MAIN
