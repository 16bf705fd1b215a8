// C32: answers depend only on the arguments and on the object's own history, never on other objects, earlier evaluations or repetition.
#include "c29_prog.h"
#if PART <= 1
#define RECYCLE_MAIN
#include "recycle.h"
#include <ucontext.h>
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define FIBER_START(save, stack, size) __sanitizer_start_switch_fiber(save, stack, size)
#define FIBER_FINISH(save, stack, size) __sanitizer_finish_switch_fiber(save, stack, size)
#else
#define FIBER_START(save, stack, size)
#define FIBER_FINISH(save, stack, size)
#endif
namespace mon {
/// a computation that hands control back whenever one of its results is recorded
struct Fiber {
  std::function<void()> body;
  int twist;
  bool done = false;
  ucontext_t me, back;
  std::vector<char> stack;
  const void *back_stack = nullptr;
  size_t back_size = 0;
  void *fake_me = nullptr, *fake_back = nullptr;
  static Fiber *&running() { static Fiber *f = nullptr; return f; }
  static void entry() {
    Fiber *f = running();
    FIBER_FINISH(nullptr, &f->back_stack, &f->back_size);
    f->body();
    f->done = true;
    FIBER_START(nullptr, f->back_stack, f->back_size);
    swapcontext(&f->me, &f->back);
  }
  static void pause() {
    Fiber *f = running();
    FIBER_START(&f->fake_me, f->back_stack, f->back_size);
    swapcontext(&f->me, &f->back);
    FIBER_FINISH(f->fake_me, &f->back_stack, &f->back_size);
  }
  Fiber(std::function<void()> b, int t) : body(b), twist(t), stack(512 * 1024) {
    getcontext(&me);
    me.uc_stack.ss_sp = stack.data();
    me.uc_stack.ss_size = stack.size();
    me.uc_link = nullptr;
    makecontext(&me, entry, 0);
  }
  void resume() {
    running() = this;
    data_twist() = twist;
    on_digest() = pause;
    FIBER_START(&fake_back, stack.data(), stack.size());
    swapcontext(&back, &me);
    FIBER_FINISH(fake_back, nullptr, nullptr);
    on_digest() = nullptr;
    data_twist() = 0;
    running() = nullptr;
  }
};
/// one object's life as a resumable program; every step's results are digested separately
struct Life {
  Rng r;
  int kind;
  std::unique_ptr<Obj> o, spare;
  std::vector<uint64_t> trace;
  Life(uint64_t seed, int k) : r(seed), kind(k) {}
  void advance() {
    Dig d;
    if (!o) o.reset(makers()[kind].make(r));
    else if (r.chance(0.1)) { std::unique_ptr<Obj> k(o->clone(r)); if (k) { k->eval(r, d); if (r.chance(0.5)) { spare = std::move(o); o = std::move(k); } else spare = std::move(k); } }
    else if (r.chance(0.3)) o->eval(r, d);
    else o->step(r, d);
    if (spare && r.chance(0.5)) spare->eval(r, d);
    if (spare && r.chance(0.2)) spare.reset();
    trace.push_back(d.h ^ (d.n << 1));
  }
};
static std::vector<uint64_t> alone(uint64_t seed, int kind, int n) {
  Life l(seed, kind);
  for (int i = 0; i < n; i++) l.advance();
  return l.trace;
}
static int pick_kind(Case &c, int k) { return c.r.chance(0.6) ? k : (int) c.r.range(0, (long) makers().size() - 1); }
SECTION(interleaved, 9000, 90000) {
  Quiet q;
  int n = (int) makers().size(), others = (int) c.r.range(1, 4);
  std::vector<Life> lives;
  std::vector<int> left, kinds;
  std::vector<uint64_t> seeds;
  int main_kind = (int) (c.idx % n);
  for (int i = 0; i <= others; i++) { kinds.push_back(i ? pick_kind(c, main_kind) : main_kind); seeds.push_back(i && c.r.chance(0.2) ? seeds[0] ^ 1 : c.r.u64()); left.push_back((int) c.r.range(2, 14)); }
  std::vector<int> len = left;
  bool first_alone = c.r.chance(0.5);
  std::vector<std::vector<uint64_t>> ref(others + 1);
  if (first_alone) for (int i = 0; i <= others; i++) ref[i] = alone(seeds[i], kinds[i], len[i]);
  for (int i = 0; i <= others; i++) lives.emplace_back(seeds[i], kinds[i]);
  long total = 0;
  for (int x : left) total += x;
  while (total > 0) {
    int i = (int) c.r.range(0, others);
    if (!left[i]) continue;
    lives[i].advance();
    left[i]--;
    total--;
  }
  if (!first_alone) for (int i = 0; i <= others; i++) ref[i] = alone(seeds[i], kinds[i], len[i]);
  for (int i = 0; i <= others; i++) {
    int at = -1;
    for (int s = 0; s < len[i] && at < 0; s++) if (lives[i].trace[s] != ref[i][s]) at = s;
    CHECK(at < 0, std::string("interleaved/") + makers()[kinds[i]].name, "step %d of %d gave other results interleaved with %d other objects than alone", at, len[i], others);
    for (auto h : ref[i]) c.nontrivial(h);
    c.obs(std::string("interleaved/") + makers()[kinds[i]].name);
  }
  c.obs("steps", 1);
}
// lives asking the same questions of objects that hold other data, switching after every single result
SECTION(twins, 5000, 60000) {
  Quiet q;
  int n = (int) makers().size(), kind = (int) (c.idx % n), k = (int) c.r.range(2, 3), len = (int) c.r.range(2, 8);
  uint64_t seed = c.r.u64();
  std::vector<std::vector<uint64_t>> ref(k);
  bool first_alone = c.r.chance(0.5);
  auto refs = [&]() { for (int i = 0; i < k; i++) { data_twist() = i; ref[i] = alone(seed, kind, len); data_twist() = 0; } };
  if (first_alone) refs();
  std::vector<Life> lives;
  for (int i = 0; i < k; i++) lives.emplace_back(seed, kind);
  {
    std::vector<std::unique_ptr<Fiber>> f;
    for (int i = 0; i < k; i++) { Life *l = &lives[i]; f.emplace_back(new Fiber([l, len]() { for (int s = 0; s < len; s++) l->advance(); }, i)); }
    bool strict = c.r.chance(0.7);
    long switches = 0;
    for (int left = k, i = 0; left > 0; i = strict ? (i + 1) % k : (int) c.r.range(0, k - 1)) {
      if (f[i]->done) continue;
      f[i]->resume();
      switches++;
      if (f[i]->done) left--;
    }
    if (switches > 10) c.obs("twins-switched");
  }
  for (int i = 0; i < k; i++) { data_twist() = i; lives[i].o.reset(); lives[i].spare.reset(); data_twist() = 0; }
  if (!first_alone) refs();
  bool differ = false;
  for (int i = 0; i < k; i++) {
    int at = -1;
    for (int s = 0; s < len && at < 0; s++) if (lives[i].trace[s] != ref[i][s]) at = s;
    CHECK(at < 0, std::string("twins/") + makers()[kind].name, "step %d of %d gave other results while a twin holding other data was asked the same than alone", at, len);
    for (auto h : ref[i]) c.nontrivial(h);
    differ = differ || ref[i] != ref[0];
  }
  c.obs(std::string("twins/") + makers()[kind].name);
  if (differ) c.obs(std::string("twins-differ/") + makers()[kind].name);
}
// an object built where another one used to be, asked what that one was asked last
struct Stop {};
static int &stop_in() { static int n = 0; return n; }
static void stopper() { if (--stop_in() < 0) throw Stop(); }
SECTION(reincarnated, 9000, 90000) {
  Quiet q;
  int kind = (int) (c.idx % (long) makers().size()), steps = (int) c.r.range(0, c.r.chance(0.5) ? 2 : 9), stop = (int) c.r.range(1, 4);
  uint64_t seed = c.r.u64(), qseed = c.r.u64();
  auto life = [&](int twist, bool cut) {
    Dig junk, e;
    data_twist() = twist;
    {
      Rng r(seed), rq(qseed);
      std::unique_ptr<Obj> o(makers()[kind].make(r));
      for (int i = 0; i < steps; i++) o->step(r, junk);
      if (cut) { stop_in() = stop; on_digest() = stopper; }
      try { if (o->shareable()) o->eval(rq, e); else o->step(rq, e); } catch (const Stop &) { c.obs("cut-short"); }
      on_digest() = nullptr;
    }
    data_twist() = 0;
    return e.h ^ (e.n << 1) ^ (junk.h * 3 + junk.n);
  };
  bool cut = c.r.chance(0.6);
  uint64_t want0 = life(0, false), want = life(1, false), got, got0;
  unsigned long before = recycler().reused;
  {
    Recycling rec;
    life(0, cut);
    got = life(1, false);
    life(1, cut);
    got0 = life(0, false);
  }
  CHECK(got == want && got0 == want0, std::string("reincarnated/") + makers()[kind].name, "an object built at the address of a former one of the kind (%d steps, then asked the same) gives other results than elsewhere", steps);
  c.nontrivial(want);
  if (want != want0) c.obs(std::string("reincarnated-differ/") + makers()[kind].name);
  if (recycler().reused > before) c.obs("address-reused");
  c.obs(std::string("reincarnated/") + makers()[kind].name);
}
// the caller's containers may be altered in place and passed again
template<class F, class V> void reused(Case &c, const char *name, V v, F f) {
  V w = v;
  for (auto &x : w) x = x * 0.5 + 0.25;
  V elsewhere = w;
  const bool before = c.r.chance(0.5);
  auto want = f(elsewhere);
  const auto first = f(v);
  if (before) want = f(elsewhere);
  for (size_t i = 0; i < v.size(); i++) v[i] = w[i];
  const auto got = f(v), again = f(elsewhere);
  CHECK(got == want && again == want, std::string("reused-argument/") + name, "the container was altered in place and passed again: another result than for a fresh container of the same contents");
  c.nontrivial(H().add((double) v.size()).add((double) v.front()).add(name).h);
  c.obs(std::string("reused-argument/") + name);
}
SECTION(reused_arguments, 4000, 40000) {
  using namespace mathutils;
  int n = hsize(c.r, 2, 40);
  auto v = rvec<double>(c.r, n);
  double t = c.r.uni(-1.5, 1.5), s = c.r.uni(0.1, 2);
  auto x = sorted_axis(c.r, n);
  double q = query_in(c.r, x);
  switch (c.idx % 12) {
    case 0: reused(c, "Horner", v, [&](const std::vector<double> &a) { return Horner<double>(a, t); }); break;
    case 1: reused(c, "Horner_derivative", v, [&](const std::vector<double> &a) { return Horner_derivative<double>(a, t); }); break;
    case 2: reused(c, "Trapz", v, [&](const std::vector<double> &a) { return Trapz(a, s); }); break;
    case 3: reused(c, "Trapz-xy", v, [&](const std::vector<double> &a) { return Trapz(x, a); }); break;
    case 4: reused(c, "Sum", v, [&](const std::vector<double> &a) { return Sum(a); }); break;
    case 5: reused(c, "Add", v, [&](const std::vector<double> &a) { return Add(a, x); }); break;
    case 6: reused(c, "Sinc", v, [&](const std::vector<double> &a) { return Sinc(a); }); break;
    case 7: { boost::circular_buffer<double> b(v.begin(), v.end()); auto k = rvec<double>(c.r, n); reused(c, "NaiveConvolution", b, [&](const boost::circular_buffer<double> &a) { return NaiveConvolution<double>(k, a, s, true); }); break; }
    case 8: { FFT<double> f; if (n % 2) { n++; v.push_back(t); } reused(c, "FFT", v, [&](const std::vector<double> &a) { std::vector<std::complex<double>> o; f.fft(o, const_cast<std::vector<double> &>(a)); return o; }); break; }
    case 9: reused(c, "Interp1d", v, [&](const std::vector<double> &a) { Interp1dLinear<double, double> i; i.Initialize(std::make_shared<std::vector<double>>(x), std::make_shared<std::vector<double>>(a)); return i(q); }); break;
    case 10: reused(c, "LookupTable1D", v, [&](const std::vector<double> &a) { LookupTable1D<double, double> l(LINEAR); l.SetX(x); l.AddY("s", a); return l.Eval("s", q); }); break;
    default: reused(c, "Spline", v, [&](const std::vector<double> &a) { Spline<double, 1, 3> l(x, const_cast<std::vector<double> &>(a)); return l(q); }); break;
  }
}
SECTION(asked_again, 9000, 90000) {
  Quiet q;
  int kind = (int) (c.idx % (long) makers().size());
  std::unique_ptr<Obj> o(makers()[kind].make(c.r));
  Dig d;
  int steps = (int) c.r.range(0, 8);
  for (int i = 0; i < steps; i++) o->step(c.r, d);
  for (int i = 0; i < 40 && !o->shareable(); i++) o->step(c.r, d);
  if (!o->shareable()) { c.obs("never-evaluable"); return; }
  int m = (int) c.r.range(2, 10);
  std::vector<uint64_t> seeds(m), first(m);
  for (auto &s : seeds) s = c.r.u64();
  auto ask = [&](int i) { Rng r(seeds[i]); Dig e; o->eval(r, e); return e.h ^ (e.n << 1); };
  for (int i = 0; i < m; i++) first[i] = ask(i);
  // in any order, any number of times, with another object of the kind used in between
  std::unique_ptr<Obj> other(c.r.chance(0.5) ? makers()[kind].make(c.r) : nullptr);
  for (int k = 0; k < 2 * m; k++) {
    int i = (int) c.r.range(0, m - 1);
    if (other && c.r.chance(0.3)) other->step(c.r, d);
    CHECK(ask(i) == first[i], std::string("asked-again/") + makers()[kind].name, "the same evaluation gave another result when asked again (question %d of %d)", i, m);
  }
  for (auto h : first) c.nontrivial(h);
  c.obs(std::string("asked-again/") + makers()[kind].name);
  if (other) c.obs("other-used-in-between");
}
}  // namespace mon
#endif
#if IN_PART(1)
#include "c29_objects1.h"
#endif
#if IN_PART(2)
#include "c29_objects2.h"
#endif
#if PART == 3
#define MATPART 1
#include "c29_objects3.h"
#elif PART == 6
#define MATPART 2
#include "c29_objects3.h"
#elif PART == 7
#define MATPART 3
#include "c29_objects3.h"
#elif PART == 8
#define MATPART 4
#include "c29_objects3.h"
#elif PART == 9
#define MATPART 4
#define MATFIX6
#include "c29_objects3.h"
#endif
#if IN_PART(4)
#include "c29_objects4.h"
#endif
#if IN_PART(5)
#include "c29_objects5.h"
#endif
MON_MAIN
