// C29: mixed random programs over every component (objects in c29_objects*.h), watched by the sanitizers, an allocation balance
// and a comparison of runs over differently poisoned memory.
#include "c29_prog.h"
#if PART <= 1
#include "c29_prog.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define BALANCE 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define BALANCE 1
#endif
#endif
#include <malloc.h>
namespace mon {
static unsigned long op_count[64][4];
__attribute__((noinline)) static void scribble(int byte) {
  volatile char buf[200000];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char) byte;
}
/// one program: up to 7 live objects of any component, created, used, copied and destroyed in random order
__attribute__((noinline)) static Dig program(uint64_t seed, int steps, int focus) {
  Rng r(seed);
  Dig d;
  std::vector<std::pair<int, Obj *>> pool;
  pool.reserve(8);
  auto create = [&]() {
    int k = focus >= 0 && r.chance(0.7) ? focus : (int) r.range(0, (long) makers().size() - 1);
    pool.push_back({k, makers()[k].make(r)});
    op_count[k][0]++;
  };
  for (int s = 0; s < steps; s++) {
    long a = r.range(0, 9);
    if (pool.empty() || (a == 0 && pool.size() < 7)) { create(); continue; }
    size_t i = (size_t) r.range(0, (long) pool.size() - 1);
    int k = pool[i].first;
    if (a == 1) { delete pool[i].second; pool.erase(pool.begin() + i); op_count[k][3]++; }
    else if (a == 2 && pool.size() < 7) { Obj *o = pool[i].second->clone(r); if (o) { pool.push_back({k, o}); op_count[k][2]++; } }
    else if (a == 3) { pool[i].second->eval(r, d); op_count[k][1]++; }
    else { pool[i].second->step(r, d); op_count[k][1]++; }
  }
  while (!pool.empty()) { size_t i = (size_t) r.range(0, (long) pool.size() - 1); delete pool[i].second; pool.erase(pool.begin() + i); }
  return d;
}
static void poison(int which) {
#ifndef BALANCE
  mallopt(M_PERTURB, which ? 0xff : 0xa5);  // fresh memory reads as 0x00.. or 0x5a..
#endif
  scribble(which ? 0x00 : 0x5a);
}
static void watch(Case &c, int steps, int focus) {
  Quiet q;
  uint64_t seed = c.r.u64();
  for (auto &row : op_count) for (auto &x : row) x = 0;
  poison(0);
  Dig a = program(seed, steps, focus);
  q.sink.str("");
#ifdef BALANCE
  size_t before = __sanitizer_get_current_allocated_bytes();
#endif
  poison(1);
  Dig b = program(seed, steps, focus);
  q.sink.str("");
#ifdef BALANCE
  size_t after = __sanitizer_get_current_allocated_bytes();
  q.sink.str(std::string());
  CHECK(after <= before + 512 + q.sink.str().capacity(), std::string("allocation-balance") + (focus >= 0 ? std::string("/") + makers()[focus].name : ""),
        "%ld bytes still allocated after every object of the program was destroyed", (long) (after - before));
  c.obs("balance-audited");
#endif
  CHECK(a.h == b.h && a.n == b.n, std::string("depends-on-uninitialised-memory") + (focus >= 0 ? std::string("/") + makers()[focus].name : ""),
        "the same program gave other results over differently filled memory (%lu results)", a.n);
  c.obs("results", a.n);
  for (size_t k = 0; k < makers().size(); k++) {
    if (op_count[k][0]) c.obs(std::string("created/") + makers()[k].name, op_count[k][0]);
    if (op_count[k][1]) c.obs(std::string("used/") + makers()[k].name, op_count[k][1]);
    if (op_count[k][2]) c.obs(std::string("copied/") + makers()[k].name, op_count[k][2]);
    if (op_count[k][3]) c.obs(std::string("destroyed-early/") + makers()[k].name, op_count[k][3]);
  }
  c.nontrivial(a.h);
}
SECTION(mixed, 10000, 60000) { watch(c, (int) c.r.range(10, 60), -1); }
SECTION(focused, 16000, 80000) { watch(c, (int) c.r.range(8, 30), (int) (c.idx % (long) makers().size())); }
SECTION(refused, 1200, 6000) {
  auto &f = refusals()[c.idx % refusals().size()];
  uint64_t seed = c.r.u64();
  Outcome o = observe([&]() { Rng r(seed); f.call(r); });
  CHECK(o != MEMERR && o != OTHER, std::string("memory-error-in-refused-call/") + f.name, "outcome: %s", oname(o));
  c.obs(std::string("refused-call/") + f.name);
  c.nontrivial(H().add(f.name).add((double) seed).h);
}
#ifndef BALANCE
SECTION(poisoning, 8, 8) {  // the comparison is only meaningful while fresh memory really differs between the two runs
  if (getenv("MON_MEMCHECK")) { CHECK(true, "poisoning", "-"); return; }
  size_t n = (size_t) c.r.range(16, 4000);
  auto sum = [&](int w) { poison(w); char *p = (char *) malloc(n); volatile char *q = p; long s = 0; for (size_t i = 0; i < n; i++) s += q[i]; free(p); return s; };
  long x = sum(0), y = sum(1);
  if (x != y) c.obs("memory-poisoned-differently");
  CHECK(true, "poisoning", "-");
}
#endif
}  // namespace mon
#endif
#if IN_PART(1)
#include "c29_objects1.h"
#endif
#if IN_PART(2)
#include "c29_objects2.h"
#endif
#if PART == 3
#define MATPART 1
#include "c29_objects3.h"
#elif PART == 6
#define MATPART 2
#include "c29_objects3.h"
#elif PART == 7
#define MATPART 3
#include "c29_objects3.h"
#elif PART == 8
#define MATPART 4
#include "c29_objects3.h"
#elif PART == 9
#define MATPART 4
#define MATFIX6
#include "c29_objects3.h"
#endif
#if IN_PART(4)
#include "c29_objects4.h"
#endif
#if IN_PART(5)
#include "c29_objects5.h"
#endif
MON_MAIN
