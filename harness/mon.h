// Runtime-monitoring support shared by every harness in /verif/harness.
//
// A harness is a set of *sections*; a section is run for a number of *cases*. Each case gets its own
// PRNG seeded from (run seed, section name, case index), so one case can be replayed alone with
//   --only SECTION:INDEX.
// Monitors call CHECK(...) with a stable violation key; observations are counted with c.obs("label") and
// c.nontrivial(hash). Nothing here knows how the library is implemented: it only sees observable behaviour.
#ifndef VERIF_MON_H
#define VERIF_MON_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mon {

typedef long double LD;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t u64() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  /// integer in [a, b]
  long range(long a, long b) { return a + (long) (u64() % (uint64_t) (b - a + 1)); }
  double unit() { return (double) (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  int sign() { return (u64() & 1) ? 1 : -1; }
  /// log-uniform magnitude in [lo, hi] with random sign
  double logmag(double lo, double hi) { return sign() * std::exp(uni(std::log(lo), std::log(hi))); }
  double gauss() {
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  /// "interesting" value generator: small integers, dyadic, gaussian, decades
  double value() {
    switch (range(0, 5)) {
      case 0: return (double) range(-5, 5);
      case 1: return range(-40, 40) * 0.25;
      case 2: return gauss();
      case 3: return logmag(1e-3, 1e3);
      case 4: return uni(-1, 1);
      default: return logmag(1e-1, 1e1);
    }
  }
  template<class T> T &pick(std::vector<T> &v) { return v[range(0, (long) v.size() - 1)]; }
  template<class T> const T &pick(const std::vector<T> &v) { return v[range(0, (long) v.size() - 1)]; }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *b = (const unsigned char *) p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hstr(const std::string &s) { return hash_bytes(s.data(), s.size()); }
struct H {
  uint64_t h = 1469598103934665603ull;
  H &add(double v) { h = hash_bytes(&v, sizeof v, h); return *this; }
  H &add(const std::vector<double> &v) { for (double x : v) add(x); return *this; }
  H &add(const std::string &v) { h = hash_bytes(v.data(), v.size(), h); return *this; }
};

struct Crumb { char text[480]; };   // shared with the parent/runner: where the program was when it died

struct State {
  std::string prop, tier = "quick", out, only_section;
  uint64_t seed = 1;
  long only_case = -1;
  int shard = 0, nshards = 1;
  double scale = 1;
  unsigned long evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, unsigned long> counters;
  std::vector<std::string> samples;
  struct Viol { std::string key, detail, section; long idx; unsigned long count; };
  std::map<std::string, Viol> viols;
  Crumb *crumb = nullptr;
  std::string cur_section;
  long cur_case = 0;
};
inline State &st() { static State s; return s; }

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline std::string vs(const std::vector<double> &v, size_t max = 12) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < max; i++) s += fmt("%s%.17g", i ? "," : "", v[i]);
  if (v.size() > max) s += ",...";
  return s + "]";
}

struct Case {
  Rng r;
  long idx;
  explicit Case(uint64_t seed, long i) : r(seed), idx(i) {}
  void obs(const std::string &label, unsigned long n = 1) { st().counters[label] += n; }
  void nontrivial(uint64_t h) { if (st().distinct.size() < 4000000) st().distinct.insert(h); }
  void sample(const std::string &s) { if (st().samples.size() < 8) st().samples.push_back(s); }
};

/// One monitored evaluation. Returns the condition; records the violation (first detail per key) if it fails.
inline bool verdict(bool ok, const std::string &key, const std::function<std::string()> &detail) {
  State &s = st();
  s.evaluations++;
  if (!ok) {
    auto it = s.viols.find(key);
    if (it == s.viols.end()) s.viols[key] = {key, detail(), s.cur_section, s.cur_case, 1};
    else it->second.count++;
  }
  return ok;
}
#define CHECK(cond, key, ...) ::mon::verdict((cond), (key), [&]() -> std::string { return ::mon::fmt(__VA_ARGS__); })

inline void crumb(const std::string &t) {
  if (st().crumb) { strncpy(st().crumb->text, t.c_str(), sizeof(Crumb) - 1); }
}

// ---------------------------------------------------------------------------------------------------------------
// Refusal observation: run f in a forked child and classify the way it ended.
enum Outcome { RETURNED, THREW, EXITED, ABORTED, MEMERR, OTHER };
inline const char *oname(Outcome o) {
  static const char *n[] = {"returned", "threw", "exited", "aborted", "memory-error", "other"};
  return n[o];
}
/// MEMERR = a sanitizer report (exit code 99) or SIGSEGV/SIGBUS; the library "refuses" when it throws, exits or aborts.
inline Outcome observe(const std::function<void()> &f, double timeout_s = 60) {
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_WRONLY);
    char path[256];
    const char *sl = getenv("MON_SANLOG");
    int ef = dn;
    if (sl) { snprintf(path, sizeof path, "%s.%d", sl, (int) getpid()); ef = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
    dup2(dn, 1); dup2(ef, 2);
    alarm((unsigned) timeout_s);
    try { f(); } catch (...) { _exit(43); }
    _exit(42);
  }
  int stt = 0;
  waitpid(pid, &stt, 0);
  if (WIFEXITED(stt)) {
    int c = WEXITSTATUS(stt);
    if (c == 42) return RETURNED;
    if (c == 43) return THREW;
    if (c == 99) return MEMERR;
    return EXITED;
  }
  if (WIFSIGNALED(stt)) {
    if (WTERMSIG(stt) == SIGABRT) return ABORTED;
    if (WTERMSIG(stt) == SIGSEGV || WTERMSIG(stt) == SIGBUS || WTERMSIG(stt) == SIGILL || WTERMSIG(stt) == SIGTRAP) return MEMERR;
  }
  return OTHER;
}
inline bool refused(Outcome o) { return o == THREW || o == EXITED || o == ABORTED; }

/// Silences std::cout/std::cerr chatter of the library during a scope.
struct Quiet {
  std::streambuf *a, *b;
  std::ostringstream sink;
  Quiet() { a = std::cout.rdbuf(sink.rdbuf()); b = std::cerr.rdbuf(sink.rdbuf()); }
  ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};

// ---------------------------------------------------------------------------------------------------------------
struct Section { std::string name; long quick, thorough; std::function<void(Case &)> f; };
inline std::vector<Section> &sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char *n, long q, long t, std::function<void(Case &)> f) { sections().push_back({n, q, t, f}); } };
#define SECTION(name, quick, thorough) \
  static void sec_##name(::mon::Case &c); \
  static ::mon::Reg reg_##name(#name, quick, thorough, sec_##name); \
  static void sec_##name(::mon::Case &c)

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += (char) ch;
  }
  return o;
}

inline void write_report(bool complete) {
  State &s = st();
  if (s.out.empty()) return;
  std::ofstream f(s.out);
  f << "{\"complete\":" << (complete ? "true" : "false") << ",\"evaluations\":" << s.evaluations
    << ",\"distinct\":[";
  bool first = true;
  for (auto h : s.distinct) { f << (first ? "" : ",") << h; first = false; }
  f << "],\"counters\":{";
  first = true;
  for (auto &kv : s.counters) { f << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
  f << "},\"samples\":[";
  first = true;
  for (auto &x : s.samples) { f << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
  f << "],\"violations\":[";
  first = true;
  for (auto &kv : s.viols) {
    f << (first ? "" : ",") << "{\"key\":\"" << jesc(kv.second.key) << "\",\"detail\":\"" << jesc(kv.second.detail)
      << "\",\"section\":\"" << jesc(kv.second.section) << "\",\"case\":" << kv.second.idx << ",\"count\":" << kv.second.count << "}";
    first = false;
  }
  f << "]}\n";
}

inline int main_(int argc, char **argv) {
  State &s = st();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") s.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier") s.tier = next();
    else if (a == "--out") s.out = next();
    else if (a == "--scale") s.scale = atof(next().c_str());
    else if (a == "--shard") { std::string v = next(); sscanf(v.c_str(), "%d/%d", &s.shard, &s.nshards); }
    else if (a == "--only") {
      std::string v = next();
      auto p = v.find(':');
      s.only_section = v.substr(0, p);
      if (p != std::string::npos) s.only_case = atol(v.c_str() + p + 1);
    } else if (a == "--crumb") {
      int fd = open(next().c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, sizeof(Crumb)) == 0)
        s.crumb = (Crumb *) mmap(nullptr, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (s.crumb == MAP_FAILED) s.crumb = nullptr;
    }
  }
  for (auto &sec : sections()) {
    if (!s.only_section.empty() && s.only_section != sec.name) continue;
    long n = (long) ((s.tier == "thorough" ? sec.thorough : sec.quick) * s.scale);
    if (n < 1 && (s.tier == "thorough" ? sec.thorough : sec.quick) > 0) n = 1;
    s.cur_section = sec.name;
    long done = 0;
    for (long i = 0; i < n; i++) {
      if (s.only_case >= 0 ? i != s.only_case : (i % s.nshards) != s.shard) continue;
      s.cur_case = i;
      crumb(sec.name + ":" + std::to_string(i));
      Case c(hstr(sec.name) ^ (s.seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t) i * 0xD1B54A32D192ED03ull), i);
      c.r.u64();
      try {
        sec.f(c);
      } catch (std::exception &e) {
        verdict(false, "unexpected-exception/" + sec.name, [&]() { return std::string("exception: ") + e.what(); });
      } catch (...) {
        verdict(false, "unexpected-exception/" + sec.name, [&]() { return std::string("non-standard exception"); });
      }
      done++;
    }
    if (s.only_case >= 0 && done == 0 && n > 0 && s.only_case >= n) {  // replay of a case beyond this tier's range
      long i = s.only_case;
      s.cur_case = i;
      Case c(hstr(sec.name) ^ (s.seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t) i * 0xD1B54A32D192ED03ull), i);
      c.r.u64();
      sec.f(c);
    }
    s.counters["cases/" + sec.name] += done;
  }
  crumb("finished");
  write_report(true);
  for (auto &kv : s.viols)
    fprintf(stderr, "MONITOR %s x%lu at %s:%ld: %s\n", kv.first.c_str(), kv.second.count, kv.second.section.c_str(),
            kv.second.idx, kv.second.detail.c_str());
  fflush(stderr);
  _exit(s.viols.empty() ? 0 : 3);
}

// ---------------------------------------------------------------------------------------------------------------
// numeric helpers
inline LD labs_(LD x) { return x < 0 ? -x : x; }
template<class T> LD epsof() { return (LD) std::numeric_limits<T>::epsilon(); }
/// |a-b| <= tol, NaN never accepted
inline bool near(LD a, LD b, LD tol) { return labs_(a - b) <= tol; }
inline bool nearc(std::complex<double> a, std::complex<LD> b, LD tol) {
  return near(a.real(), b.real(), tol) && near(a.imag(), b.imag(), tol);
}
template<class T> T ulp_up(T x) { return std::nextafter(x, std::numeric_limits<T>::infinity()); }
template<class T> T ulp_down(T x) { return std::nextafter(x, -std::numeric_limits<T>::infinity()); }

/// Strictly increasing table of n abscissas, various shapes
template<class T = double>
std::vector<T> sorted_axis(Rng &r, int n, double spread = 10) {
  std::vector<T> x(n);
  int kind = (int) r.range(0, 7);
  double x0 = 0;
  switch (r.range(0, 5)) {
    case 0: x0 = 0; break;
    case 1: x0 = r.uni(-spread, spread); break;
    case 2: x0 = -r.uni(0, 2 * spread); break;
    case 3: x0 = (double) r.range(-6, 6); break;
    case 4: x0 = r.logmag(1, sizeof(T) == 4 ? 1e3 : 1e7); break;   // far from zero compared with the spacing
    default: x0 = r.logmag(1, 100); break;
  }
  double v = x0;
  double h = std::exp(r.uni(std::log(0.05), std::log(5.0)));
  for (int i = 0; i < n; i++) {
    x[i] = (T) v;
    switch (kind) {
      case 0: v += h; break;                                   // uniform
      case 1: v += h * r.uni(0.05, 2); break;                  // jittered
      case 2: v += r.range(1, 4); break;                       // integers
      case 3: v += h * std::exp(r.uni(-3, 3)); break;          // strongly non uniform
      case 4: v += h * (r.chance(0.15) ? (sizeof(T) == 4 ? 1e-3 : std::exp(r.uni(-20, -3))) : 1); break;  // some neighbours very close
      case 5: case 6: v += h; break;                           // almost uniform, see below
      default: v += 0.25 * r.range(1, 8); break;               // dyadic
    }
  }
  if (kind == 5 && n > 2) { int i = (int) r.range(1, n - 2); x[i] += (T) (h * r.uni(-0.9, 0.9)); }               // a single interior node displaced
  if (kind == 6 && n > 3) for (int i = 2; i < n - 1; i++) x[i] += (T) (h * r.uni(-0.45, 0.45));               // regular first step and total length
  if (r.chance(0.25)) { T s = (T) std::ldexp(1., (int) r.range(sizeof(T) == 4 ? -14 : -50, sizeof(T) == 4 ? 14 : 50)); for (auto &q : x) q *= s; }
  for (int i = 1; i < n; i++) if (!(x[i] > x[i - 1])) x[i] = ulp_up(ulp_up(x[i - 1]));
  return x;
}
/// A query in [x.front(), x.back()]: nodes, neighbours of nodes, mid-points, random
template<class T>
T query_in(Rng &r, const std::vector<T> &x, const char **kind = nullptr) {
  const char *k;
  T q;
  int n = (int) x.size();
  long sel = r.range(0, 9);
  if (sel == 0) { q = x[0]; k = "first-node"; }
  else if (sel == 1) { q = x[n - 1]; k = "last-node"; }
  else if (sel == 2) { q = x[r.range(0, n - 1)]; k = "node"; }
  else if (sel == 3) { q = ulp_up(x[r.range(0, n - 2)]); k = "node+ulp"; }
  else if (sel == 4) { q = ulp_down(x[r.range(1, n - 1)]); k = "node-ulp"; }
  else if (sel == 5) { int i = (int) r.range(0, n - 2); q = (T) (0.5 * ((double) x[i] + (double) x[i + 1])); k = "mid"; }
  else if (sel == 6) { q = (T) r.uni(x[0], x[1]); k = "first-cell"; }
  else if (sel == 7) { q = (T) r.uni(x[n - 2], x[n - 1]); k = "last-cell"; }
  else { q = (T) r.uni(x[0], x[n - 1]); k = "interior"; }
  if (q < x[0]) q = x[0];
  if (q > x[n - 1]) q = x[n - 1];
  if (kind) *kind = k;
  return q;
}

}  // namespace mon
using mon::Case;
using mon::Rng;
using mon::LD;
using mon::fmt;
// A harness compiled in parts (-DPART=1..n) keeps the sections of each part under IN_PART(k); main comes with part 1.
#ifndef PART
#define PART 0
#endif
#define IN_PART(k) (PART == 0 || PART == (k))
#if PART > 1
#define MON_MAIN
#else
#define MON_MAIN int main(int argc, char **argv) { return mon::main_(argc, argv); }
#endif
#endif
