// C29/C30: type-erased objects of every component, driven by random programs.
#pragma once
#include "mon.h"
namespace mon {
/// digest of everything a program computed; NaNs of any payload count as one value
inline void (*&on_digest())() { static void (*f)() = nullptr; return f; }  // called between two calls of the library (C32)
struct Dig {
  uint64_t h = 1469598103934665603ull;
  unsigned long n = 0;
  void add(double v) { if (on_digest()) on_digest()(); if (v != v) v = 12345.678; if (v == 0) v = 0; h = hash_bytes(&v, sizeof v, h); n++; }
  void add(float v) { add((double) v); }
  void add(long v) { add((double) v); }
  void add(unsigned long v) { add((double) v); }
  void add(int v) { add((double) v); }
  void add(unsigned v) { add((double) v); }
  void add(bool v) { add(v ? 1. : 0.); }
  template<class T> void add(const std::complex<T> &z) { add((double) z.real()); add((double) z.imag()); }
  void add(const std::string &s) { h = hash_bytes(s.data(), s.size(), h); n++; }
  template<class T> void add(const std::vector<T> &v) { for (const auto &x : v) add(x); }
  template<class M> void mat(const M &m) { for (long j = 0; j < m.cols(); j++) for (long i = 0; i < m.rows(); i++) add(m(i, j)); }
};
inline bool &printing() { static bool p = true; return p; }  // streams are shared: off while threads run
struct Obj {
  virtual ~Obj() {}
  virtual void step(Rng &r, Dig &d) = 0;          ///< any operation
  virtual void eval(Rng &r, Dig &d) const {}      ///< const operations only (safe to run concurrently)
  virtual bool shareable() const { return false; }
  virtual Obj *clone(Rng &r) { return nullptr; }  ///< copy or move of the object under test
};
struct Maker { const char *name; std::function<Obj *(Rng &)> make; };
inline std::vector<Maker> &makers() { static std::vector<Maker> m; return m; }
struct MakerReg { MakerReg(const char *n, std::function<Obj *(Rng &)> f) { makers().push_back({n, f}); } };
struct Refusal { const char *name; std::function<void(Rng &)> call; };
inline std::vector<Refusal> &refusals() { static std::vector<Refusal> m; return m; }
struct RefusalReg { RefusalReg(const char *n, std::function<void(Rng &)> f) { refusals().push_back({n, f}); } };
#define OBJECT(name, type) static ::mon::MakerReg make_##type(name, [](Rng &r) -> ::mon::Obj * { return new type(r); });
#define REFUSAL(name) static void refusal_##name(Rng &r); static ::mon::RefusalReg rreg_##name(#name, refusal_##name); static void refusal_##name(Rng &r)
inline int hsize(Rng &r, int lo, int hi) { return r.chance(0.25) ? lo : r.chance(0.1) ? hi : (int) r.range(lo, hi); }
// two lives drawn from one seed can be told to hold different data: same sizes, axes and questions, other values
inline int &data_twist() { static thread_local int t = 0; return t; }
inline double twisted(double v) { return data_twist() ? v * (1 - 0.375 * data_twist()) + 0.5 * data_twist() : v; }
template<class T> std::vector<T> rvec(Rng &r, int n) { std::vector<T> v(n); for (auto &x : v) x = (T) twisted(r.value()); return v; }
template<> inline std::vector<std::complex<double>> rvec(Rng &r, int n) { std::vector<std::complex<double>> v(n); for (auto &x : v) { double a = twisted(r.value()); x = {a, r.value()}; } return v; }
}  // namespace mon
