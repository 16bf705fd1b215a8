// Reference piecewise-linear evaluation (long double) with a condition-aware tolerance.
#pragma once
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
namespace ref {
typedef std::complex<LD> CL;
inline CL cl(double v) { return CL(v, 0); }
inline CL cl(float v) { return CL(v, 0); }
inline CL cl(std::complex<double> v) { return CL(v.real(), v.imag()); }
inline CL cl(std::complex<float> v) { return CL(v.real(), v.imag()); }
template<class Y> struct realof { typedef Y type; };
template<class R> struct realof<std::complex<R>> { typedef R type; };

template<class Y> Y rndy(Rng &r, int kind, int i);
inline double rndr(Rng &r, int kind, int i) {
  switch (kind) {
    case 0: return r.value();
    case 1: return r.gauss();
    case 2: return (double) r.range(-9, 9);
    case 3: return r.logmag(1e-6, 1e6);
    case 4: return 3.0 * i + r.uni(0, 1);     // monotone
    case 5: return (i % 2 ? 1 : -1) * r.uni(0.5, 2);  // alternating
    default: return r.chance(0.7) ? 0 : r.gauss();
  }
}
template<> inline double rndy<double>(Rng &r, int k, int i) { return rndr(r, k, i); }
template<> inline float rndy<float>(Rng &r, int k, int i) { return (float) rndr(r, k, i); }
template<> inline std::complex<double> rndy<std::complex<double>>(Rng &r, int k, int i) { double a = rndr(r, k, i); return {a, rndr(r, k, i)}; }
template<> inline std::complex<float> rndy<std::complex<float>>(Rng &r, int k, int i) { double a = rndr(r, k, i); return {(float) a, (float) rndr(r, k, i)}; }
template<class Y> std::vector<Y> ydata(Rng &r, int n) {
  int k = (int) r.range(0, 6);
  std::vector<Y> y(n);
  typedef typename realof<Y>::type R;
  R amp = r.chance(0.25) ? (R) std::pow(10., r.uni(sizeof(R) == 4 ? -8 : -40, sizeof(R) == 4 ? 8 : 40)) : (R) 1;   // quantities of any order of magnitude
  for (int i = 0; i < n; i++) y[i] = rndy<Y>(r, k, i) * amp;
  return y;
}
struct Val { CL v; LD tol; int seg; };
/// value of segment s (joining sample s and s+1) at q
template<class X, class Y> Val segment(const std::vector<X> &x, const std::vector<Y> &y, int s, LD q) {
  LD a = x[s], b = x[s + 1];
  CL ya = cl(y[s]), yb = cl(y[s + 1]);
  LD t = (q - a) / (b - a);
  CL v = ya + (yb - ya) * t;
  LD eps = std::max(mon::epsof<X>(), mon::epsof<typename realof<Y>::type>());
  LD m = std::abs(ya) + std::abs(yb);
  LD tol = 16 * eps * m * (1 + (std::fabs(a) + std::fabs(b) + std::fabs(q)) / (b - a)) + 1e-300L;
  if (eps > 1e-10L) tol += 1e-37L;
  return {v, tol, s};
}
/// piecewise-linear value in range; outside: the end segments prolonged
template<class X, class Y> Val eval(const std::vector<X> &x, const std::vector<Y> &y, X q) {
  int n = (int) x.size();
  int s = 0;
  while (s < n - 2 && q >= x[s + 1]) s++;
  Val v = segment(x, y, s, (LD) q);
  if (s > 0 && q == x[s]) v.tol = std::max(v.tol, segment(x, y, s - 1, (LD) q).tol);  // a node belongs to both cells
  return v;
}
inline bool ok(CL got, const Val &w) { return mon::near(got.real(), w.v.real(), w.tol) && mon::near(got.imag(), w.v.imag(), w.tol); }
template<class Y> std::string ys(Y v) { CL z = cl(v); return mon::fmt("(%.17Lg,%.17Lg)", z.real(), z.imag()); }
template<class X> std::vector<double> dv(const std::vector<X> &x) { return std::vector<double>(x.begin(), x.end()); }
inline int tsize(Rng &r) {
  switch (r.range(0, 9)) {
    case 0: case 1: return 2;
    case 2: return 3;
    case 3: return (int) r.range(40, 300);
    default: return (int) r.range(4, 30);
  }
}
}
}  // namespace ref
