#pragma once
#include "mon.h"
#include "MathUtils/RegularGridInterpolator.h"
#include "MathUtils/RegularGridNearest.h"
namespace mon {
template<size_t N> using Idx = std::array<size_t, N>;
template<class R, size_t N> struct G {
  std::vector<std::vector<R>> ax;
  std::vector<R> f;  // C order
  size_t flat(const Idx<N> &i) const { size_t k = 0; for (size_t d = 0; d < N; d++) k = k * ax[d].size() + i[d]; return k; }
};
template<class R, size_t N> std::vector<std::vector<R>> axes(Rng &r, int minpts) {
  std::vector<std::vector<R>> a;
  int budget = N <= 2 ? 14 : N == 3 ? 8 : 5;
  const bool fine = r.chance(0.02);  // now and then one long axis
  for (size_t d = 0; d < N; d++) a.push_back(mon::sorted_axis<R>(r, r.chance(0.25) ? minpts : (int) r.range(std::max(minpts, 2), budget)));
  if (fine) { int n = N == 1 ? (int) r.range(2000, 70000) : N == 2 ? (int) r.range(200, 3000) : N == 3 ? (int) r.range(100, 400) : (int) r.range(20, 60); a[(size_t) r.range(0, (long) N - 1)] = mon::sorted_axis<R>(r, n); }
  // coincidences between axes: the same axis again, one that begins where another ends, the same size
  if (N > 1 && !fine && r.chance(0.2)) {
    size_t d = (size_t) r.range(1, (long) N - 1), e = (size_t) r.range(0, (long) d - 1);
    switch (r.range(0, 3)) {
      case 0: a[d] = a[e]; break;
      case 1: for (size_t k = 1; k < N; k++) a[k] = a[0]; break;
      case 2: { R by = r.chance(0.5) ? a[e].back() - a[d].front() : a[e].front() - a[d].back(); auto b = a[d]; for (auto &x : b) x += by; bool ok = true; for (size_t k = 1; k < b.size(); k++) ok = ok && b[k] > b[k - 1]; if (ok) a[d] = b; break; }
      default: a[d] = mon::sorted_axis<R>(r, (int) a[e].size());
    }
  }
  return a;
}
template<class R, size_t N> void fill(Rng &r, G<R, N> &g) {
  size_t n = 1;
  for (auto &a : g.ax) n *= a.size();
  g.f.resize(n);
  int k = (int) r.range(0, 3);
  double amp = r.chance(0.25) ? std::pow(10., r.uni(sizeof(R) == 4 ? -8 : -40, sizeof(R) == 4 ? 8 : 40)) : 1;
  for (size_t i = 0; i < n; i++) g.f[i] = (R) (amp * (k == 0 ? r.gauss() : k == 1 ? (double) i + 1 : k == 2 ? r.logmag(1e-4, 1e4) : (double) r.range(-9, 9)));
}
template<class R, size_t N> G<R, N> grid(Rng &r, int minpts = 2) { G<R, N> g; g.ax = axes<R, N>(r, minpts); fill(r, g); return g; }

template<class R, size_t N> Idx<N> unflat(const G<R, N> &g, size_t k) { Idx<N> i; for (size_t d = N; d-- > 0;) { i[d] = k % g.ax[d].size(); k /= g.ax[d].size(); } return i; }

/// the variable as a multi_array; storage order and index base are free choices of the caller of the library
template<class V, class R, size_t N> boost::multi_array<V, N> array_of(Rng &r, const G<R, N> &g, const std::vector<V> &f) {
  boost::array<size_t, N> sh;
  for (size_t d = 0; d < N; d++) sh[d] = g.ax[d].size();
  bool fort = r.chance(0.2);
  boost::multi_array<V, N> a = fort ? boost::multi_array<V, N>(sh, boost::fortran_storage_order()) : boost::multi_array<V, N>(sh);
  for (size_t k = 0; k < f.size(); k++) a(unflat(g, k)) = f[k];
  return a;
}
template<class R, size_t N> struct Val { LD v, tol; };
/// multilinear blend at p, clamped to the box
template<class R, size_t N> Val<R, N> eval(const G<R, N> &g, const std::array<R, N> &p) {
  Idx<N> c;
  LD t[N];
  for (size_t d = 0; d < N; d++) {
    auto &a = g.ax[d];
    if (a.size() == 1) { c[d] = 0; t[d] = 0; continue; }
    R q = std::min(std::max(p[d], a.front()), a.back());
    size_t i = 0;
    while (i + 2 < a.size() && q >= a[i + 1]) i++;
    c[d] = i;
    t[d] = ((LD) q - a[i]) / ((LD) a[i + 1] - a[i]);
  }
  LD v = 0, m = 0;
  for (unsigned k = 0; k < (1u << N); k++) {
    LD w = 1;
    Idx<N> i = c;
    for (size_t d = 0; d < N; d++) {
      bool up = (k >> d) & 1;
      w *= up ? t[d] : 1 - t[d];
      if (up && g.ax[d].size() > 1) i[d]++;
    }
    if (w != 0 || true) { v += w * (LD) g.f[g.flat(i)]; m += std::fabs((LD) g.f[g.flat(i)]); }
  }
  return {v, 32 * mon::epsof<R>() * m * N + (mon::epsof<R>() > 1e-10L ? 1e-34L : 1e-290L)};
}
}  // namespace grd
