// Long-double power sums in the mapped coordinates and the magnitude of their terms.
#pragma once
#include "series_ref.h"
namespace mon {
/// coefficients of T_n in powers, lambda[n][i]
inline const std::vector<std::vector<LD>> &lambda() {
  static const std::vector<std::vector<LD>> L = [] {
    std::vector<std::vector<LD>> l(32);
    l[0] = {1}; l[1] = {0, 1};
    for (int n = 2; n < 32; n++) { l[n].assign(n + 1, 0); for (int i = 0; i < n; i++) l[n][i + 1] += 2 * l[n - 1][i]; for (int i = 0; i < n - 1; i++) l[n][i] -= l[n - 2][i]; }
    return l;
  }();
  return L;
}
/// sum_i |lambda_ni| |u|^i (or its derivative): size of the terms of T_n written in powers
inline LD tabs(int n, LD u, bool der) {
  LD s = 0, au = std::max(labs_(u), (LD) 1e-300L);
  for (int i = der ? 1 : 0; i <= n; i++) s += labs_(lambda()[n][i]) * (der ? i * powl(au, i - 1) : powl(au, i));
  return s;
}
/// general access to power coefficients of any dimension
struct Pow {
  int dim; int n[3] = {0, 0, 0};
  std::vector<LD> b;  // (i*(n1+1)+j)*(n2+1)+k
  LD &at(int i, int j, int k) { return b[((size_t) i * (n[1] + 1) + j) * (n[2] + 1) + k]; }
  void load(const Series &s) {
    dim = s.dim;
    for (int a = 0; a < 3; a++) n[a] = a < dim ? s.n[a] : 0;
    b.assign((size_t) (n[0] + 1) * (n[1] + 1) * (n[2] + 1), 0);
    for (int i = 0; i <= n[0]; i++) for (int j = 0; j <= n[1]; j++) for (int k = 0; k <= n[2]; k++)
      at(i, j, k) = dim == 1 ? s.b1(i) : dim == 2 ? s.b2(i, j) : s.b3[k](i, j);
  }
  /// value (der=-1) or derivative in the mapped coordinate; mag = sum of absolute terms
  LD eval(const LD *u, int der, LD *mag) {
    std::vector<LD> w[3];
    for (int a = 0; a < 3; a++) {
      w[a].assign(n[a] + 1, 1);
      LD x = a < dim ? u[a] : 0, p = 1;
      for (int i = 0; i <= n[a]; i++) {
        if (a == der) { w[a][i] = i == 0 ? 0 : i * (i == 1 ? 1 : powl(x, i - 1)); }
        else { w[a][i] = p; p *= x; }
      }
    }
    LD s = 0, m = 0;
    for (int i = 0; i <= n[0]; i++) for (int j = 0; j <= n[1]; j++) for (int k = 0; k <= n[2]; k++) { LD t = at(i, j, k) * w[0][i] * w[1][j] * w[2][k]; s += t; m += labs_(t); }
    *mag = m;
    return s;
  }
};
/// random coefficients placed directly in the power arrays
inline void random_power(Rng &r, Series &s) {
  int mode = (int) r.range(0, 3);
  double amp = r.chance(0.4) ? std::pow(10., r.chance(0.5) ? r.uni(-6, 6) : r.uni(-100, 100)) : 1;
  auto v = [&]() { return mode == 0 && r.chance(0.7) ? 0. : amp * r.gauss(); };
  if (s.dim == 1) { s.b1 = VectorN<double>::Zero(s.n[0] + 1); for (int i = 0; i <= s.n[0]; i++) s.b1(i) = v(); }
  if (s.dim == 2) { s.b2 = MatrixMN<double>::Zero(s.n[0] + 1, s.n[1] + 1); for (int i = 0; i <= s.n[0]; i++) for (int j = 0; j <= s.n[1]; j++) s.b2(i, j) = v(); }
  if (s.dim == 3) {
    s.b3.assign(s.n[2] + 1, MatrixMN<double>::Zero(s.n[0] + 1, s.n[1] + 1));
    for (int k = 0; k <= s.n[2]; k++) for (int i = 0; i <= s.n[0]; i++) for (int j = 0; j <= s.n[1]; j++) s.b3[k](i, j) = v();
  }
}
/// error bound of evaluating a power sum with mapped coordinates known to a few eps*kappa
inline LD power_tol(Series &s, Pow &p, const LD *u, int der, LD mag) {
  LD N = 4, t;
  for (int a = 0; a < s.dim; a++) N += 2 * s.n[a] + 2;
  t = N * mag;
  LD one[3];
  for (int a = 0; a < 3; a++) one[a] = std::max(labs_(a < s.dim ? u[a] : 0), (LD) 1e-3L);
  // sensitivity to the mapped coordinates: second derivatives of the absolute sum, bounded by the degree times the absolute sum over |u|
  for (int a = 0; a < s.dim; a++) {
    LD m; Pow q = p; for (auto &x : q.b) x = labs_(x);
    LD v[3] = {one[0], one[1], one[2]};
    q.eval(v, der, &m);
    t += 4 * s.ax[a].kappa() * (s.n[a] + 1) * m / one[a];
  }
  return 4 * epsof<double>() * t + 1e-300L;
}
}
