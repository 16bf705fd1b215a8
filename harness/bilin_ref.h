#pragma once
#include "interp_ref.h"
namespace mon {
namespace bil {
template<class R> struct Grid { std::vector<R> x, y, d; };
template<class R> Grid<R> grid_on(Rng &r, const std::vector<R> &x, const std::vector<R> &y) { return {x, y, ref::ydata<R>(r, (int) (x.size() * y.size()))}; }
template<class R> Grid<R> grid(Rng &r) {
  int nx, ny;
  switch (r.range(0, 4)) {
    case 0: nx = 2; ny = (int) r.range(2, 12); break;
    case 1: ny = 2; nx = (int) r.range(2, 12); break;
    case 2: nx = ny = (int) r.range(2, 8); break;
    default: nx = (int) r.range(2, 14); ny = (int) r.range(2, 14);
  }
  if (r.chance(0.01)) { if (r.chance(0.5)) nx = (int) r.range(100, 800); else ny = (int) r.range(100, 800); }
  else if (r.chance(0.02)) nx = ny = (int) r.range(30, 90);
  auto x = mon::sorted_axis<R>(r, nx);
  auto y = r.chance(0.06) ? x : mon::sorted_axis<R>(r, ny);
  return grid_on(r, x, y);
}
struct V { LD v, tol; int i, j; };
template<class R> V cell(const Grid<R> &g, int i, int j, LD qx, LD qy) {
  size_t ny = g.y.size();
  LD x1 = g.x[i], x2 = g.x[i + 1], y1 = g.y[j], y2 = g.y[j + 1];
  LD a = g.d[ny * i + j], b = g.d[ny * i + j + 1], c = g.d[ny * (i + 1) + j], d = g.d[ny * (i + 1) + j + 1];
  LD s = (qx - x1) / (x2 - x1), t = (qy - y1) / (y2 - y1);
  LD v = a * (1 - s) * (1 - t) + b * (1 - s) * t + c * s * (1 - t) + d * s * t;
  LD m = fabsl(a) + fabsl(b) + fabsl(c) + fabsl(d);
  LD eps = mon::epsof<R>();
  LD tol = 16 * eps * m * (1 + (fabsl(x1) + fabsl(x2)) / (x2 - x1)) * (1 + (fabsl(y1) + fabsl(y2)) / (y2 - y1)) + (eps > 1e-10L ? 1e-34L : 1e-290L);
  return {v, tol, i, j};
}
template<class R> V eval(const Grid<R> &g, R qx, R qy) {
  int i = 0, j = 0;
  while (i < (int) g.x.size() - 2 && qx >= g.x[i + 1]) i++;
  while (j < (int) g.y.size() - 2 && qy >= g.y[j + 1]) j++;
  V v = cell(g, i, j, (LD) qx, (LD) qy);
  bool bx = i > 0 && qx == g.x[i], by = j > 0 && qy == g.y[j];
  if (bx) v.tol = std::max(v.tol, cell(g, i - 1, j, (LD) qx, (LD) qy).tol);
  if (by) v.tol = std::max(v.tol, cell(g, i, j - 1, (LD) qx, (LD) qy).tol);
  if (bx && by) v.tol = std::max(v.tol, cell(g, i - 1, j - 1, (LD) qx, (LD) qy).tol);
  return v;
}
}
}  // namespace bil
