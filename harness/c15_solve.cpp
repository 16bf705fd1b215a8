// C15: solvers, inverses, pseudo-inverse, least squares, constrained least squares, eigenvalues
#include "mat_ref.h"
namespace mon {
using namespace mathutils;

static double kappa_of(Rng &r, double maxlog) { return std::pow(10., r.chance(0.4) ? r.uni(0, 1.5) : r.uni(0, maxlog)); }
template<class S> double scale_of(Rng &r) { double m = std::is_same<S, float>::value ? 8 : 14; return r.chance(0.5) ? 1 : std::pow(10., r.uni(-m, m)); }
template<class S> std::string tag();
template<> inline std::string tag<double>() { return "double"; }
template<> inline std::string tag<float>() { return "float"; }
template<> inline std::string tag<std::complex<double>>() { return "complex"; }

template<class S> uint64_t hm(const Dyn<S> &A) { return hash_bytes(A.data(), A.size() * sizeof(S)); }

/// residual of a solution of a square system, backward-error scaled
template<class S> void residual(Case &c, const Dyn<S> &A, const Dyn<S> &X, const Dyn<S> &B, const std::string &key, double kappa) {
  bool shape = X.rows() == A.cols() && X.cols() == B.cols();
  CHECK(shape, key + "-shape", "solution %dx%d", (int) X.rows(), (int) X.cols());
  if (!shape) return;
  for (int j = 0; j < B.cols(); j++) {
    LD res = nrm((A * X.col(j) - B.col(j)).eval()), bound = 300 * A.rows() * eps<S>() * (nrm(A) * nrm(X.col(j)) + nrm(B.col(j)));
    CHECK(res <= bound, key, "|Ax-b| = %Lg > %Lg for rhs %d of %d, kappa %g, A = %s", res, bound, j, (int) B.cols(), kappa, msr<S>(A).c_str());
  }
}
template<class S> Dyn<S> rhs(Rng &r, int m, int k) {
  Dyn<S> B = gaussian<S>(r, m, k);
  for (int j = 0; j < k; j++) B.col(j) *= (Re<S>) std::pow(10., r.uni(-4, 4));
  if (r.chance(0.2)) B.col(r.range(0, k - 1)).setZero();
  return B;
}
template<class S> Dyn<S> square(Case &c, int n, double kappa) {
  Dyn<S> A = conditioned<S>(c.r, n, n, kappa, scale_of<S>(c.r));
  if (c.r.chance(0.15)) {  // pivoting needed: scaled permutation with a perturbation
    Dyn<S> P = Dyn<S>::Zero(n, n);
    int sh = (int) c.r.range(0, n - 1);
    for (int i = 0; i < n; i++) P((i + sh) % n, i) = S((Re<S>) (c.r.sign() * c.r.uni(0.5, 2)));
    c.obs("matrix/permutation-like");
    return P;
  }
  if (c.r.chance(0.2)) {  // structure a shortcut could look for; diagonally dominant, so well conditioned
    Dyn<S> G = gaussian<S>(c.r, n, n);
    int kind = (int) c.r.range(0, 5);
    for (int j = 0; j < n; j++)
      for (int i = 0; i < n; i++) {
        S v = i == j ? S((Re<S>) (c.r.sign() * c.r.uni(2, 4))) : G(i, j) * S((Re<S>) (0.4 / n));
        if (i != j) switch (kind) {
          case 0: v = S(0); break;                                              // diagonal
          case 1: if (i > j) v = S(0); break;                                   // upper triangular
          case 2: if (i < j) v = S(0); break;                                   // lower triangular
          case 3: v = G(std::min(i, j), std::max(i, j)) * S((Re<S>) (0.4 / n)); break;   // symmetric
          case 4: if (i >= n / 2 && j < n / 2) v = S(0); break;                 // block triangular
          default: if ((i < n / 2) != (j < n / 2)) v = S(0);                    // block diagonal
        }
        A(i, j) = v;
      }
    A *= (Re<S>) scale_of<S>(c.r);
    c.obs("matrix/structured");
  }
  return A;
}
template<class S> void inverse_check(Case &c, const Dyn<S> &A, const Dyn<S> &X, const std::string &key, double kappa) {
  int n = (int) A.rows();
  bool shape = X.rows() == n && X.cols() == n;
  CHECK(shape, key + "-shape", "shape");
  if (!shape) return;
  // closed forms for small sizes are only conditionally stable: allow kappa^2 there
  LD k = nrm(A) * nrm(X), tol = 300 * n * eps<S>() * (n <= 4 ? k * k : k);
  LD e = nrm((A * X - Dyn<S>::Identity(n, n)).eval()), e2 = nrm((X * A - Dyn<S>::Identity(n, n)).eval());
  CHECK(std::isfinite((double) k) && k <= 50 * n * kappa, key + "-norm", "|A||inv A| = %Lg but the condition number is %g", k, kappa);
  CHECK(e <= tol && e2 <= tol, key, "|A inv(A) - I| = %Lg, |inv(A) A - I| = %Lg (tol %Lg) A = %s", e, e2, tol, msr<S>(A).c_str());
}
#if IN_PART(1) || IN_PART(2)
template<class S> void mn_square(Case &c) {
  int n = (int) c.r.range(1, c.r.chance(0.1) ? (c.r.chance(0.05) ? 90 : 40) : 12), k = (int) c.r.range(1, c.r.chance(0.1) ? 24 : 5);
  double kap = kappa_of(c.r, sizeof(Re<S>) == 4 ? 3 : 8);
  Dyn<S> A = square<S>(c, n, kap), B = rhs<S>(c.r, n, k);
  const MatrixMN<S> M = A, b = B;
  c.nontrivial(hm(A));
  residual<S>(c, A, Dyn<S>(M.LUSolver(b)), B, "lu-solve/MN-" + tag<S>(), kap);
  residual<S>(c, A, Dyn<S>(M.QRSolver(b)), B, "qr-solve/MN-" + tag<S>(), kap);
  Dyn<S> A2 = square<S>(c, n, n <= 4 ? std::pow(10., c.r.uni(0, 2)) : kap);
  double k2 = n <= 4 ? 100 : std::max(kap, 4.);
  const MatrixMN<S> M2 = A2;
  inverse_check<S>(c, A2, Dyn<S>(M2.GetInverse()), "inverse-copy/MN-" + tag<S>(), k2);
  CHECK((M2.array() == A2.array()).all(), "inverse-copy-input/MN-" + tag<S>(), "GetInverse modified the matrix");
  MatrixMN<S> M3 = A2;
  M3.Inverse();
  inverse_check<S>(c, A2, Dyn<S>(M3), "inverse-in-place/MN-" + tag<S>(), k2);
  c.obs("square/" + tag<S>());
  if (n == 1) c.obs("square/1x1");
  if (n > 16) c.obs("square/large");
  if (k > 1) c.obs("multi-rhs");
}
#endif
#if IN_PART(1)
SECTION(mn_square_double, 3000, 60000) { mn_square<double>(c); }
SECTION(mn_square_float, 600, 10000) { mn_square<float>(c); }
#endif
#if IN_PART(2)
SECTION(mn_square_complex, 1500, 30000) { mn_square<std::complex<double>>(c); }
#endif

#if IN_PART(3) || IN_PART(4)
template<template<class> class MT, int N> void fixed_square(Case &c, const std::string &nm) {
  double kap = kappa_of(c.r, 8);
  Dyn<double> A = square<double>(c, N, kap);
  const MT<double> M = A;
  c.nontrivial(hm(A));
  int k = (int) c.r.range(1, c.r.chance(0.1) ? 24 : 5);
  Dyn<double> B = rhs<double>(c.r, N, k);
  Eigen::MatrixXd b = B;
  residual<double>(c, A, Dyn<double>(M.LUSolver(b)), B, "lu-solve/" + nm, kap);
  residual<double>(c, A, Dyn<double>(M.QRSolver(b)), B, "qr-solve/" + nm, kap);
  Dyn<double> B1 = rhs<double>(c.r, N, N);
  const MT<double> b1 = B1;
  residual<double>(c, A, Dyn<double>(M.LUSolver(b1)), B1, "lu-solve-matrix/" + nm, kap);
  residual<double>(c, A, Dyn<double>(M.QRSolver(b1)), B1, "qr-solve-matrix/" + nm, kap);
  Dyn<double> B2 = rhs<double>(c.r, N, 1);
  const Eigen::Matrix<double, N, 1> b2 = B2;
  residual<double>(c, A, Dyn<double>(M.LUSolver(b2)), B2, "lu-solve-vector/" + nm, kap);
  residual<double>(c, A, Dyn<double>(M.QRSolver(b2)), B2, "qr-solve-vector/" + nm, kap);
  double k2 = N <= 4 ? std::pow(10., c.r.uni(0, 2)) : kap;
  Dyn<double> A2 = square<double>(c, N, k2);
  const MT<double> M2 = A2;
  inverse_check<double>(c, A2, Dyn<double>(M2.GetInverse()), "inverse-copy/" + nm, std::max(k2, 4.));
  CHECK((M2.array() == A2.array()).all(), "inverse-copy-input/" + nm, "GetInverse modified the matrix");
  MT<double> M3 = A2;
  M3.Inverse();
  inverse_check<double>(c, A2, Dyn<double>(M3), "inverse-in-place/" + nm, std::max(k2, 4.));
  c.obs("square/" + nm);
}
#endif
#if IN_PART(3)
SECTION(m33_square, 2000, 40000) { fixed_square<Matrix33, 3>(c, "33"); }
#endif
#if IN_PART(4)
SECTION(m66_square, 2000, 40000) { fixed_square<Matrix66, 6>(c, "66"); }
#endif

// -------------------------------------------------------------------------------------------------- pseudo-inverse
#if IN_PART(5)
/// m x n matrix of rank k with singular values in [lo, hi], and its pseudo-inverse
static void ranked(Rng &r, int m, int n, int k, double lo, double hi, Dyn<double> &A, Dyn<double> &X) {
  Dyn<double> U = orth<double>(r, m), V = orth<double>(r, n);
  A = Dyn<double>::Zero(m, n);
  X = Dyn<double>::Zero(n, m);
  for (int i = 0; i < k; i++) {
    double s = lo * std::pow(hi / lo, r.unit());
    A += s * U.col(i) * V.col(i).transpose();
    X += (1 / s) * V.col(i) * U.col(i).transpose();
  }
}
static void mp(Case &c, const Dyn<double> &A, const Dyn<double> &X, const Dyn<double> &ref, const std::string &key, int k) {
  bool shape = X.rows() == A.cols() && X.cols() == A.rows();
  CHECK(shape, key + "-shape", "pseudo-inverse %dx%d of a %dx%d matrix", (int) X.rows(), (int) X.cols(), (int) A.rows(), (int) A.cols());
  if (!shape) return;
  LD a = nrm(A), x = nrm(ref), kap = std::max<LD>(a * x, 1), t = 200 * (A.rows() + A.cols()) * epsof<double>() * kap;
  std::string d = fmt("rank %d, |A||X| = %Lg, A = %s", k, kap, msr<double>(A).c_str());
  LD e0 = nrm(X - ref), e1 = nrm((A * X * A - A).eval()), e2 = nrm((X * A * X - X).eval()), e3 = nrm((A * X - (A * X).transpose()).eval()), e4 = nrm((X * A - (X * A).transpose()).eval());
  CHECK(e1 <= t * kap * a, key + "-AXA", "|AXA-A| = %Lg, %s", e1, d.c_str());
  CHECK(e2 <= t * kap * x, key + "-XAX", "|XAX-X| = %Lg, %s", e2, d.c_str());
  CHECK(e3 <= t * kap, key + "-AX-symmetric", "AX not symmetric by %Lg, %s", e3, d.c_str());
  CHECK(e4 <= t * kap, key + "-XA-symmetric", "XA not symmetric by %Lg, %s", e4, d.c_str());
  CHECK(e0 <= t * x, key, "|X - pinv(A)| = %Lg of %Lg, %s", e0, x, d.c_str());
}
template<class M> void pinv_case(Case &c, int m, int n, const std::string &nm) {
  if (c.r.chance(0.04)) {  // every singular value is zero, hence not above the smallest tolerance
    const M Zm = Dyn<double>::Zero(m, n);
    Dyn<double> Z0 = Dyn<double>::Zero(n, m);
    for (int i = 0; i < 4; i++) {
      Dyn<double> Z = i == 0 ? Dyn<double>(Zm.GetPseudoInverse(0.)) : i == 1 ? Dyn<double>(Pinv(Zm, 0.)) : i == 2 ? Dyn<double>(Zm.GetPseudoInverse()) : Dyn<double>(Pinv(Zm));
      CHECK(Z.rows() == n && Z.cols() == m && (Z.array() == 0.).all(), "pinv-zero/" + nm, "the pseudo-inverse of the null %dx%d matrix is not null", m, n);
    }
    c.obs("pinv/null-matrix");
  }
  if (c.r.chance(0.05)) {  // every singular value is below the tolerance
    Dyn<double> B, Y;
    double s = std::pow(10., c.r.uni(-6, 6));
    ranked(c.r, m, n, (int) c.r.range(1, std::min(m, n)), s * 0.1, s, B, Y);
    const M Bm = B;
    double big = s * 20 * std::pow(10., c.r.uni(0, 4)) * std::max(m, n);
    for (int i = 0; i < 2; i++) {
      Dyn<double> Z = i == 0 ? Dyn<double>(Bm.GetPseudoInverse(big)) : Dyn<double>(Pinv(Bm, big));
      CHECK(Z.rows() == n && Z.cols() == m && (Z.array() == 0.).all(), "pinv-all-below/" + nm, "no singular value of the %dx%d matrix is above the tolerance %g, yet its pseudo-inverse is not null", m, n, big);
    }
    c.obs("pinv/all-below-tolerance");
  }
  int k = (int) c.r.range(c.r.chance(0.1) ? 0 : 1, std::min(m, n));
  if (c.r.chance(0.3)) k = std::min(m, n);
  double w = c.r.chance(0.5) ? 1 : 2;
  Dyn<double> A, X;
  if (c.r.chance(0.5)) {  // default tolerance
    ranked(c.r, m, n, k, std::pow(10., -w), std::pow(10., w), A, X);
    const M Am = A;
    mp(c, A, Dyn<double>(Am.GetPseudoInverse()), X, "pinv/" + nm, k);
    mp(c, A, Dyn<double>(Pinv(Am)), X, "Pinv/" + nm, k);
    CHECK((Am.array() == A.array()).all(), "pinv-input/" + nm, "matrix modified");
    c.obs("pinv/default-tol");
  } else {  // explicit tolerance, any scale
    double s = std::pow(10., c.r.uni(-9, 9));
    ranked(c.r, m, n, k, s * std::pow(10., -w), s * std::pow(10., w), A, X);
    double tol = s * std::pow(10., -w) * std::pow(10., c.r.uni(-5, -1));
    const M Am = A;
    mp(c, A, Dyn<double>(Am.GetPseudoInverse(tol)), X, "pinv-tol/" + nm, k);
    mp(c, A, Dyn<double>(Pinv(Am, tol)), X, "Pinv-tol/" + nm, k);
    c.obs("pinv/explicit-tol");
  }
  c.nontrivial(hm(A));
  c.obs(k < std::min(m, n) ? "pinv/rank-deficient" : "pinv/full-rank");
  if (m > n) c.obs("pinv/tall");
  if (m < n) c.obs("pinv/wide");
  c.obs("pinv/" + nm);
}
SECTION(pinv_mn, 2000, 40000) { const int top = c.r.chance(0.03) ? 40 : 10, m = (int) c.r.range(1, top), n = (int) c.r.range(1, top); pinv_case<MatrixMN<double>>(c, m, n, "MN"); }
SECTION(pinv_33, 1000, 20000) { pinv_case<Matrix33<double>>(c, 3, 3, "33"); }
SECTION(pinv_66, 1000, 20000) { pinv_case<Matrix66<double>>(c, 6, 6, "66"); }
#endif

// -------------------------------------------------------------------------------------------------- least squares
/// A with well separated singular values on a random subset of rows and columns, exact zeros elsewhere (so that its rank is unambiguous)
template<class S> Dyn<S> ls_matrix(Case &c, int m, int n, double kap, Dyn<S> &N) {
  int mm = m, nn = n;
  if (c.r.chance(0.3)) { nn = (int) c.r.range(1, n); mm = (int) c.r.range(1, m); }
  Dyn<S> B = conditioned<S>(c.r, mm, nn, kap, scale_of<S>(c.r));
  std::vector<int> ri(m), ci(n);
  for (int i = 0; i < m; i++) ri[i] = i;
  for (int i = 0; i < n; i++) ci[i] = i;
  for (int i = m - 1; i > 0; i--) std::swap(ri[i], ri[c.r.range(0, i)]);
  for (int i = n - 1; i > 0; i--) std::swap(ci[i], ci[c.r.range(0, i)]);
  Dyn<S> A = Dyn<S>::Zero(m, n);
  for (int i = 0; i < mm; i++) for (int j = 0; j < nn; j++) A(ri[i], ci[j]) = B(i, j);
  // null space basis of A (from an independent factorisation)
  Eigen::HouseholderQR<Dyn<S>> q(B.adjoint().eval());
  int k = std::min(mm, nn);
  Dyn<S> Q = q.householderQ() * Dyn<S>::Identity(nn, nn);
  N = Dyn<S>::Zero(n, n - k);
  int col = 0;
  for (int j = k; j < nn; j++, col++) for (int i = 0; i < nn; i++) N(ci[i], col) = Q(i, j);
  for (int j = nn; j < n; j++, col++) N(ci[j], col) = S(1);
  c.obs(nn < n || mm < m ? "ls/rank-deficient" : m > n ? "ls/tall" : m < n ? "ls/wide" : "ls/square");
  return A;
}
template<class S> void ls_check(Case &c, const Dyn<S> &A, const Dyn<S> &N, const Dyn<S> &X, const Dyn<S> &B, const std::string &key, double kap) {
  bool shape = X.rows() == A.cols() && X.cols() == B.cols();
  CHECK(shape, key + "-shape", "solution %dx%d", (int) X.rows(), (int) X.cols());
  if (!shape) return;
  for (int j = 0; j < B.cols(); j++) {
    LD na = nrm(A), nx = nrm(X.col(j)), nb = nrm(B.col(j)), t = 300 * (A.rows() + A.cols()) * eps<S>();
    LD g = nrm((A.adjoint() * (A * X.col(j) - B.col(j))).eval());
    CHECK(g <= t * na * (na * nx + nb), key + "-normal-equations", "|A*(Ax-b)| = %Lg (|A| %Lg |x| %Lg |b| %Lg kappa %g rhs %d) A = %s", g, na, nx, nb, kap, j, msr<S>(A).c_str());
    if (N.cols()) {
      LD e = nrm((N.adjoint() * X.col(j)).eval());
      CHECK(e <= t * kap * (nx + nb / na), key + "-minimum-norm", "component of x in the null space of A: %Lg of %Lg, A = %s", e, nx, msr<S>(A).c_str());
    }
  }
}
#if IN_PART(6) || IN_PART(7)
template<class S> void ls_mn(Case &c) {
  int m = (int) c.r.range(1, 14), n = (int) c.r.range(1, 14), k = (int) c.r.range(1, 4);
  if (c.r.chance(0.05)) { m = (int) c.r.range(20, 60); n = (int) c.r.range(10, 40); c.obs("ls/large"); }
  double kap = kappa_of(c.r, 5);
  Dyn<S> N, A = ls_matrix<S>(c, m, n, kap, N), B = rhs<S>(c.r, m, k);
  const MatrixMN<S> M = A, b = B;
  ls_check<S>(c, A, N, Dyn<S>(M.LeastSquareSolver(b)), B, "ls/MN-" + tag<S>(), kap);
  c.nontrivial(hm(A));
}
template<class S> void cls(Case &c) {
  int n = (int) c.r.range(2, c.r.chance(0.03) ? 30 : 9), p = (int) c.r.range(1, n - 1), m = n + (int) c.r.range(1, 8);
  double ka = kappa_of(c.r, 3), kc = kappa_of(c.r, 3);
  Dyn<S> A = conditioned<S>(c.r, m, n, ka, c.r.chance(0.6) ? 1 : std::pow(10., c.r.uni(-4, 4)));
  Dyn<S> C = conditioned<S>(c.r, p, n, kc, c.r.chance(0.6) ? 1 : std::pow(10., c.r.uni(-4, 4)));
  Dyn<S> b = gaussian<S>(c.r, m, 1), d = gaussian<S>(c.r, p, 1);
  b *= (Re<S>) std::pow(10., c.r.uni(-2, 2));
  if (c.r.chance(0.1)) d.setZero();
  const MatrixMN<S> Am = A, bm = b, Cm = C, dm = d;
  Dyn<S> x = Am.LeastSquareSolverConstraint(bm, Cm, dm);
  bool shape = x.rows() == n && x.cols() == 1;
  CHECK(shape, "constrained-shape/" + tag<S>(), "solution %dx%d", (int) x.rows(), (int) x.cols());
  if (!shape) return;
  LD t = 500 * (m + n) * eps<S>(), na = nrm(A), nc = nrm(C), nx = nrm(x), nb = nrm(b), nd = nrm(d);
  LD r = nrm((C * x - d).eval());
  CHECK(r <= t * (nc * nx + nd), "constrained-feasible/" + tag<S>(), "|Cx-d| = %Lg (|C||x| %Lg, |d| %Lg), m %d n %d p %d", r, nc * nx, nd, m, n, p);
  Eigen::HouseholderQR<Dyn<S>> q(C.adjoint().eval());
  Dyn<S> Q = q.householderQ() * Dyn<S>::Identity(n, n), Z = Q.rightCols(n - p);
  LD g = nrm((Z.adjoint() * (A.adjoint() * (A * x - b))).eval());
  CHECK(g <= t * na * (na * (nx + kc * nd / nc) + nb), "constrained-optimal/" + tag<S>(), "projected gradient %Lg (|A| %Lg |x| %Lg |b| %Lg), m %d n %d p %d", g, na, nx, nb, m, n, p);
  // no other feasible point does better
  LD f = nrm((A * x - b).eval());
  for (int i = 0; i < 4; i++) {
    Dyn<S> y = x + Z * gaussian<S>(c.r, n - p, 1) * (Re<S>) (std::pow(10., c.r.uni(-3, 1)) * (double) (nx + 1e-6));
    LD fy = nrm((A * y - b).eval());
    CHECK(f <= fy + t * (na * nrm(y) + nb), "constrained-not-minimal/" + tag<S>(), "feasible point with a smaller residual: %Lg < %Lg", fy, f);
  }
  c.nontrivial(hm(A));
  c.obs("constrained/" + tag<S>());
  if (p == n - 1) c.obs("constrained/one-freedom");
  if (p == 1) c.obs("constrained/one-constraint");
}
#endif
#if IN_PART(6)
SECTION(ls_double, 2000, 40000) { ls_mn<double>(c); }
SECTION(cls_double, 2000, 40000) { cls<double>(c); }
#endif
#if IN_PART(7)
SECTION(ls_complex, 1000, 20000) { ls_mn<std::complex<double>>(c); }
SECTION(cls_complex, 1000, 20000) { cls<std::complex<double>>(c); }
#endif
#if IN_PART(3) || IN_PART(4)
template<template<class> class MT, int NN> void ls_fixed(Case &c, const std::string &nm) {
  double kap = kappa_of(c.r, 5);
  Dyn<double> N, A = ls_matrix<double>(c, NN, NN, kap, N), B = rhs<double>(c.r, NN, (int) c.r.range(1, 4));
  const MT<double> M = A;
  ls_check<double>(c, A, N, Dyn<double>(M.LeastSquareSolver(Eigen::MatrixXd(B))), B, "ls/" + nm, kap);
  Dyn<double> B2 = rhs<double>(c.r, NN, 1);
  ls_check<double>(c, A, N, Dyn<double>(M.LeastSquareSolver(Eigen::Matrix<double, NN, 1>(B2))), B2, "ls-vector/" + nm, kap);
  c.nontrivial(hm(A));
  c.obs("ls/" + nm);
}
#endif
#if IN_PART(3)
SECTION(ls_33, 800, 10000) { ls_fixed<Matrix33, 3>(c, "33"); }
#endif
#if IN_PART(4)
SECTION(ls_66, 800, 10000) { ls_fixed<Matrix66, 6>(c, "66"); }
#endif

// -------------------------------------------------------------------------------------------------- eigenvalues
#if IN_PART(8)
typedef std::complex<double> cd;
static void eig_check(Case &c, const Dyn<double> &A, const std::vector<cd> &ev, const std::string &nm, const char *kind) {
  int n = (int) A.rows();
  CHECK((int) ev.size() == n, "eigen-count/" + nm, "%d eigenvalues for n = %d", (int) ev.size(), n);
  if ((int) ev.size() != n) return;
  LD na = nrm(A), t = 100 * n * epsof<double>();
  for (auto l : ev) {
    Dyn<cd> B = A.cast<cd>() - l * Dyn<cd>::Identity(n, n);
    LD s = Eigen::JacobiSVD<Dyn<cd>>(B).singularValues()(n - 1);
    CHECK(s <= t * na, "eigen-root/" + nm, "A - (%.17g,%.17g) I is regular: smallest singular value %Lg, |A| = %Lg (%s) %s", l.real(), l.imag(), s, na, kind, msr<double>(A).c_str());
  }
  if (na == 0) return;
  Dyn<double> P = A / (double) na, Q = P;
  std::vector<std::complex<LD>> w(n), lam(n);
  for (int i = 0; i < n; i++) lam[i] = w[i] = std::complex<LD>(ev[i].real() / na, ev[i].imag() / na);
  for (int k = 1; k <= std::min(n, 8); k++) {
    std::complex<LD> sum = 0;
    for (auto z : w) sum += z;
    LD tr = 0;
    for (int i = 0; i < n; i++) tr += Q(i, i);
    CHECK(std::abs(sum - tr) <= t * k * n, k == 1 ? "eigen-sum/" + nm : "eigen-power-sum/" + nm, "sum of lambda^%d is (%Lg,%Lg), trace of A^%d is %Lg (normalised) (%s) %s", k, sum.real(), sum.imag(), k, tr, kind, msr<double>(A).c_str());
    for (int i = 0; i < n; i++) w[i] *= lam[i];
    Q = (Q * P).eval();
  }
  std::complex<LD> pr = 1;
  for (auto z : lam) pr *= z;
  LD det = Eigen::FullPivLU<Dyn<double>>(P).determinant();
  CHECK(std::abs(pr - det) <= t * n * n, "eigen-product/" + nm, "product of eigenvalues (%Lg,%Lg), determinant %Lg (normalised) (%s)", pr.real(), pr.imag(), det, kind);
}
static Dyn<double> eig_matrix(Case &c, int n, const char **kind) {
  if (c.r.chance(0.3)) {  // companion: prescribed characteristic polynomial
    Dyn<double> A = Dyn<double>::Zero(n, n);
    for (int i = 1; i < n; i++) A(i, i - 1) = 1;
    for (int i = 0; i < n; i++) A(i, n - 1) = c.r.gauss();
    *kind = "companion";
    return A;
  }
  if (c.r.chance(0.2)) {
    std::vector<double> e(n);
    for (auto &x : e) x = (double) c.r.range(-3, 3);
    *kind = "symmetric";
    return hermitian<double>(c.r, e);
  }
  return any<double>(c.r, n, n, kind);
}
SECTION(eigen_mn, 2000, 40000) {
  int n = (int) c.r.range(1, c.r.chance(0.1) ? 25 : 9);
  const char *kind = "";
  Dyn<double> A = eig_matrix(c, n, &kind);
  const MatrixMN<double> M = A;
  MatrixMN<cd> e = M.Eigenvalues();
  std::vector<cd> ev;
  for (int i = 0; i < e.size(); i++) ev.push_back(e(i));
  eig_check(c, A, ev, "MN", kind);
  c.nontrivial(hm(A));
  c.obs(std::string("eigen/") + kind);
  bool cplx = false;
  for (auto l : ev) cplx = cplx || l.imag() != 0;
  if (cplx) c.obs("eigen/complex-pairs");
}
SECTION(eigen_fixed, 1500, 20000) {
  const char *kind = "";
  {
    Dyn<double> A = eig_matrix(c, 3, &kind);
    const Matrix33<double> M = A;
    auto e = M.Eigenvalues();
    std::vector<cd> ev;
    for (int i = 0; i < e.size(); i++) ev.push_back(e(i));
    eig_check(c, A, ev, "33", kind);
  }
  {
    Dyn<double> A = eig_matrix(c, 6, &kind);
    const Matrix66<double> M = A;
    auto e = M.Eigenvalues();
    std::vector<cd> ev;
    for (int i = 0; i < e.size(); i++) ev.push_back(e(i));
    eig_check(c, A, ev, "66", kind);
    c.nontrivial(hm(A));
  }
  c.obs("eigen/fixed");
}
#endif
}  // namespace mon
MON_MAIN
