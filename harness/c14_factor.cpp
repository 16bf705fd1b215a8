// C14: matrix factorisations
#include "mat_ref.h"
namespace mon {
using namespace mathutils;

template<class M> bool same(const M &a, const M &b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all(); }

// an output matrix as a caller may hand it over: fresh, or holding the result of former work, of the same or of another size
template<class M, typename std::enable_if<M::RowsAtCompileTime == Eigen::Dynamic, int>::type = 0> void resize_to(M &X, int m, int n) { X.resize(m, n); }
template<class M, typename std::enable_if<M::RowsAtCompileTime != Eigen::Dynamic, int>::type = 0> void resize_to(M &, int, int) {}
template<class M> void stale(Case &c, M &X, int m, int n) {
  if (c.r.chance(0.5)) return;
  bool other = c.r.chance(0.3);
  resize_to(X, other ? (int) c.r.range(1, m + 3) : m, other ? (int) c.r.range(1, n + 3) : n);
  X.setConstant(typename M::Scalar((Re<typename M::Scalar>) c.r.uni(-9, 9)));
  c.obs(other ? "output/of-other-size" : "output/holding-values");
}

template<class M, class S> void qr(Case &c, const Dyn<S> &A0, const std::string &t, const char *kind) {
  M A = A0, A1 = A, Q, R;
  int m = (int) A.rows(), n = (int) A.cols();
  stale(c, Q, m, n); stale(c, R, n, n);
  A.GetQRDecomposition(Q, R);
  CHECK(same(A, A1), "qr-input/" + t, "matrix modified by its decomposition");
  CHECK(Q.rows() == m && Q.cols() == n && R.rows() == n && R.cols() == n, "qr-shape/" + t, "Q %dx%d R %dx%d for A %dx%d", (int) Q.rows(), (int) Q.cols(), (int) R.rows(), (int) R.cols(), m, n);
  if (Q.rows() != m || Q.cols() != n || R.rows() != n || R.cols() != n) return;
  LD tol = 60 * eps<S>() * (m + n);
  Dyn<S> QQ = Q.adjoint() * Q, QRm = Q * R;
  CHECK(nrm(QQ - Dyn<S>::Identity(n, n)) <= tol, "qr-orthonormal/" + t, "Q not orthonormal (%s)", kind);
  CHECK(upper_tri(R), "qr-triangular/" + t, "R not upper triangular (%s)", kind);
  CHECK(nrm(QRm - A0) <= tol * nrm(A0), "qr-product/" + t, "A != QR, |A-QR| = %Lg, |A| = %Lg (%s) %s", nrm(QRm - A0), nrm(A0), kind, msr<S>(A0).c_str());
}
template<class S> void fullqr(Case &c, const Dyn<S> &A0, const std::string &t, const char *kind) {
  MatrixMN<S> A = A0, A1 = A, Q, R;
  int m = (int) A.rows(), n = (int) A.cols();
  stale(c, Q, m, m); stale(c, R, m, n);
  A.GetFullQRDecomposition(Q, R);
  CHECK(same(A, A1), "fullqr-input/" + t, "matrix modified by its decomposition");
  // R is given either as its n x n triangle or padded with zero rows
  bool shape = Q.rows() == m && Q.cols() == m && R.cols() == n && (R.rows() == n || R.rows() == m);
  CHECK(shape, "fullqr-shape/" + t, "Q %dx%d R %dx%d for A %dx%d", (int) Q.rows(), (int) Q.cols(), (int) R.rows(), (int) R.cols(), m, n);
  if (!shape) return;
  LD tol = 60 * eps<S>() * (m + n);
  Dyn<S> Rx = Dyn<S>::Zero(m, n);
  Rx.topRows(R.rows()) = R;
  Dyn<S> QQ = Q.adjoint() * Q, P = Q * Rx;
  CHECK(nrm(QQ - Dyn<S>::Identity(m, m)) <= tol, "fullqr-orthonormal/" + t, "Q not orthonormal (%s)", kind);
  CHECK(upper_tri(R), "fullqr-triangular/" + t, "R not upper triangular");
  CHECK(nrm(P - A0) <= tol * nrm(A0), "fullqr-product/" + t, "A != QR (%s)", kind);
}
template<class M, class S> void lu(Case &c, const Dyn<S> &A0, const std::string &t, const char *kind) {
  M A = A0, A1 = A, P, L, U;
  int n = (int) A.rows();
  stale(c, P, n, n); stale(c, L, n, n); stale(c, U, n, n);
  A.GetLUDecomposition(P, L, U);
  CHECK(same(A, A1), "lu-input/" + t, "matrix modified by its decomposition");
  bool shape = P.rows() == n && P.cols() == n && L.rows() == n && L.cols() == n && U.rows() == n && U.cols() == n;
  CHECK(shape, "lu-shape/" + t, "shapes");
  if (!shape) return;
  bool perm = true;
  for (int i = 0; i < n; i++) {
    int r1 = 0, c1 = 0;
    for (int j = 0; j < n; j++) {
      perm = perm && (P(i, j) == S(0) || P(i, j) == S(1));
      r1 += P(i, j) == S(1); c1 += P(j, i) == S(1);
    }
    perm = perm && r1 == 1 && c1 == 1;
  }
  CHECK(perm, "lu-permutation/" + t, "P is not a permutation (%s)", kind);
  bool unit = lower_tri(L);
  for (int i = 0; i < n; i++) unit = unit && L(i, i) == S(1);
  CHECK(unit, "lu-unit-lower/" + t, "L is not unit lower triangular (%s)", kind);
  CHECK(upper_tri(U), "lu-upper/" + t, "U is not upper triangular (%s)", kind);
  Dyn<S> E = P * A0 - L * U;
  CHECK(nrm(E) <= 60 * eps<S>() * n * (nrm(A0) + nrm(L) * nrm(U)), "lu-product/" + t, "PA != LU, |PA-LU| = %Lg, |A| = %Lg (%s) %s", nrm(E), nrm(A0), kind, msr<S>(A0).c_str());
}
template<class M, class S> void svd(Case &c, const Dyn<S> &A0, const std::string &t, const char *kind) {
  M A = A0, A1 = A, U, Sv, V;
  int m = (int) A.rows(), n = (int) A.cols(), k = std::min(m, n);
  stale(c, U, m, k); stale(c, Sv, k, 1); stale(c, V, n, k);
  A.GetSVDDecomposition(U, Sv, V);
  CHECK(same(A, A1), "svd-input/" + t, "matrix modified by its decomposition");
  std::vector<LD> s;
  bool diag = true;
  if (Sv.cols() == 1 && k != 1) { for (int i = 0; i < Sv.rows(); i++) s.push_back(std::real(Sv(i, 0))); }
  else for (int j = 0; j < Sv.cols(); j++) for (int i = 0; i < Sv.rows(); i++) { if (i == j) s.push_back(std::real(Sv(i, j))); else diag = diag && Sv(i, j) == S(0); }
  bool shape = (int) s.size() == k && U.rows() == m && U.cols() == k && V.rows() == n && V.cols() == k;
  CHECK(shape && diag, "svd-shape/" + t, "U %dx%d S %dx%d V %dx%d for A %dx%d", (int) U.rows(), (int) U.cols(), (int) Sv.rows(), (int) Sv.cols(), (int) V.rows(), (int) V.cols(), m, n);
  if (!shape) return;
  bool dec = true;
  for (int i = 0; i < k; i++) dec = dec && s[i] >= 0 && (i == 0 || s[i] <= s[i - 1]);
  CHECK(dec, "svd-order/" + t, "singular values not non-negative decreasing (%s)", kind);
  Dyn<S> D = Dyn<S>::Zero(k, k);
  for (int i = 0; i < k; i++) D(i, i) = S((Re<S>) s[i]);
  LD tol = 100 * eps<S>() * (m + n);
  Dyn<S> UU = U.adjoint() * U, VV = V.adjoint() * V, E = U * D * V.adjoint();
  CHECK(nrm(UU - Dyn<S>::Identity(k, k)) <= tol && nrm(VV - Dyn<S>::Identity(k, k)) <= tol, "svd-orthonormal/" + t, "U or V not orthonormal (%s)", kind);
  CHECK(nrm(E - A0) <= tol * nrm(A0), "svd-product/" + t, "A != U S V*, error %Lg of %Lg (%s) %s", nrm(E - A0), nrm(A0), kind, msr<S>(A0).c_str());
}
static std::vector<double> spectrum(Rng &r, int n, double lo) {
  std::vector<double> e(n);
  double sc = std::pow(10., r.uni(-3, 3));
  for (auto &x : e) x = sc * r.uni(lo, 1);
  return e;
}
template<class M, class S> bool chol(Case &c, const Dyn<S> &A0, const std::string &t) {
  M A = A0, A1 = A, L;
  int n = (int) A.rows();
  stale(c, L, n, n);
  A.GetCholeskyDecomposition(L);
  CHECK(same(A, A1), "chol-input/" + t, "matrix modified by its decomposition");
  bool shape = L.rows() == n && L.cols() == n;
  CHECK(shape, "chol-shape/" + t, "shape of L");
  if (!shape) return false;
  CHECK(lower_tri(L), "chol-lower/" + t, "L not lower triangular");
  Dyn<S> E = L * L.adjoint();
  CHECK(nrm(E - A0) <= 60 * eps<S>() * n * nrm(A0), "chol-product/" + t, "A != L L*: error %Lg of %Lg", nrm(E - A0), nrm(A0));
  return true;
}
template<class M, class S> void cholrefuse(Case &c, const Dyn<S> &A0, const std::string &t, const char *why) {
  bool threw = false;
  if (c.r.chance(0.03)) threw = refused(observe([&]() { M A = A0, L; A.GetCholeskyDecomposition(L); }));
  else { try { M A = A0, L; A.GetCholeskyDecomposition(L); } catch (...) { threw = true; } }
  CHECK(threw, std::string("chol-accepts-") + why + "/" + t, "Cholesky factor returned for a %s matrix %s", why, msr<S>(A0).c_str());
  c.obs(std::string("chol-refused/") + why);
}
template<class S> typename std::enable_if<std::is_floating_point<S>::value, S>::type imag_unit() { return S(0); }
template<class S> typename std::enable_if<!std::is_floating_point<S>::value, S>::type imag_unit() { return S(0, 1); }
template<class M, class S> void cholall(Case &c, int n, const std::string &t) {
  auto e = spectrum(c.r, n, 0.01);
  Dyn<S> A = hermitian<S>(c.r, e);
  chol<M, S>(c, A, t);
  double big = *std::max_element(e.begin(), e.end());
  if (n > 1) {
    Dyn<S> B = A;
    int i = (int) c.r.range(0, n - 1), j = (i + (int) c.r.range(1, n - 1)) % n;
    // from an asymmetry just above what counts as rounding to a gross one, on the real or the imaginary side
    bool single = std::is_same<Re<S>, float>::value;
    double d = big * std::sqrt((double) n) * std::pow(10., c.r.uni(single ? -3 : -7, -0.3));
    bool im = std::is_same<S, std::complex<Re<S>>>::value && c.r.chance(0.5);
    if (im && c.r.chance(0.3)) j = i;
    B(i, j) += im ? imag_unit<S>() * S((Re<S>) d) : S((Re<S>) d);
    cholrefuse<M, S>(c, B, t, "non-symmetric");
    c.obs(im ? "asymmetry/imaginary" : d < 1e-3 * big ? "asymmetry/slight" : "asymmetry/gross");
  }
  auto e2 = e;
  e2[c.r.range(0, n - 1)] = -big * c.r.uni(0.1, 1);
  cholrefuse<M, S>(c, hermitian<S>(c.r, e2), t, "indefinite");
  c.obs("chol/" + t);
}
template<class S> void update(Case &c, const std::string &t) {
  int n = (int) c.r.range(1, c.r.chance(0.03) ? 60 : 12);
  auto e = spectrum(c.r, n, 0.2);
  Dyn<S> A0 = hermitian<S>(c.r, e);
  double lo = *std::min_element(e.begin(), e.end());
  Dyn<S> v0 = gaussian<S>(c.r, n, 1);
  v0 *= (Re<S>) std::sqrt(lo * c.r.uni(0.1, 0.5)) / v0.norm();
  S sigma = c.r.chance(0.5) ? S(-1) : S((Re<S>) c.r.uni(-1, 4));
  if (c.r.chance(0.06)) { sigma = S(0); c.obs("update/null-factor"); }
  if (c.r.chance(0.06)) { v0.setZero(); c.obs("update/null-vector"); }
  else if (c.r.chance(0.1)) { for (int i = 0; i < n; i++) if (c.r.chance(0.6)) v0(i, 0) = S(0); }
  MatrixMN<S> A = A0, v = v0, L;
  MatrixMN<S> A1 = A, v1 = v;
  stale(c, L, n, n);
  A.GetCholeskyUpdate(L, v, sigma);
  CHECK(same(A, A1) && same(v, v1), "update-input/" + t, "GetCholeskyUpdate modified its inputs");
  Dyn<S> W = A0 + sigma * v0 * v0.adjoint();
  LD tol = 2000 * eps<S>() * n * nrm(A0);
  Dyn<S> E = L * L.adjoint();
  CHECK(E.rows() == n && lower_tri(L) && nrm(E - W) <= tol, "update-product/" + t, "L L* != A + sigma v v*, error %Lg of %Lg, sigma %g", nrm(E - W), nrm(W), (double) sigma);
  A.InPlaceCholeskyUpdate(v, sigma);
  Dyn<S> E2 = A * A.adjoint();
  CHECK(E2.rows() == n && lower_tri(A) && nrm(E2 - W) <= tol && same(v, v1), "update-inplace/" + t, "in-place factor wrong, error %Lg of %Lg", nrm(E2 - W), nrm(W));
  c.obs(sigma < 0 ? "update/down" : "update/up");
}
template<class S> void dyn_qr(Case &c, const std::string &t) {
  const char *kind;
  int n = c.r.chance(0.1) ? (int) c.r.range(17, c.r.chance(0.05) ? 90 : 30) : (int) c.r.range(1, 10), m = n + (c.r.chance(0.5) ? 0 : (int) c.r.range(1, 8));
  auto A = any<S>(c.r, m, n, &kind);
  qr<MatrixMN<S>, S>(c, A, t, kind);
  fullqr<S>(c, A, t, kind);
  c.obs(std::string("kind/") + kind);
  c.obs(m > n ? "shape/tall" : "shape/square");
  c.nontrivial(H().add((double) nrm(A)).add(m * 100 + n).h);
}
template<class S> void dyn_lu(Case &c, const std::string &t) {
  const char *kind;
  int n = c.r.chance(0.1) ? (int) c.r.range(17, c.r.chance(0.05) ? 90 : 30) : (int) c.r.range(1, 10);
  auto B = any<S>(c.r, n, n, &kind);
  lu<MatrixMN<S>, S>(c, B, t, kind);
  c.obs(std::string("lu-kind/") + kind);
  c.nontrivial(H().add((double) nrm(B)).add(n).h);
  cholall<MatrixMN<S>, S>(c, (int) c.r.range(1, c.r.chance(0.01) ? 90 : c.r.chance(0.1) ? 30 : 10), t);
  cholrefuse<MatrixMN<S>, S>(c, any<S>(c.r, n + (int) c.r.range(1, 4), n, &kind), t, "non-square");
}
template<class S> void dyn_svd(Case &c, const std::string &t) {
  const char *kind;
  int n = (int) c.r.range(1, c.r.chance(0.04) ? 45 : 10), m = n + (c.r.chance(0.5) ? 0 : (int) c.r.range(1, 8));
  auto A = any<S>(c.r, m, n, &kind);
  Dyn<S> W = c.r.chance(0.4) ? Dyn<S>(A.transpose()) : A;
  svd<MatrixMN<S>, S>(c, W, t, kind);
  if (W.cols() > W.rows()) c.obs("shape/wide-svd");
  c.nontrivial(H().add((double) nrm(W)).add(m * 100 + n).h);
}
template<class M, int N> void fixed_qrlu(Case &c, const std::string &t) {
  const char *kind;
  auto A = any<double>(c.r, N, N, &kind);
  qr<M, double>(c, A, t, kind);
  lu<M, double>(c, A, t, kind);
  cholall<M, double>(c, N, t);
  c.obs("fixed/" + t);
  c.nontrivial(H().add((double) nrm(A)).add(t).h);
}
template<class M, int N> void fixed_svd(Case &c, const std::string &t) {
  const char *kind;
  auto A = any<double>(c.r, N, N, &kind);
  svd<M, double>(c, A, t, kind);
  c.obs("fixed-svd/" + t);
  c.nontrivial(H().add((double) nrm(A)).add(t).h);
}
#define DYN(S, tag, q, th) \
  SECTION(qr_##tag, q, th) { dyn_qr<S>(c, "MatrixMN-" #tag); } \
  SECTION(lu_##tag, q, th) { dyn_lu<S>(c, "MatrixMN-" #tag); }
typedef std::complex<double> cplx;
#if IN_PART(1)
DYN(double, double, 3000, 80000)
#endif
#if IN_PART(2)
SECTION(svd_double, 2500, 60000) { dyn_svd<double>(c, "MatrixMN-double"); }
SECTION(upd, 2000, 40000) { update<double>(c, "double"); }
#endif
#if IN_PART(3)
DYN(cplx, complex, 800, 20000)
#endif
#if IN_PART(4)
SECTION(svd_complex, 600, 15000) { dyn_svd<cplx>(c, "MatrixMN-complex"); }
#endif
#if IN_PART(5)
DYN(float, float, 800, 15000)
#endif
#if IN_PART(6)
SECTION(svd_float, 600, 10000) { dyn_svd<float>(c, "MatrixMN-float"); }
#endif
#if IN_PART(7)
SECTION(m33, 3000, 80000) { fixed_qrlu<Matrix33<double>, 3>(c, "Matrix33"); }
SECTION(m33s, 2000, 60000) { fixed_svd<Matrix33<double>, 3>(c, "Matrix33"); }
#endif
#if IN_PART(8)
SECTION(m66, 2000, 40000) { fixed_qrlu<Matrix66<double>, 6>(c, "Matrix66"); }
SECTION(m66s, 1500, 30000) { fixed_svd<Matrix66<double>, 6>(c, "Matrix66"); }
#endif
}  // namespace mon
MON_MAIN
