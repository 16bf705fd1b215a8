// C16: matrix predicates, accessors, symmetrisers, setters
#include "mat_ref.h"
namespace mon {
using namespace mathutils;
typedef std::complex<double> cd;
template<class S> struct Nm { static std::string s() { return "double"; } };
template<> struct Nm<float> { static std::string s() { return "float"; } };
template<> struct Nm<cd> { static std::string s() { return "complex"; } };
template<class S> struct Real { static const bool v = true; };
template<> struct Real<cd> { static const bool v = false; };

static double decades(Rng &r) { return r.chance(0.4) ? 1 : std::pow(10., r.uni(-18, 18)); }

#define ASK(expr, want, key, ...) do { bool got_ = (expr); CHECK(got_ == (want), std::string(key) + ((want) ? "-denied/" : "-granted/") + t, __VA_ARGS__); } while (0)

/// predicates of a square matrix, M the class under test
template<class M, class S> void symmetric(Case &c, int n, const std::string &t) {
  std::vector<double> ev(n);
  for (auto &e : ev) e = c.r.uni(-1, 1);
  Dyn<S> A = c.r.chance(0.5) ? hermitian<S>(c.r, ev) : Dyn<S>();
  if (!A.size()) {
    A = gaussian<S>(c.r, n, n);
    for (int i = 0; i < n; i++) { A(i, i) = S(std::real(A(i, i))); for (int j = 0; j < i; j++) A(i, j) = Eigen::numext::conj(A(j, i)); }
  }
  A *= (Re<S>) (sizeof(Re<S>) == 4 ? std::pow(10., c.r.uni(-12, 12)) : decades(c.r));
  { const M m = A; ASK(m.IsSymmetric(), true, "symmetric", "symmetric matrix denied %s", msr<S>(A).c_str()); }
  if (c.r.chance(0.05)) {  // null, or null but for one diagonal coefficient
    Dyn<S> B = Dyn<S>::Zero(n, n);
    if (c.r.chance(0.5)) { int k = (int) c.r.range(0, n - 1); B(k, k) = S((Re<S>) c.r.uni(-2, 2)); }
    const M m = B;
    ASK(m.IsSymmetric(), true, "symmetric-null", "null or one-coefficient diagonal matrix denied %s", msr<S>(B).c_str());
    c.obs("symmetric/null");
  }
  {  // within rounding
    Dyn<S> B = A;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) B(i, j) *= (Re<S>) (1 + 0.4 * (double) eps<S>() * c.r.range(-1, 1));
    const M m = B;
    ASK(m.IsSymmetric(), true, "symmetric-rounding", "symmetric up to rounding denied %s", msr<S>(A).c_str());
  }
  if (n > 1) {
    Dyn<S> B = A;
    int i = (int) c.r.range(0, n - 1), j = (i + (int) c.r.range(1, n - 1)) % n;
    B(i, j) += S((Re<S>) (c.r.sign() * (c.r.chance(0.6) ? c.r.uni(0.01, 2) : std::pow(10., c.r.uni(sizeof(Re<S>) == 4 ? -3 : -9, -2))) * (double) nrm(A)));
    const M m = B;
    ASK(m.IsSymmetric(), false, "symmetric", "coefficient (%d,%d) differs from its mirror but symmetric granted %s", i, j, msr<S>(B).c_str());
    c.obs(i < j ? "symmetric-perturbed/upper" : "symmetric-perturbed/lower");
    c.nontrivial(hash_bytes(B.data(), B.size() * sizeof(S)));
  }
  if (n > 1 && c.r.chance(0.2)) {
    Dyn<S> B = Dyn<S>::Zero(n, n);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { B(i, j) = Sc<S>::rnd(c.r) + S(3); B(j, i) = -Eigen::numext::conj(B(i, j)); }
    const M m = B;
    ASK(m.IsSymmetric(), false, "antisymmetric", "antisymmetric matrix granted");
    c.obs("antisymmetric");
  }
}
template<class M, class S> void orthogonal(Case &c, int n, const std::string &t) {
  Dyn<S> Q = orth<S>(c.r, n);
  if (c.r.chance(0.2)) {
    Q = Dyn<S>::Zero(n, n);
    int sh = (int) c.r.range(0, n - 1);
    for (int i = 0; i < n; i++) Q(i, (i + sh) % n) = S((Re<S>) c.r.sign());
  }
  { const M m = Q; ASK(m.IsOrthogonal(), true, "orthogonal", "orthogonal matrix denied %s", msr<S>(Q).c_str()); }
  Dyn<S> B = Q;
  switch (c.r.range(0, 5)) {
    case 5: B(c.r.range(0, n - 1), c.r.range(0, n - 1)) += S((Re<S>) (c.r.sign() * std::pow(10., c.r.uni(sizeof(Re<S>) == 4 ? -2.5 : -8, -2)))); c.obs("orthogonal-perturbed/slightly"); break;
    case 0: { int i = (int) c.r.range(0, n - 1), j = (int) c.r.range(0, n - 1);  // single coefficient, whatever it was
      B(i, j) = std::abs(B(i, j)) > 0.5 ? S(0) : B(i, j) + S((Re<S>) (c.r.sign() * c.r.uni(1.2, 3)));
      c.obs("orthogonal-perturbed/coefficient"); break; }
    case 1: B.col(c.r.range(0, n - 1)) *= S((Re<S>) c.r.uni(1.05, 3)); c.obs("orthogonal-perturbed/column-scaled"); break;
    case 2: B *= S((Re<S>) (c.r.chance(0.5) ? c.r.uni(0.1, 0.95) : c.r.uni(1.05, 5))); c.obs("orthogonal-perturbed/scaled"); break;
    case 3: if (n > 1) { int i = (int) c.r.range(0, n - 1), j = (i + 1) % n; B.col(j) = B.col(i); c.obs("orthogonal-perturbed/unit-columns-not-orthogonal"); } else B *= S(2); break;
    default: B.setZero(); c.obs("orthogonal-perturbed/zero"); break;
  }
  const M m = B;
  ASK(m.IsOrthogonal(), false, "orthogonal", "not orthogonal but granted %s", msr<S>(B).c_str());
  c.nontrivial(hash_bytes(B.data(), B.size() * sizeof(S)));
}
template<class M, class S> void identity(Case &c, int n, const std::string &t) {
  Dyn<S> I = Dyn<S>::Identity(n, n);
  { const M m = I; ASK(m.IsIdentity(), true, "identity", "identity denied"); }
  {
    Dyn<S> B = I;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) += S((Re<S>) ((double) eps<S>() * c.r.range(-2, 2)));
    const M m = B;
    ASK(m.IsIdentity(), true, "identity-rounding", "identity up to rounding denied");
  }
  Dyn<S> B = I;
  int i = (int) c.r.range(0, n - 1), j = (int) c.r.range(0, n - 1);
  B(i, j) += S((Re<S>) (c.r.sign() * std::pow(10., c.r.uni(sizeof(Re<S>) == 4 ? -3 : -9, 3))));
  const M m = B;
  ASK(m.IsIdentity(), false, "identity", "coefficient (%d,%d) wrong but identity granted", i, j);
  c.obs(i == j ? "identity-perturbed/diagonal" : i < j ? "identity-perturbed/upper" : "identity-perturbed/lower");
  { const M z = Dyn<S>::Zero(n, n); ASK(z.IsIdentity(), false, "identity-zero", "zero granted as identity"); }
  if (n > 1) {  // sharing the trace, the determinant, the norm or the row sums of the identity does not make one
    Dyn<S> L = I;
    int p = (int) c.r.range(0, n - 1), q = (p + (int) c.r.range(1, n - 1)) % n;
    double d = c.r.uni(0.1, 0.9);
    switch (c.r.range(0, 4)) {
      case 0: L(p, p) += S((Re<S>) d); L(q, q) -= S((Re<S>) d); break;              // trace
      case 1: L(p, p) *= S((Re<S>) (1 + d)); L(q, q) /= S((Re<S>) (1 + d)); break;  // determinant
      case 2: L(p, p) = S(-1); L(q, q) = S(-1); break;                              // determinant, norm, orthogonality
      case 3: L(p, q) = S((Re<S>) d); break;                                        // eigenvalues
      default: L(p, p) -= S((Re<S>) d); L(p, q) += S((Re<S>) d); break;             // row sums
    }
    const M ml = L;
    ASK(ml.IsIdentity(), false, "identity-look-alike", "granted as identity: %s", msr<S>(L).c_str());
    c.obs("identity-look-alike");
  }
  if (n > 1 && c.r.chance(0.3)) {
    Dyn<S> P = Dyn<S>::Zero(n, n);
    for (int k = 0; k < n; k++) P(k, (k + 1) % n) = S(1);
    const M mp = P;
    ASK(mp.IsIdentity(), false, "identity-permutation", "permutation granted as identity");
  }
}
template<class M, class S> void equality(Case &c, int m, int n, const std::string &t) {
  Dyn<S> A = gaussian<S>(c.r, m, n) * (Re<S>) (sizeof(Re<S>) == 4 ? std::pow(10., c.r.uni(-12, 12)) : decades(c.r));
  const M a = A;
  { const M b = A; ASK(a.IsEqual(b), true, "equal", "matrix not equal to its copy"); ASK(a.IsEqual(b, (Re<S>) 0), true, "equal-exactly", "matrix not equal to its copy with a null tolerance"); }
  if (c.r.chance(0.05)) {
    const M z0 = Dyn<S>::Zero(m, n), z1 = Dyn<S>::Zero(m, n);
    ASK(z0.IsEqual(z1), true, "equal-null", "null matrices not equal");
    c.obs("equal/null");
  }
  double e = std::pow(10., c.r.uni(sizeof(Re<S>) == 4 ? -4 : -10, -1));
  int i = (int) c.r.range(0, m - 1), j = (int) c.r.range(0, n - 1);
  {
    Dyn<S> B = A;
    B(i, j) += S((Re<S>) (c.r.sign() * 0.2 * e * (double) nrm(A)));
    const M b = B;
    ASK(a.IsEqual(b, (Re<S>) e), true, "equal-within", "difference of a fifth of the tolerance %g denied", e);
  }
  {
    Dyn<S> B = A;
    B(i, j) += S((Re<S>) (c.r.sign() * 5 * e * (double) nrm(A)));
    const M b = B;
    ASK(a.IsEqual(b, (Re<S>) e), false, "equal", "difference in (%d,%d) of five times the tolerance %g granted", i, j, e);
    if (sizeof(Re<S>) == 8) ASK(a.IsEqual(b), false, "equal-default", "difference in (%d,%d) granted with the default tolerance", i, j);
    if (sizeof(Re<S>) == 8) ASK(b.IsEqual(a), false, "equal-default-swapped", "difference in (%d,%d) granted with the default tolerance", i, j);
  }
  c.nontrivial(hash_bytes(A.data(), A.size() * sizeof(S)));
}
template<class M, class S> void psd(Case &c, int n, const std::string &t) {
  std::vector<double> ev(n);
  double big = std::pow(10., c.r.uni(-2, 2));
  for (auto &e : ev) e = c.r.chance(0.2) ? 0 : big * c.r.unit();
  { Dyn<S> A = hermitian<S>(c.r, ev); const M m = A; ASK(m.IsPositiveSemiDefinite(), true, "psd", "semi-definite matrix denied %s", msr<S>(A).c_str()); }
  double e = std::pow(10., c.r.uni(-6, -1)) * big;
  int i = (int) c.r.range(0, n - 1);
  auto e1 = ev;
  e1[i] = -0.2 * e;
  { Dyn<S> A = hermitian<S>(c.r, e1); const M m = A; ASK(m.IsPositiveSemiDefinite(e), true, "psd-within", "eigenvalue %g denied with tolerance %g", e1[i], e); }
  e1[i] = -5 * e;
  {
    Dyn<S> A = hermitian<S>(c.r, e1);
    const M m = A;
    ASK(m.IsPositiveSemiDefinite(e), false, "psd", "eigenvalue %g granted with tolerance %g %s", e1[i], e, msr<S>(A).c_str());
  }
  e1[i] = -big * c.r.uni(0.01, 1);
  { Dyn<S> A = hermitian<S>(c.r, e1); const M m = A; ASK(m.IsPositiveSemiDefinite(), false, "psd-default", "eigenvalue %g granted with the default tolerance %s", e1[i], msr<S>(A).c_str()); c.nontrivial(hash_bytes(A.data(), A.size() * sizeof(S))); }
  if (n > 1) {  // positive diagonal, yet indefinite
    Dyn<S> A = Dyn<S>::Identity(n, n) * big;
    int a = (int) c.r.range(0, n - 1), b = (a + (int) c.r.range(1, n - 1)) % n;
    A(a, b) = A(b, a) = S(big * c.r.uni(1.1, 3) * c.r.sign());
    const M m = A;
    ASK(m.IsPositiveSemiDefinite(), false, "psd-offdiagonal", "indefinite matrix with positive diagonal granted");
    c.obs("psd/indefinite-positive-diagonal");
  }
}
template<class M, class S> void access(Case &c, int m, int n, const std::string &t) {
  Dyn<S> A = gaussian<S>(c.r, m, n) * (Re<S>) (c.r.chance(0.5) ? 1 : std::pow(10., c.r.uni(-20, 20)));
  M a = A;
  const M &ca = a;
  CHECK(ca.GetNbRows() == (unsigned) m && ca.GetNbCols() == (unsigned) n, "size/" + t, "%u x %u reported for %d x %d", ca.GetNbRows(), ca.GetNbCols(), m, n);
  ASK(ca.IsSquare(), m == n, "square", "%d x %d", m, n);
  bool ok = true, okw = true;
  int fi = -1, fj = -1;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (!(ca.at(i, j) == A(i, j))) { ok = false; fi = i; fj = j; }
  CHECK(ok, "at/" + t, "at(%d,%d) is not the coefficient of a %dx%d matrix", fi, fj, m, n);
  {
    M w = A;
    int i = (int) c.r.range(0, m - 1), j = (int) c.r.range(0, n - 1);
    S v = Sc<S>::rnd(c.r) + S(20);
    w.at(i, j) = v;
    for (int p = 0; p < m; p++) for (int q = 0; q < n; q++) okw = okw && w(p, q) == (p == i && q == j ? v : A(p, q));
    CHECK(okw, "at-write/" + t, "writing at(%d,%d) did not change that coefficient alone", i, j);
  }
  for (int j = 0; j < n; j++) {
    auto col = ca.GetColumn(j);
    bool good = col.rows() == m && col.cols() == 1;
    for (int i = 0; good && i < m; i++) good = col(i, 0) == A(i, j);
    CHECK(good, "column/" + t, "GetColumn(%d) of a %dx%d matrix", j, m, n);
  }
  for (int i = 0; i < m; i++) {
    auto row = ca.GetRow(i);
    bool good = row.rows() == 1 && row.cols() == n;
    for (int j = 0; good && j < n; j++) good = row(0, j) == A(i, j);
    CHECK(good, "row/" + t, "GetRow(%d) of a %dx%d matrix", i, m, n);
  }
  {
    auto d = ca.GetDiag();
    int k = std::min(m, n);
    bool good = d.size() == k;
    for (int i = 0; good && i < k; i++) good = d(i, 0) == A(i, i);
    CHECK(good, "diag/" + t, "GetDiag of a %dx%d matrix", m, n);
  }
  {
    auto tr = Transpose(ca);
    M tp = A;
    tp.Transpose();
    bool good = tr.rows() == n && tr.cols() == m && tp.rows() == n && tp.cols() == m;
    for (int i = 0; good && i < m; i++) for (int j = 0; j < n; j++) good = good && tr(j, i) == A(i, j) && tp(j, i) == A(i, j);
    CHECK(good, "transpose/" + t, "transpose of a %dx%d matrix", m, n);
    tp.Transpose();
    CHECK(tp.rows() == m && tp.cols() == n && (tp.array() == A.array()).all(), "transpose-twice/" + t, "transposing twice changes the matrix");
    CHECK((a.array() == A.array()).all(), "transpose-input/" + t, "Transpose(copy) modified its input");
  }
  {
    M z = A, I = A;
    z.SetNull();
    I.SetIdentity();
    bool good = z.rows() == m && z.cols() == n && I.rows() == m && I.cols() == n;
    for (int i = 0; good && i < m; i++) for (int j = 0; j < n; j++) good = good && z(i, j) == S(0) && I(i, j) == (i == j ? S(1) : S(0));
    CHECK(good, "setters/" + t, "SetNull or SetIdentity left a coefficient of a %dx%d matrix", m, n);
    I.Randomize();
    CHECK(I.rows() == m && I.cols() == n, "randomize/" + t, "Randomize changed the size");
  }
  c.nontrivial(hash_bytes(A.data(), A.size() * sizeof(S)));
  c.obs(m == n ? "access/square" : m > n ? "access/tall" : "access/wide");
}
template<class M, class S> void symmetrise(Case &c, int n, const std::string &t) {
  Dyn<S> A = gaussian<S>(c.r, n, n) * (Re<S>) (c.r.chance(0.5) ? 1 : std::pow(10., c.r.uni(-20, 20)));
  for (int i = 0; i < n; i++) A(i, i) = S(std::real(A(i, i)));
  const M a = A;
  auto U = MakeSymmetricFromUpper(a);
  auto L = MakeSymmetricFromLower(a);
  bool su = U.rows() == n && U.cols() == n, sl = L.rows() == n && L.cols() == n, gu = su, gl = sl;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    if (su) gu = gu && U(i, j) == (j >= i ? A(i, j) : Eigen::numext::conj(A(j, i)));
    if (sl) gl = gl && L(i, j) == (j <= i ? A(i, j) : Eigen::numext::conj(A(j, i)));
  }
  CHECK(gu, "from-upper/" + t, "MakeSymmetricFromUpper of %s", msr<S>(A).c_str());
  CHECK(gl, "from-lower/" + t, "MakeSymmetricFromLower of %s", msr<S>(A).c_str());
  CHECK((a.array() == A.array()).all(), "symmetrise-input/" + t, "input modified");
  c.obs("symmetrise/" + t);
}
template<class S> void rectangular(Case &c, const std::string &t) {
  int m = (int) c.r.range(1, 7), n = (int) c.r.range(1, 7);
  if (m == n) n++;
  Dyn<S> Q = orth<S>(c.r, std::max(m, n)).block(0, 0, m, n);
  const MatrixMN<S> a = Q, b = gaussian<S>(c.r, m, n), z = Dyn<S>::Zero(m, n);
  ASK(a.IsSquare(), false, "square", "%dx%d", m, n);
  ASK(a.IsOrthogonal() || b.IsOrthogonal() || z.IsOrthogonal(), false, "orthogonal-rectangular", "%dx%d granted", m, n);
  bool s = true;
  if (c.r.chance(0.05)) { s = !refused(observe([&]() { if (!(a.IsSymmetric() || z.IsSymmetric())) throw 1; })); }
  else s = a.IsSymmetric() || b.IsSymmetric() || z.IsSymmetric();
  ASK(s, false, "symmetric-rectangular", "%dx%d granted", m, n);
  c.obs(m > n ? "rectangular/tall" : "rectangular/wide");
}
static void rect_psd(Case &c) {
  const std::string t = "MN-double";
  int m = (int) c.r.range(1, 7), n = (int) c.r.range(1, 7);
  if (m == n) n++;
  const MatrixMN<double> a = gaussian<double>(c.r, m, n), z = Dyn<double>::Zero(m, n);
  ASK(a.IsPositiveSemiDefinite() || z.IsPositiveSemiDefinite(), false, "psd-rectangular", "%dx%d granted", m, n);
}
static int size_of(Rng &r) { return (int) r.range(1, r.chance(0.1) ? (r.chance(0.05) ? 90 : 20) : 7); }
template<class S> void all_mn(Case &c) {
  std::string t = "MN-" + Nm<S>::s();
  int n = size_of(c.r), m = c.r.chance(0.5) ? n : size_of(c.r);
  symmetric<MatrixMN<S>, S>(c, n, t);
  orthogonal<MatrixMN<S>, S>(c, n, t);
  identity<MatrixMN<S>, S>(c, n, t);
  access<MatrixMN<S>, S>(c, m, n, t);
  symmetrise<MatrixMN<S>, S>(c, n, t);
  rectangular<S>(c, t);
  c.obs("class/" + t);
}
#if IN_PART(1)
SECTION(mn_double, 4000, 80000) {
  all_mn<double>(c);
  int n = size_of(c.r), m = c.r.chance(0.5) ? n : size_of(c.r);
  equality<MatrixMN<double>, double>(c, m, n, "MN-double");
  psd<MatrixMN<double>, double>(c, n, "MN-double");
  rect_psd(c);
  const std::string t = "MN-double";  // identity with an explicit tolerance
  double e = std::pow(10., c.r.uni(-10, -1));
  int i = (int) c.r.range(0, n - 1), j = (int) c.r.range(0, n - 1);
  Dyn<double> B = Dyn<double>::Identity(n, n);
  B(i, j) += 0.2 * e * c.r.sign();
  { const MatrixMN<double> b = B; ASK(b.IsIdentity(e), true, "identity-eps", "perturbation of a fifth of the tolerance denied"); }
  B = Dyn<double>::Identity(n, n);
  B(i, j) += 5 * e * c.r.sign();
  { const MatrixMN<double> b = B; ASK(b.IsIdentity(e), false, "identity-eps", "perturbation of five times the tolerance granted at (%d,%d)", i, j); }
}
#endif
#if IN_PART(2)
SECTION(mn_complex, 2000, 40000) { all_mn<cd>(c); }
#endif
#if IN_PART(3)
SECTION(mn_float, 1000, 20000) {
  all_mn<float>(c);
  int n = size_of(c.r);
  equality<MatrixMN<float>, float>(c, n, n, "MN-float");
}
#endif
#if IN_PART(4) || IN_PART(5)
template<template<class> class MT, int N, class S> void all_fixed(Case &c, const std::string &nm) {
  std::string t = nm + "-" + Nm<S>::s();
  symmetric<MT<S>, S>(c, N, t);
  orthogonal<MT<S>, S>(c, N, t);
  identity<MT<S>, S>(c, N, t);
  access<MT<S>, S>(c, N, N, t);
  symmetrise<MT<S>, S>(c, N, t);
  c.obs("class/" + t);
}
#endif
#if IN_PART(4)
SECTION(m33, 3000, 40000) {
  all_fixed<Matrix33, 3, double>(c, "33");
  if (c.r.chance(0.4)) all_fixed<Matrix33, 3, cd>(c, "33");
  equality<Matrix33<double>, double>(c, 3, 3, "33-double");
  psd<Matrix33<double>, double>(c, 3, "33-double");
}
#endif
#if IN_PART(5)
SECTION(m66, 2000, 40000) {
  all_fixed<Matrix66, 6, double>(c, "66");
  if (c.r.chance(0.4)) all_fixed<Matrix66, 6, cd>(c, "66");
  equality<Matrix66<double>, double>(c, 6, 6, "66-double");
  psd<Matrix66<double>, double>(c, 6, "66-double");
}
#endif
}  // namespace mon
MON_MAIN
