#pragma once
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
template<class S> struct Sc { static S rnd(Rng &r) { return (S) r.gauss(); } static S ival(Rng &r) { return (S) r.range(-4, 4); } };
template<class R> struct Sc<std::complex<R>> {
  static std::complex<R> rnd(Rng &r) { double a = r.gauss(); return {(R) a, (R) r.gauss()}; }
  static std::complex<R> ival(Rng &r) { long a = r.range(-4, 4); return {(R) a, (R) r.range(-4, 4)}; }
};
template<class S> using Dyn = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template<class S> using Re = typename Eigen::NumTraits<S>::Real;
template<class S> Dyn<S> gaussian(Rng &r, int m, int n) { Dyn<S> A(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = Sc<S>::rnd(r); return A; }
template<class S> Dyn<S> orth(Rng &r, int n) { Dyn<S> A = gaussian<S>(r, n, n); Eigen::HouseholderQR<Dyn<S>> q(A); Dyn<S> Q = q.householderQ(); return Q; }
/// arbitrary matrix
template<class S> Dyn<S> any(Rng &r, int m, int n, const char **kind) {
  Dyn<S> A = gaussian<S>(r, m, n);
  switch (r.range(0, 8)) {
    case 0: *kind = "gaussian"; break;
    case 1: *kind = "integers"; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = Sc<S>::ival(r); break;
    case 2: *kind = "sparse"; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (r.chance(0.7)) A(i, j) = S(0); break;
    case 3: { *kind = "graded"; for (int i = 0; i < m; i++) A.row(i) *= (Re<S>) std::pow(10., r.uni(-5, 5)); break; }
    case 4: { *kind = "rank-deficient"; int k = (int) r.range(1, std::min(m, n)); A = gaussian<S>(r, m, k) * gaussian<S>(r, k, n); break; }
    case 5: { *kind = "upper"; for (int j = 0; j < n; j++) for (int i = j + 1; i < m; i++) A(i, j) = S(0); break; }
    case 6: { *kind = "permuted"; Dyn<S> B = Dyn<S>::Zero(m, n); int sh = (int) r.range(0, m - 1); for (int j = 0; j < n; j++) B((j + sh) % m, j) = Sc<S>::rnd(r) + S(3); A = B; break; }
    case 7: *kind = "repeated-columns"; for (int j = 1; j < n; j++) if (r.chance(0.5)) A.col(j) = A.col(j - 1); break;
    default: *kind = "scaled"; A *= (Re<S>) std::pow(10., r.uni(-12, 12)); break;
  }
  return A;
}
/// matrix with prescribed singular values in [1/kappa, 1] * scale
template<class S> Dyn<S> conditioned(Rng &r, int m, int n, double kappa, double scale) {
  int k = std::min(m, n);
  Dyn<S> D = Dyn<S>::Zero(m, n);
  for (int i = 0; i < k; i++) D(i, i) = S((Re<S>) (scale * std::pow(kappa, k == 1 ? 0. : -(double) i / (k - 1))));
  return orth<S>(r, m) * D * orth<S>(r, n);
}
template<class S> Dyn<S> hermitian(Rng &r, const std::vector<double> &ev) {
  int n = (int) ev.size();
  Dyn<S> Q = orth<S>(r, n), D = Dyn<S>::Zero(n, n);
  for (int i = 0; i < n; i++) D(i, i) = S((Re<S>) ev[i]);
  Dyn<S> A = Q * D * Q.adjoint();
  Dyn<S> H = (A + A.adjoint()) * S((Re<S>) 0.5);
  for (int i = 0; i < n; i++) H(i, i) = S(std::real(H(i, i)));
  return H;
}
inline std::string ms(const Eigen::MatrixXd &A) { std::ostringstream o; o.precision(17); o << A.rows() << "x" << A.cols() << " "; if (A.size() <= 36) o << A.format(Eigen::IOFormat(17, Eigen::DontAlignCols, ",", ";")); std::string s = o.str(); return s.substr(0, 900); }
template<class S> std::string msr(const Dyn<S> &A) { Dyn<Re<S>> R = A.real(); return ms(R.template cast<double>()); }
template<class S> LD eps() { return (LD) std::numeric_limits<Re<S>>::epsilon(); }
template<class M> bool upper_tri(const M &A) { for (int j = 0; j < A.cols(); j++) for (int i = j + 1; i < A.rows(); i++) if (std::abs(A(i, j)) != 0) return false; return true; }
template<class M> bool lower_tri(const M &A) { for (int j = 0; j < A.cols(); j++) for (int i = 0; i < std::min<int>(j, A.rows()); i++) if (std::abs(A(i, j)) != 0) return false; return true; }
template<class D> LD nrm(const Eigen::MatrixBase<D> &A) { return (LD) A.norm(); }
}  // namespace mat
