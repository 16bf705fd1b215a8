// matrices and vectors; the operations are spread over translation units (MATPART) to keep compilation short
#include "mat_ref.h"
#include "c29_prog.h"
namespace mon { namespace o3 {
using namespace mathutils;
inline MatrixMN<double> rm(Rng &r, int m, int n) { MatrixMN<double> A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = twisted(r.gauss()); return A; }
template<class F> struct Mat : Obj {
  std::unique_ptr<MatrixMN<double>> A;
  explicit Mat(Rng &r) : A(new MatrixMN<double>(rm(r, hsize(r, 1, 9), hsize(r, 1, 9)))) {}
  Mat() {}
  void step(Rng &r, Dig &d) override {
    MatrixMN<double> &M = *A;
    switch (r.range(0, 9)) {
      case 0: case 1: M = rm(r, hsize(r, 1, 9), hsize(r, 1, 9)); break;
      case 2: { int n = hsize(r, 1, 9); M = rm(r, n, n); break; }
      case 3: M.Transpose(); break;
      case 4: M = M; { MatrixMN<double> B(std::move(M)); M = B; } break;
      default: F::op(r, d, M);
    }
  }
  void eval(Rng &r, Dig &d) const override { F::look(r, d, *A); }
  bool shareable() const override { return true; }
  Obj *clone(Rng &r) override { Mat *o = new Mat(); o->A.reset(new MatrixMN<double>(*A)); return o; }
};
struct NoLook { static void look(Rng &r, Dig &d, const MatrixMN<double> &M) { d.add(M.at((unsigned) r.range(0, M.rows() - 1), (unsigned) r.range(0, M.cols() - 1))); } };
#if MATPART == 1
struct FacOps : NoLook {
  static void op(Rng &r, Dig &d, MatrixMN<double> &M) {
    int m = (int) M.rows(), n = (int) M.cols();
    MatrixMN<double> P, Q, S;
    switch (r.range(0, 2)) {
      case 0: if (m >= n) { M.GetQRDecomposition(P, Q); d.mat(P); d.mat(Q); M.GetFullQRDecomposition(P, Q); d.mat(P); d.mat(Q); } break;
      case 1: if (m == n) { M.GetLUDecomposition(P, Q, S); d.mat(P); d.mat(Q); d.mat(S); } break;
      default: { MatrixMN<double> B = M * M.transpose(); B += MatrixMN<double>::Identity(m, m); B.GetCholeskyDecomposition(P); d.mat(P); MatrixMN<double> v = rm(r, m, 1); P.GetCholeskyUpdate(Q, v, 1.); d.mat(Q); P.InPlaceCholeskyUpdate(v, 1.); d.mat(P); }
    }
  }
};
typedef Mat<FacOps> MatF;
OBJECT("MatrixMN-factorisations", MatF)
struct Vec : Obj {
  VectorN<double> v; Vector2d<double> a; Vector3d<double> b; Vector6d<double> e;
  void fillv(Rng &r) { v = VectorN<double>(hsize(r, 1, 30)); for (int i = 0; i < v.size(); i++) v.at(i) = twisted(r.value()); a.Set(twisted(r.value()), r.value()); b.Set(r.value(), r.value(), r.value() + 10); for (int i = 0; i < 6; i++) e.at(i) = r.value(); }
  explicit Vec(Rng &r) { fillv(r); }
  Vec() {}
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 6)) {
      case 0: fillv(r); break;
      case 1: v.Sort(r.chance(0.5)); break;
      case 2: v.Reverse(); break;
      case 3: { Vector2d<double> o; double t = r.value(); ANGLE_UNIT u = r.chance(0.5) ? DEG : RAD; a.ProjectLocalOnNED(o, t, u); d.mat(o); a.ProjectNEDOnLocal(t, u); d.mat(a); a.SetNEDFromLocal(1, 2, t, u); d.mat(a); break; }
      case 4: { Vector3d<double> z; Vector6d<double> w; Vector2d<double> y; d.mat(z); d.mat(w); d.mat(y); z.SetNull(); w.SetNull(); y.SetNull(); b.Normalize(); d.add(b.IsUnit()); break; }
      default: eval(r, d);
    }
    if (printing()) { v.print("v"); a.print("a"); b.print("b"); e.print("e"); std::cout << v << a << b << e; }
  }
  void eval(Rng &r, Dig &d) const override {
    d.mat(v); d.mat(a); d.mat(b); d.mat(e); d.add(v.infNorm()); d.add(a.infNorm()); d.add(b.infNorm()); d.add(e.infNorm());
    d.mat(v.GetMatrixSquare()); d.mat(v.GetDiagonalMatrix()); d.mat(outer(b, b)); d.mat(outer(e, e)); d.add(inner(b, b)); d.add(inner(e, e));
    d.add(b.GetProjectedAngleAroundX(DEG)); d.add(b.GetProjectedAngleAroundY(RAD)); d.add(b.GetProjectedAngleAroundZ(DEG));
  }
  bool shareable() const override { return true; }
  Obj *clone(Rng &r) override { Vec *o = new Vec(); o->v = v; o->a = a; o->b = b; o->e = e; return o; }
};
OBJECT("vectors", Vec)
REFUSAL(qr_wide) { MatrixMN<double> A = rm(r, 3, 5), Q, R; A.GetQRDecomposition(Q, R); }
REFUSAL(lu_rectangular) { MatrixMN<double> A = rm(r, 3, 4), P, L, U; A.GetLUDecomposition(P, L, U); }
REFUSAL(cholesky_indefinite) { MatrixMN<double> A = rm(r, 4, 4), L; A = A + A.transpose().eval(); A(0, 0) = -3; A.GetCholeskyDecomposition(L); }
REFUSAL(cholesky_rectangular) { MatrixMN<double> A = rm(r, 4, 3), L; A.GetCholeskyDecomposition(L); }
#elif MATPART == 2
struct SvdOps : NoLook {
  static void op(Rng &r, Dig &d, MatrixMN<double> &M) {
    int m = (int) M.rows(), n = (int) M.cols();
    MatrixMN<double> P, Q, S;
    switch (r.range(0, 2)) {
      case 0: M.GetSVDDecomposition(P, Q, S); d.mat(P); d.mat(Q); d.mat(S); d.mat(M.GetPseudoInverse()); d.mat(Pinv(M)); break;
      case 1: d.mat(M.LeastSquareSolver(rm(r, m, hsize(r, 1, 3)))); break;
      default: if (m > n && n > 1) { int p = (int) r.range(1, n - 1); d.mat(M.LeastSquareSolverConstraint(rm(r, m, 1), rm(r, p, n), rm(r, p, 1))); }
    }
  }
};
typedef Mat<SvdOps> MatS;
OBJECT("MatrixMN-least-squares", MatS)
REFUSAL(constrained_sizes) { MatrixMN<double> A = rm(r, 3, 3); auto e = A.LeastSquareSolverConstraint(rm(r, 3, 1), rm(r, 1, 3), rm(r, 1, 1)); (void) e; }
#elif MATPART == 3
struct SolOps {
  static void op(Rng &r, Dig &d, MatrixMN<double> &M) {
    int m = (int) M.rows(), n = (int) M.cols();
    if (m != n) return;
    switch (r.range(0, 2)) {
      case 0: d.mat(M.LUSolver(rm(r, n, hsize(r, 1, 4)))); d.mat(M.QRSolver(rm(r, n, 1))); break;
      case 1: d.mat(M.Eigenvalues()); d.mat(MakeSymmetricFromUpper(M)); d.mat(MakeSymmetricFromLower(M)); break;
      default: { MatrixMN<double> B = M; for (int i = 0; i < n; i++) B(i, i) += 10; d.mat(B.GetInverse()); B.Inverse(); d.mat(B); }
    }
  }
  static void look(Rng &r, Dig &d, const MatrixMN<double> &M) {
    unsigned i = (unsigned) r.range(0, M.rows() - 1), j = (unsigned) r.range(0, M.cols() - 1);
    d.add(M.at(i, j)); d.mat(M.GetColumn(j)); d.mat(M.GetRow(i)); d.mat(M.GetDiag()); d.mat(Transpose(M)); d.add(M.GetNbRows()); d.add(M.GetNbCols());
    d.add(M.IsSymmetric()); d.add(M.IsIdentity()); d.add(M.IsSquare()); d.add(M.IsOrthogonal()); d.add(M.IsEqual(M)); d.add(M.IsIdentity(1e-3)); d.add(M.IsPositiveSemiDefinite());
  }
};
typedef Mat<SolOps> MatE;
OBJECT("MatrixMN-solvers", MatE)
REFUSAL(eigenvalues_rectangular) { MatrixMN<double> A = rm(r, 4, 3); auto e = A.Eigenvalues(); (void) e; }
#elif MATPART == 4
// (SVD-based and solver members of the fixed-size classes run under AddressSanitizer in C14 and C15)
template<class M, int N> struct Fix : Obj {
  M A;
  explicit Fix(Rng &r) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(i, j) = twisted(r.gauss()) + (i == j ? 4 : 0); }
  Fix() {}
  void step(Rng &r, Dig &d) override {
    M P, Q, S;
    switch (r.range(0, 6)) {
      case 0: A.GetQRDecomposition(P, Q); d.mat(P); d.mat(Q); break;
      case 1: A.GetLUDecomposition(P, Q, S); d.mat(P); d.mat(Q); d.mat(S); break;
      case 3: { M B = A * A.transpose(); B.GetCholeskyDecomposition(P); d.mat(P); break; }
      case 4: { M B = A; B.Inverse(); d.mat(B); d.mat(A.GetInverse()); B.Transpose(); B.SetNull(); B.SetIdentity(); d.add(B.IsIdentity()); break; }
      default: eval(r, d);
    }
    if (printing()) { A.print("M"); std::cout << A; }
  }
  void eval(Rng &r, Dig &d) const override {
    d.add(A.at((unsigned) r.range(0, N - 1), (unsigned) r.range(0, N - 1)));
    d.add(A.GetNbRows()); d.add(A.GetNbCols()); d.add(A.IsSymmetric()); d.add(A.IsIdentity()); d.add(A.IsSquare()); d.add(A.IsOrthogonal()); d.add(A.IsPositiveSemiDefinite()); d.add(A.IsEqual(A));
  }
  bool shareable() const override { return true; }
  Obj *clone(Rng &r) override { Fix *o = new Fix(); o->A = A; return o; }
};
#ifdef MATFIX6
typedef Fix<Matrix66<double>, 6> Fix6;
OBJECT("Matrix66", Fix6)
#else
typedef Fix<Matrix33<double>, 3> Fix3;
OBJECT("Matrix33", Fix3)
#endif
#endif
}}  // namespace mon::o3
