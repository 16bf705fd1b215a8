// Chebyshev and power series, special functions
#include "series_ref.h"
#include "c29_prog.h"
namespace mon { namespace o4 {
// copies of the series by their own types
template<class B, class T> B *copy_as(const B &b) { auto d = dynamic_cast<const T *>(&b); return d ? new T(*d) : nullptr; }
template<class B, class T0, class T1, class T2> B *copy_of(const B &b) { B *p = copy_as<B, T0>(b); if (!p) p = copy_as<B, T1>(b); if (!p) p = copy_as<B, T2>(b); return p; }
struct Ser : Obj {
  std::unique_ptr<Series> s;
  bool pow = false;
  std::vector<MatrixMN<double>> cij;
  explicit Ser(Rng &r) : s(new Series(r, (int) r.range(1, 3))) {
    orders(r, s->dim, s->n, 12, 220);
    double w = twisted(r.uni(0.2, 2));
    s->make_cheb([w](const double *p) { return std::cos(w * std::atan(p[0])); });
    s->compute();
  }
  void copies(bool drop) {  // the series replaced by a copy of itself, the original gone
    typedef double D;
    if (s->s1) { auto c = copy_of<ChebyshevSeries1dBase<D>, ChebyshevSeries1dClosed<D>, ChebyshevSeries1dOpened<D>, ChebyshevSeries1dOpened<D>>(*s->s1); if (drop) s->s1.reset(c); else delete c; }
    if (s->s2) { auto c = copy_of<ChebyshevSeries2dBase<D>, ChebyshevSeries2dClosed<D>, ChebyshevSeries2dOpened<D>, ChebyshevSeries2dMixed<D>>(*s->s2); if (drop) s->s2.reset(c); else delete c; }
    if (s->s3) { auto c = copy_of<ChebyshevSeries3dBase<D>, ChebyshevSeries3dClosed<D>, ChebyshevSeries3dYZOpenedXClosed<D>, ChebyshevSeries3dZOpenedXYClosed<D>>(*s->s3); if (drop) s->s3.reset(c); else delete c; }
    if (s->p1) { auto c = copy_of<PowerSeries1dBase<D>, PowerSeries1dClosed<D>, PowerSeries1dOpened<D>, PowerSeries1dOpened<D>>(*s->p1); if (drop) s->p1.reset(c); else delete c; }
    if (s->p2) { auto c = copy_of<PowerSeries2dBase<D>, PowerSeries2dClosed<D>, PowerSeries2dOpened<D>, PowerSeries2dMixed<D>>(*s->p2); if (drop) s->p2.reset(c); else delete c; }
    if (s->p3) { auto c = copy_of<PowerSeries3dBase<D>, PowerSeries3dClosed<D>, PowerSeries3dYZOpenedXClosed<D>, PowerSeries3dZOpenedXYClosed<D>>(*s->p3); if (drop) s->p3.reset(c); else delete c; }
  }
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 5)) {
      case 0: s->compute(); break;
      case 1: if (!pow) { s->power_coefs(); s->make_power(); pow = true; } break;
      case 2: if (pow && s->dim == 3) { const char *k; double z = s->ax[2].pick(r, &k); cij.push_back(r.chance(0.3) ? s->p3->Compute_cij_zinf() : s->p3->Compute_cij(z)); d.mat(cij.back()); } break;
      case 3: copies(r.chance(0.7)); break;
      default: eval(r, d);
        if (pow && s->dim == 3) { auto &P = *s->p3; d.add(P.order_x()); d.add(P.order_y()); d.add(P.order_z()); d.add(P.xmin()); d.add(P.ymin()); d.add(P.zmin()); d.add(P.type()); for (auto &m : P.bijk()) d.mat(m); }
    }
  }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override {
    double p[3] = {0, 0, 0};
    const char *k;
    for (int a = 0; a < s->dim; a++) p[a] = s->ax[a].pick(r, &k);
    for (int der = -1; der < s->dim; der++) { d.add(s->cheb(p, der)); if (pow) d.add(s->power(p, der)); }
    if (pow && s->dim == 3) {
      double f, fx, fy;
      s->p3->Evaluate_f_dfdx_dfdy(p[0], p[1], p[2], f, fx, fy); d.add(f); d.add(fx); d.add(fy);
      d.add(s->p3->Evaluate_zinf(p[0], p[1])); d.add(s->p3->Evaluate_derivative_x_zinf(p[0], p[1])); d.add(s->p3->Evaluate_derivative_y_zinf(p[0], p[1]));
      if (!cij.empty()) {
        auto &c = r.pick(cij);
        d.add(s->p3->Evaluate_z_predefined(p[0], p[1], c)); d.add(s->p3->Evaluate_derivative_x_z_predefined(p[0], p[1], c)); d.add(s->p3->Evaluate_derivative_y_z_predefined(p[0], p[1], c));
        s->p3->Evaluate_f_dfdx_dfdy_z_predefined(p[0], p[1], c, f, fx, fy); d.add(f); d.add(fx); d.add(fy);
      }
    }
  }
};
OBJECT("series", Ser)
struct Spec : Obj {
  explicit Spec(Rng &) {}
  void step(Rng &r, Dig &d) override { eval(r, d); }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override {
    double x = std::exp(r.uni(-8, 5)); int n = (int) r.range(0, 20);
    d.add(Cyl_Bessel_first_kind<int, double, double>(n, x)); d.add(Cyl_Bessel_second_kind<int, double, double>(n, x + 1));
    d.add(Struve_zero_order<double>(x)); d.add(Struve_first_order<double>(x));
    d.add(Ei_approximation<double>(std::min(x, 300.))); d.add(E1_approximation<double>(x)); d.add(expEi<double>(x));
    double u = r.uni(-1, 1);
    d.add(Legendre_polynomial<int, double>(n, u)); d.add(Chebyshev_polynomial<int, double>(n, u)); d.add(Chebyshev_polynomial_derivative<int, double>(n, u));
    d.add((double) Factorial<int, double>(n)); d.add(Gamma<double>(std::min(x, 60.) + 0.5));
    d.add(Cyl_Bessel_first_kind_derivative<int, double, double>(n, x)); d.add(Cyl_Bessel_second_kind_derivative<int, double, double>(n, x + 1));
    d.add(Cyl_modified_Bessel_first_kind<int, double, double>(n, x)); d.add(Cyl_modified_Bessel_first_kind_derivative<int, double, double>(n, x));
    d.add(Cyl_modified_Bessel_second_kind<int, double, double>(n, x + 1)); d.add(Cyl_modified_Bessel_second_kind_derivative<int, double, double>(n, x + 1));
    d.add(Cyl_Hankel_first_kind<int, double>(n, x + 1)); d.add(Cyl_Hankel_first_kind_derivative<int, double>(n, x + 1));
    d.add(Struve_zero_order_derivative<double>(x)); d.add(Legendre_polynomial_derivative<int, double>(n, u)); d.add(Chebyshev_polynomial_shifted<int, double>(n, std::fabs(u)));
    d.add(Chebyshev_polynomial_next<double>(u, 0.5, 0.25)); d.add(Ei<double>(std::min(x, 300.))); d.add(E1<double>(x));
  }
};
OBJECT("special-functions", Spec)
REFUSAL(power_order) { Series s(r, 1); s.n[0] = 19 + (int) r.range(0, 6); s.make_cheb([](const double *) { return 1.; }); s.compute(); s.power_coefs(); }
REFUSAL(struve_negative) { volatile double v = Struve_zero_order<double>(-r.uni(0.1, 5)); (void) v; }
REFUSAL(ei_negative) { volatile double v = Ei_approximation<double>(-r.uni(0.1, 5)); (void) v; }
}}  // namespace mon::o4
