// integration, transforms, splines, convolution, generators, helpers, rotations
#include "c29_prog.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
namespace mon { namespace o5 {
using namespace mathutils;
typedef std::complex<double> cd;
static double poly_fn(double x) { return 1 + x * (2 - x); }
struct Int1 : Obj {
  std::unique_ptr<Integrate1d<double>> p;
  explicit Int1(Rng &r) {
    int n = hsize(r, 2, 300);
    double a = r.value();
    if (r.chance(0.5)) p.reset(new Integrate1d<double>(poly_fn, a, a + r.uni(0.1, 5), (unsigned) n));
    else p.reset(new Integrate1d<double>(rvec<double>(r, n), a, a + r.uni(0.1, 5), (unsigned) n));
  }
  Int1() {}
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 3)) {
      case 0: p->SetXmin(p->GetXmax() - r.uni(0.1, 3)); break;
      case 1: p->SetXmax(p->GetXmin() + r.uni(0.1, 3)); break;
      case 2: p->SetIntegrationMethod(TRAPEZOIDAL); d.add((int) p->GetIntegrationMethod()); break;
      default: break;
    }
    d.add(p->Get());
    int n = hsize(r, 2, 50);
    auto x = sorted_axis(r, n); auto y = rvec<double>(r, n);
    d.add(Trapz(x, y)); d.add(Trapz(y, 0.5));
  }
  Obj *clone(Rng &r) override { Int1 *o = new Int1(); o->p.reset(new Integrate1d<double>(*p)); return o; }
};
OBJECT("Integrate1d", Int1)
template<class T> struct Fn : Integrand<T> { std::vector<double> c; T Evaluate(const Vector3d<double> &x) const override { return T(c.at(0) + c.at(1) * x[0] + c.at(2) * x[1] * x[2]); } };
template<class T> struct Tri : Obj {
  std::unique_ptr<Integrand<T>> f; std::unique_ptr<Integration2d<T>> q;
  explicit Tri(Rng &r) { auto g = new Fn<T>(); g->c = rvec<double>(r, 3); f.reset(g); q.reset(new Integration2dTriangle<T>(f.get(), (int) r.range(1, 8))); }
  void step(Rng &r, Dig &d) override { if (r.chance(0.2)) q.reset(new Integration2dTriangle<T>(f.get(), (int) r.range(1, 8))); eval(r, d); }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override {
    Vector3d<double> v[3];
    for (auto &p : v) for (int k = 0; k < 3; k++) p[k] = r.value();
    d.add(q->Compute(v[0], v[1], v[2]));
  }
};
typedef Tri<double> TriD; typedef Tri<cd> TriC;
OBJECT("Integration2dTriangle", TriD) OBJECT("Integration2dTriangle-complex", TriC)
template<class T> struct Fft : Obj {
  std::unique_ptr<FFT<T>> f; bool half = false;
  explicit Fft(Rng &) : f(new FFT<T>()) { f->HalfSpectrumOFF(); f->ScalingON(); }
  void step(Rng &r, Dig &d) override {
    switch (r.range(0, 4)) { case 0: f->HalfSpectrumON(); half = true; break; case 1: f->HalfSpectrumOFF(); half = false; break; case 2: f->ScalingON(); break; case 3: f->ScalingOFF(); break; default: break; }
    int n = hsize(r, 2, r.chance(0.02) ? 5000 : 130);
    if (half && n % 2) n++;
    auto x = rvec<T>(r, n);
    std::vector<std::complex<T>> s((size_t) r.range(0, 5)); std::vector<T> y, w;
    if (r.chance(0.5)) f->fft(s, x); else { f->fft(s, w, x, (T) 10, RADS); d.add(w); }
    d.add(s);
    f->ifft(y, s); d.add(y);
    d.add(f->GetFrequencyVector((unsigned) n, (T) 3));
  }
};
typedef Fft<double> FftD; typedef Fft<float> FftF;
OBJECT("FFT", FftD) OBJECT("FFT-float", FftF)
template<int Deg> struct Spl : Obj {
  std::unique_ptr<Spline<double, 1, Deg>> s; std::vector<double> x;
  explicit Spl(Rng &r) {
    int n = hsize(r, 2, 30);
    x = sorted_axis(r, n);
    auto y = rvec<double>(r, n);
    if (r.chance(0.5)) s.reset(new Spline<double, 1, Deg>(x, y));
    else { Eigen::VectorXd X = Eigen::Map<Eigen::VectorXd>(x.data(), n), Y = Eigen::Map<Eigen::VectorXd>(y.data(), n); s.reset(new Spline<double, 1, Deg>(X, Y)); }
  }
  Spl() {}
  void step(Rng &r, Dig &d) override { eval(r, d); }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override { for (int k = 0; k < 4; k++) d.add((*s)(query_in(r, x))); }
  Obj *clone(Rng &r) override { Spl *o = new Spl(); o->s.reset(new Spline<double, 1, Deg>(*s)); o->x = x; return o; }
};
typedef Spl<1> Spl1; typedef Spl<3> Spl3;
OBJECT("Spline-1", Spl1) OBJECT("Spline-3", Spl3)
struct Conv : Obj {
  std::vector<double> k; boost::circular_buffer<double> b;
  explicit Conv(Rng &r) { k = rvec<double>(r, hsize(r, 2, r.chance(0.03) ? 4000 : 40)); b.set_capacity(k.size() + (size_t) r.range(0, 20)); while (b.size() < k.size()) b.push_back(r.value()); }
  Conv() {}
  void step(Rng &r, Dig &d) override { for (long i = r.range(0, 30); i > 0; i--) if (r.chance(0.5)) b.push_front(r.value()); else b.push_back(r.value()); eval(r, d); }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override { d.add(NaiveConvolution<double>(k, b, 0.1, true)); d.add(NaiveConvolution<double>(k, b, 0.1, false)); }
  Obj *clone(Rng &r) override { Conv *o = new Conv(); o->k = k; o->b = b; return o; }
};
OBJECT("NaiveConvolution", Conv)
struct Gen : Obj {
  explicit Gen(Rng &) {}
  void step(Rng &r, Dig &d) override { eval(r, d); }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override {
    double a = r.value(), b = a + r.uni(0.1, 10);
    auto x = linspace<double>(a, b, (unsigned) hsize(r, 2, 60));
    d.add(x); d.add(logspace<double>(-1., 2., (unsigned) hsize(r, 2, 20))); d.add(arange<double>(a, b, r.uni(0.05, 3)));
    d.add(Sinc(x)); d.add(Heaviside(x, (a + b) / 2)); d.add(Door(x, a + 0.1 * (b - a), b)); d.add(Dirac(x, x.back())); d.add(Ramp(x, a, b, 0., 1.));
    int n = hsize(r, 0, r.chance(0.03) ? 9000 : 30);
    auto u = rvec<double>(r, n), v = rvec<double>(r, n);
    d.add(Add(u, v)); d.add(Minus(u, v)); d.add(Mult(u, v)); { auto g = u; Negate(g); d.add(g); }
    auto w = rvec<cd>(r, n);
    d.add(Real(w)); d.add(Imag(w)); d.add(Amplitude(w)); d.add(Phase(w, DEG));
    d.add(Normalize_0_360(r.logmag(1e-9, 1e5))); d.add(Normalize__PI_PI(r.logmag(1e-9, 1e5)));
    for (auto &z : v) z = std::fabs(z) + 1;
    d.add(Divide(u, v));
    std::vector<double> t = u; deg2rad(t); d.add(t); rad2deg(t); d.add(t);
    d.add(convert_velocity_unit(a, KNOT, KMH)); d.add(convert_frequency(b + 20, RPM, S));
    std::vector<double> co = rvec<double>(r, hsize(r, 1, 30));
    d.add(Horner<double>(co, r.uni(-2, 2))); d.add(Horner_derivative<double>(co, r.uni(-2, 2)));
    d.add(convert_velocity_unit(a, MS, KNOT)); d.add(convert_velocity_unit(a, KMH, MS)); d.add(KNOT2KMH(a)); d.add(KMH2KNOT(a));
    { static const FREQUENCY_UNIT fu[] = {HERTZ, RADS, DEGS, DEGM, S, RPM}; FREQUENCY_UNIT f0 = fu[r.range(0, 5)], f1 = fu[r.range(0, 5)]; d.add(convert_frequency(b + 20, f0, f1)); }
    { auto g = u; kt2ms(g); d.add(g); std::vector<double> h; deg2rad(u, h); d.add(h); kt2ms(u, h); d.add(h); rad2deg(u, h); d.add(h); }
    d.add(Normalize_0_2PI(r.logmag(1e-9, 1e5))); d.add(Normalize__180_180(r.logmag(1e-9, 1e5))); d.add(modulo360(a)); d.add(modulo2pi(a)); d.add((int) STRING2ANGLE(r.chance(0.5) ? "DEG" : "RAD"));
    d.add(AddScalar(u, 1.5)); d.add(Sum(u)); { auto g = v; Pow(g, 2.5); d.add(g); Scale(g, 0.5); d.add(g); }
    d.add(IsClose(u, v)); d.add(IsClose(a, b)); AssertIsClose(a, a); AssertIsClose(u, u); d.add(is_even<int>((int) r.range(-9, 9))); d.add(Pow2((unsigned) r.range(0, 30)));
    d.add(Sinc<double>(a, b, (unsigned) hsize(r, 2, 20)));
    { Vector2d<double> q(a, b), o; double t = r.uni(-7, 7); ANGLE_UNIT un = r.chance(0.5) ? DEG : RAD;
      d.mat(GetNEDVelocityVector<double>(a, b, t, un)); d.add(q.ProjectOnNorthAxis(t, un)); d.add(q.ProjectOnEastAxis(t, un)); d.add(q.ProjectOnLocalXAxis(t, un)); d.add(q.ProjectOnLocalYAxis(t, un));
      q.TransportAtPoint(o, Vector2d<double>(1, 2), t); d.mat(o); d.mat(ProjectLocalOnNED(q, t, un)); d.mat(ProjectNEDOnLocal(q, t, un)); d.mat(TransportAtPoint(q, o, t)); }
    d.add(is_odd<int>((int) r.range(-9, 9))); d.add(sgn(a)); d.add(Saturate(a, -1., 1.)); d.add(SgnSqrt(a));
  }
};
OBJECT("generators-and-helpers", Gen)
struct Rot : Obj {
  explicit Rot(Rng &) {}
  void step(Rng &r, Dig &d) override { eval(r, d); }
  bool shareable() const override { return true; }
  void eval(Rng &r, Dig &d) const override {
    Eigen::Vector3d e(r.uni(-7, 7), r.chance(0.2) ? 1.5707963267948966 : r.uni(-7, 7), r.uni(-7, 7));
    Eigen::Matrix3d R = eulerAnglesZYXToRotationMatrix(e);
    Eigen::Quaterniond q = eulerAnglesZYXToQuaternion(e), p = RotationMatrixToQuaternion(R);
    d.mat(R); d.mat(q.coeffs()); d.mat(p.coeffs()); d.mat(rotationMatrixToEulerAnglesZYX(R)); d.mat(quaternionToEulerAnglesZYX(q)); d.mat(quaternionToRotationMatrix(q));
  }
};
OBJECT("rotations", Rot)
REFUSAL(linspace_one) { auto v = linspace<double>(0., 1., (unsigned) r.range(0, 1)); (void) v; }
REFUSAL(linspace_reversed) { auto v = linspace<double>(1., 0., 5); (void) v; }
REFUSAL(arange_step) { auto v = arange<double>(0., 1., -r.uni(0, 1)); (void) v; }
REFUSAL(add_sizes) { auto v = Add(rvec<double>(r, 3), rvec<double>(r, (int) (r.chance(0.5) ? 2 : 4))); (void) v; }
REFUSAL(divide_sizes) { auto v = Divide(rvec<double>(r, 5), rvec<double>(r, (int) (r.chance(0.5) ? 4 : 6))); (void) v; }
REFUSAL(convolution_short) { boost::circular_buffer<double> b(10); for (int i = 0; i < 4; i++) b.push_back(1); volatile double v = NaiveConvolution<double>(rvec<double>(r, 5 + (int) r.range(0, 20)), b, 0.1, r.chance(0.5)); (void) v; }
REFUSAL(triangle_order) { Fn<double> f; f.c = {1, 1, 1}; Integration2dTriangle<double> q(&f, r.chance(0.5) ? 9 + (int) r.range(0, 3) : -(int) r.range(0, 3)); }
REFUSAL(newton_cotes) { Integrate1d<double> p(poly_fn, 0, 1, 10); p.SetIntegrationMethod(NEWTON_COTES); volatile double v = p.Get(); (void) v; }
REFUSAL(angle_unit) { volatile int u = STRING2ANGLE("GRAD"); (void) u; }
}}  // namespace mon::o5
