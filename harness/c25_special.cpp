// C25: special functions against long-double evaluations and their identities
#include "mon.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
#include <boost/math/special_functions/bessel_prime.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
namespace mon {
using namespace mathutils;
static const LD PI_L = 3.141592653589793238462643383279502884L;
static const LD RT = 1e-12L;  // relative tolerance against long-double references
namespace bm = boost::math;
static double arg(Rng &r, const char **k, double top) {
  switch (r.range(0, 5)) {
    case 0: *k = "tiny"; return std::pow(10., r.uni(-8, -2));
    case 1: *k = "order-one"; return r.uni(0.05, 4);
    case 2: *k = "integer"; return (double) r.range(1, 40);
    case 3: *k = "moderate"; return r.uni(1, 40);
    case 4: *k = "large"; return std::pow(10., r.uni(1, std::log10(top)));
    default: *k = "decades"; return std::pow(10., r.uni(-4, 2));
  }
}
static bool rel(LD got, LD ref, LD scale, LD f = 1) {
  if (!(labs_(ref) < 1e300L) || !(labs_(scale) < 1e300L)) return true;        // outside the range of double
  return labs_(got - ref) <= f * RT * std::max(labs_(ref), labs_(scale)) + 1e-300L;
}
#if IN_PART(1)
template<class O> static void bessel(Case &c, O n, double x, const char *tag) {
  LD v = n, X = x;
  LD J = bm::cyl_bessel_j(v, X), Y = bm::cyl_neumann(v, X), dJ = bm::cyl_bessel_j_prime(v, X), dY = bm::cyl_neumann_prime(v, X);
  LD osc = X > v ? sqrtl(J * J + Y * Y) : 0;  // oscillating range: errors scale with the modulus
  LD dosc = X > v ? sqrtl(dJ * dJ + dY * dY) + osc : 0;
  double j = Cyl_Bessel_first_kind<O, double, double>(n, x), y = Cyl_Bessel_second_kind<O, double, double>(n, x);
  double dj = Cyl_Bessel_first_kind_derivative<O, double, double>(n, x), dy = Cyl_Bessel_second_kind_derivative<O, double, double>(n, x);
  std::string t = tag;
  double on = (double) n;
  // phase error of double argument reduction grows with x
  LD f = 1 + X * 1e-4L + v;
  bool fit = labs_(Y) < 1e290L && labs_(dY) < 1e290L;
  CHECK(rel(j, J, osc, f), "J/" + t, "J_%g(%.17g) = %.17g, expected %.17Lg", on, x, j, J);
  CHECK(rel(dj, dJ, dosc, f), "J'/" + t, "J'_%g(%.17g) = %.17g, expected %.17Lg", on, x, dj, dJ);
  if (fit) {
    CHECK(rel(y, Y, osc, f), "Y/" + t, "Y_%g(%.17g) = %.17g, expected %.17Lg", on, x, y, Y);
    CHECK(rel(dy, dY, dosc, f), "Y'/" + t, "Y'_%g(%.17g) = %.17g, expected %.17Lg", on, x, dy, dY);
    // Wronskian J Y' - J' Y = 2/(pi x)
    LD w = (LD) j * dy - (LD) dj * y, ref = 2 / (PI_L * X);
    CHECK(labs_(w - ref) <= 4 * f * RT * (labs_((LD) j * dy) + labs_((LD) dj * y) + osc * dosc) + 1e-300L, "wronskian-JY/" + t, "order %g at %.17g: %.17Lg, expected %.17Lg", on, x, w, ref);
    std::complex<double> h = Cyl_Hankel_first_kind<O, double>(n, x), dh = Cyl_Hankel_first_kind_derivative<O, double>(n, x);
    CHECK(rel(h.real(), J, osc, f) && rel(h.imag(), Y, osc, f), "H/" + t, "H_%g(%.17g) = (%.17g,%.17g), expected (%.17Lg,%.17Lg)", on, x, h.real(), h.imag(), J, Y);
    CHECK(rel(dh.real(), dJ, dosc, f) && rel(dh.imag(), dY, dosc, f), "H'/" + t, "H'_%g(%.17g) = (%.17g,%.17g), expected (%.17Lg,%.17Lg)", on, x, dh.real(), dh.imag(), dJ, dY);
  }
  if (x < 600) {
    LD I = bm::cyl_bessel_i(v, X), K = bm::cyl_bessel_k(v, X), dI = bm::cyl_bessel_i_prime(v, X), dK = bm::cyl_bessel_k_prime(v, X);
    double i = Cyl_modified_Bessel_first_kind<O, double, double>(n, x), di = Cyl_modified_Bessel_first_kind_derivative<O, double, double>(n, x);
    CHECK(rel(i, I, 0, f), "I/" + t, "I_%g(%.17g) = %.17g, expected %.17Lg", on, x, i, I);
    CHECK(rel(di, dI, 0, f), "I'/" + t, "I'_%g(%.17g) = %.17g, expected %.17Lg", on, x, di, dI);
    if (K < 1e290L && labs_(dK) < 1e290L) {
      double k = Cyl_modified_Bessel_second_kind<O, double, double>(n, x), dk = Cyl_modified_Bessel_second_kind_derivative<O, double, double>(n, x);
      CHECK(rel(k, K, 0, f), "K/" + t, "K_%g(%.17g) = %.17g, expected %.17Lg", on, x, k, K);
      CHECK(rel(dk, dK, 0, f), "K'/" + t, "K'_%g(%.17g) = %.17g, expected %.17Lg", on, x, dk, dK);
      // I K' - I' K = -1/x
      LD w = (LD) i * dk - (LD) di * k;
      CHECK(labs_(w * X + 1) <= 8 * f * RT, "wronskian-IK/" + t, "order %g at %.17g: %.17Lg, expected %.17Lg", on, x, w, -1 / X);
    }
  }
  c.nontrivial(H().add(x).add(on).h);
}
SECTION(bessel_integer, 8000, 300000) {
  const char *k;
  double x = arg(c.r, &k, 1e4);
  int n = c.r.chance(0.3) ? (int) c.r.range(0, 2) : (int) c.r.range(0, 25);
  c.obs(std::string("bessel-arg/") + k);
  c.obs(fmt("bessel-order/%d", n));
  bessel<int>(c, n, x, n == 0 ? "order-0" : n == 1 ? "order-1" : "integer-order");
}
#endif
#if IN_PART(2)
SECTION(bessel_real, 3000, 100000) {
  const char *k;
  double x = arg(c.r, &k, 1e3), n = c.r.chance(0.3) ? 0.5 * (double) c.r.range(0, 20) : c.r.uni(0, 12);
  if (c.r.chance(0.2)) { n = std::pow(10., c.r.uni(-7, -1)); c.obs("bessel-tiny-order"); }
  else if (c.r.chance(0.1)) { n = (double) c.r.range(1, 6) + c.r.logmag(1e-7, 1e-2); c.obs("bessel-near-integer-order"); }
  c.obs("bessel-real-order");
  LD v = n, X = x, J = bm::cyl_bessel_j(v, X), Y = bm::cyl_neumann(v, X), dJ = bm::cyl_bessel_j_prime(v, X), dY = bm::cyl_neumann_prime(v, X);
  LD osc = X > v ? sqrtl(J * J + Y * Y) : 0, dosc = X > v ? sqrtl(dJ * dJ + dY * dY) + osc : 0, f = 2 + X * 1e-4L + v;
  // orders below one make J_{n-1} and n/x J_n cancel at small arguments; errors scale with the terms
  LD cj = labs_(n / X * J), cy = labs_(n / X * Y);
  CHECK(rel(Cyl_Bessel_first_kind<double, double, double>(n, x), J, osc, f), "J/real-order", "J_%.17g(%.17g), expected %.17Lg", n, x, J);
  CHECK(rel(Cyl_Bessel_first_kind_derivative<double, double, double>(n, x), dJ, dosc + cj, f), "J'/real-order", "J'_%.17g(%.17g), expected %.17Lg", n, x, dJ);
  if (labs_(Y) < 1e290L && labs_(dY) < 1e290L) {
    CHECK(rel(Cyl_Bessel_second_kind<double, double, double>(n, x), Y, osc, f), "Y/real-order", "Y_%.17g(%.17g), expected %.17Lg", n, x, Y);
    CHECK(rel(Cyl_Bessel_second_kind_derivative<double, double, double>(n, x), dY, dosc + cy, f), "Y'/real-order", "Y'_%.17g(%.17g), expected %.17Lg", n, x, dY);
  }
  if (x < 600) {
    LD I = bm::cyl_bessel_i(v, X), dI = bm::cyl_bessel_i_prime(v, X), K = bm::cyl_bessel_k(v, X), dK = bm::cyl_bessel_k_prime(v, X);
    CHECK(rel(Cyl_modified_Bessel_first_kind<double, double, double>(n, x), I, 0, f), "I/real-order", "I_%.17g(%.17g), expected %.17Lg", n, x, I);
    CHECK(rel(Cyl_modified_Bessel_first_kind_derivative<double, double, double>(n, x), dI, labs_(n / X * I), f), "I'/real-order", "I'_%.17g(%.17g), expected %.17Lg", n, x, dI);
    if (K < 1e290L && labs_(dK) < 1e290L) {
      CHECK(rel(Cyl_modified_Bessel_second_kind<double, double, double>(n, x), K, 0, f), "K/real-order", "K_%.17g(%.17g), expected %.17Lg", n, x, K);
      CHECK(rel(Cyl_modified_Bessel_second_kind_derivative<double, double, double>(n, x), dK, 0, f), "K'/real-order", "K'_%.17g(%.17g), expected %.17Lg", n, x, dK);
    }
  }
  c.nontrivial(H().add(x).add(n).h);
}
SECTION(bessel_symmetry, 3000, 60000) {  // negative integer orders and negative arguments
  const char *k;
  double x = arg(c.r, &k, 1e3);
  int n = (int) c.r.range(0, 12);
  LD v = n, X = x, s = n % 2 ? -1 : 1;
  LD J = bm::cyl_bessel_j(v, X), Y = bm::cyl_neumann(v, X), dJ = bm::cyl_bessel_j_prime(v, X), dY = bm::cyl_neumann_prime(v, X);
  LD osc = X > v ? sqrtl(J * J + Y * Y) : 0, dosc = X > v ? sqrtl(dJ * dJ + dY * dY) + osc : 0, f = 2 + X * 1e-4L + v;
  CHECK(rel(Cyl_Bessel_first_kind<int, double, double>(n, -x), s * J, osc, f), "J/negative-argument", "J_%d(%.17g), expected %.17Lg", n, -x, s * J);
  CHECK(rel(Cyl_Bessel_first_kind_derivative<int, double, double>(n, -x), -s * dJ, dosc, f), "J'/negative-argument", "J'_%d(%.17g), expected %.17Lg", n, -x, -s * dJ);
  CHECK(rel(Cyl_Bessel_first_kind<int, double, double>(-n, x), s * J, osc, f), "J/negative-order", "J_%d(%.17g), expected %.17Lg", -n, x, s * J);
  CHECK(rel(Cyl_Bessel_first_kind_derivative<int, double, double>(-n, x), s * dJ, dosc, f), "J'/negative-order", "J'_%d(%.17g), expected %.17Lg", -n, x, s * dJ);
  if (labs_(Y) < 1e290L && labs_(dY) < 1e290L) {
    CHECK(rel(Cyl_Bessel_second_kind<int, double, double>(-n, x), s * Y, osc, f), "Y/negative-order", "Y_%d(%.17g), expected %.17Lg", -n, x, s * Y);
    CHECK(rel(Cyl_Bessel_second_kind_derivative<int, double, double>(-n, x), s * dY, dosc, f), "Y'/negative-order", "Y'_%d(%.17g), expected %.17Lg", -n, x, s * dY);
    std::complex<double> h = Cyl_Hankel_first_kind<int, double>(-n, x), dh = Cyl_Hankel_first_kind_derivative<int, double>(-n, x);
    CHECK(rel(h.real(), s * J, osc, f) && rel(h.imag(), s * Y, osc, f), "H/negative-order", "H_%d(%.17g)", -n, x);
    CHECK(rel(dh.real(), s * dJ, dosc, f) && rel(dh.imag(), s * dY, dosc, f), "H'/negative-order", "H'_%d(%.17g)", -n, x);
  }
  if (x < 600) {
    LD I = bm::cyl_bessel_i(v, X), dI = bm::cyl_bessel_i_prime(v, X), K = bm::cyl_bessel_k(v, X), dK = bm::cyl_bessel_k_prime(v, X);
    CHECK(rel(Cyl_modified_Bessel_first_kind<int, double, double>(-n, x), I, 0, f), "I/negative-order", "I_%d(%.17g), expected %.17Lg", -n, x, I);
    CHECK(rel(Cyl_modified_Bessel_first_kind_derivative<int, double, double>(-n, x), dI, 0, f), "I'/negative-order", "I'_%d(%.17g), expected %.17Lg", -n, x, dI);
    CHECK(rel(Cyl_modified_Bessel_first_kind<int, double, double>(n, -x), s * I, 0, f), "I/negative-argument", "I_%d(%.17g), expected %.17Lg", n, -x, s * I);
    if (K < 1e290L && labs_(dK) < 1e290L) {
      CHECK(rel(Cyl_modified_Bessel_second_kind<int, double, double>(-n, x), K, 0, f), "K/negative-order", "K_%d(%.17g), expected %.17Lg", -n, x, K);
      CHECK(rel(Cyl_modified_Bessel_second_kind_derivative<int, double, double>(-n, x), dK, 0, f), "K'/negative-order", "K'_%d(%.17g), expected %.17Lg", -n, x, dK);
    }
  }
  c.obs("bessel-symmetry");
  c.nontrivial(H().add(x).add(-n - 1).h);
}
SECTION(bessel_zero_argument, 64, 64) {
  int n = (int) (c.idx % 16);
  double j = Cyl_Bessel_first_kind<int, double, double>(n, 0.), i = Cyl_modified_Bessel_first_kind<int, double, double>(n, 0.);
  double dj = Cyl_Bessel_first_kind_derivative<int, double, double>(n, 0.), di = Cyl_modified_Bessel_first_kind_derivative<int, double, double>(n, 0.);
  double v = n == 0 ? 1 : 0, d = n == 1 ? 0.5 : 0;
  CHECK(near(j, v, 1e-15L) && near(i, v, 1e-15L), "zero-argument", "J_%d(0)=%g I_%d(0)=%g", n, j, n, i);
  CHECK(near(dj, d, 1e-15L) && near(di, d, 1e-15L), "zero-argument-derivative", "J'_%d(0)=%g I'_%d(0)=%g, expected %g", n, dj, n, di, d);
  c.obs("zero-argument");
  c.nontrivial(H().add((double) n).h);
}
#endif
#if IN_PART(3)
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<60>, boost::multiprecision::et_off> MP;
static LD struve(int n, double x) {
  if (x < 30) {  // ascending series, 60 digits against the cancellation
    static const MP g[2] = {MP("0.785398163397448309615660845819875721049292349843776455243736") /*G(3/2)^2 = pi/4*/, MP("1.178097245096172464423491268729813581573938524765664682865604")};
    MP q = MP(x) / 2, t = (n ? q * q : q) / g[n], s = 0;
    for (int k = 0; k < 160; k++) { s += t; t *= -q * q / ((MP(k) + 1.5) * (MP(k) + n + 1.5)); }
    return (LD) s;
  }
  LD z = x / 2.L, t = n ? 2 : 1 / z, s = 0;  // asymptotic difference with Y_n
  for (int k = 0; k < 12; k++) { s += t; t *= (k + 0.5L) * (n - 0.5L - k) / (z * z); }
  return s / PI_L + bm::cyl_neumann(n, (LD) x);
}
SECTION(struve_functions, 6000, 120000) {
  double x;
  switch (c.r.range(0, 4)) {
    case 0: x = c.r.uni(0, 3); c.obs("struve/below-3"); break;
    case 1: x = 3; for (int i = (int) c.r.range(0, 4); i > 0; i--) x = c.r.chance(0.5) ? ulp_up(x) : ulp_down(x); c.obs("struve/switch"); break;
    case 2: x = c.r.uni(3, 30); c.obs("struve/above-3"); break;
    case 3: x = c.r.chance(0.2) ? 0 : std::pow(10., c.r.uni(-8, 0)); c.obs("struve/small"); break;
    default: x = std::pow(10., c.r.uni(1.4, 4)); c.obs("struve/large"); break;
  }
  LD h0 = struve(0, x), h1 = struve(1, x);
  double a = Struve_zero_order<double>(x), b = Struve_first_order<double>(x), d = Struve_zero_order_derivative<double>(x);
  CHECK(near(a, h0, 5e-8L), "struve0", "H0(%.17g) = %.17g, expected %.17Lg", x, a, h0);
  CHECK(near(b, h1, 5e-8L), "struve1", "H1(%.17g) = %.17g, expected %.17Lg", x, b, h1);
  CHECK(near(d, 2 / PI_L - h1, 5e-8L), "struve0-derivative", "H0'(%.17g) = %.17g, expected %.17Lg", x, d, 2 / PI_L - h1);
  c.nontrivial(H().add(x).h);
}
SECTION(exponential_integrals, 40000, 1500000) {
  static const double edges[] = {0.372507410781366634, 1, 4, 6, 12, 24};
  double x; const char *k;
  switch (c.r.range(0, 4)) {
    case 0: { int e = (int) c.r.range(0, 5); x = edges[e]; for (int i = (int) c.r.range(0, 5); i > 0; i--) x = c.r.chance(0.5) ? ulp_up(x) : ulp_down(x); k = "branch-switch"; c.obs(fmt("expint/edge%d", e)); break; }
    case 1: x = std::pow(10., c.r.uni(-7, 0)); k = "small"; break;
    case 2: x = c.r.uni(0.01, 30); k = "middle"; break;
    case 3: x = edges[c.r.range(0, 5)] * (1 + c.r.logmag(1e-9, 0.2)); k = "around-switch"; break;
    default: x = std::pow(10., c.r.uni(0, 2.84)); k = "large"; break;
  }
  c.obs(std::string("expint/") + k);
  LD X = x, ei = bm::expint(X), e1 = bm::expint(1, X), xe = expl(-X) * ei;
  // around its zero Ei is compared on the scale of its terms
  LD s = x < 1 ? (LD) 1 : 0;
  double g;
  g = Ei<double>(x); CHECK(rel(g, ei, 0.01L * s), "Ei", "Ei(%.17g) = %.17g, expected %.17Lg", x, g, ei);
  g = Ei_approximation<double>(x); CHECK(rel(g, ei, s), "Ei_approximation", "Ei_approximation(%.17g) = %.17g, expected %.17Lg", x, g, ei);
  g = expEi<double>(x); CHECK(rel(g, xe, 0.01L * s), "expEi", "expEi(%.17g) = %.17g, expected %.17Lg", x, g, xe);
  g = E1<double>(x); CHECK(rel(g, e1, 0), "E1", "E1(%.17g) = %.17g, expected %.17Lg", x, g, e1);
  g = E1_approximation<double>(x); CHECK(rel(g, e1, 0), "E1_approximation", "E1_approximation(%.17g) = %.17g, expected %.17Lg", x, g, e1);
  c.nontrivial(H().add(x).h);
  // beyond the range of Ei in double, exp(-x)Ei(x) stays finite
  double far = std::pow(10., c.r.uni(2.8, 12));
  LD inv = 1 / (LD) far, t = 1, sum = 0;
  for (int i = 0; i < 40 && t > 1e-22L; i++) { sum += t; t *= (i + 1) * inv; }
  g = expEi<double>(far);
  CHECK(rel(g, sum * inv, 0), "expEi-far", "expEi(%.17g) = %.17g, expected %.17Lg", far, g, sum * inv);
  // negative arguments are within the domain of the exact functions: Ei(-x) = -E1(x)
  g = Ei<double>(-x); CHECK(rel(g, -e1, 0), "Ei-negative", "Ei(%.17g) = %.17g, expected %.17Lg", -x, g, -e1);
  if (x < 300) { g = expEi<double>(-x); CHECK(rel(g, -e1 * expl(X), 0), "expEi-negative", "expEi(%.17g) = %.17g, expected %.17Lg", -x, g, -e1 * expl(X)); }
}
SECTION(refusals, 120, 600) {
  double x = c.idx % 4 == 0 ? 0 : c.idx % 4 == 1 ? -std::pow(10., c.r.uni(-300, -2)) : c.idx % 4 == 2 ? -std::pow(10., c.r.uni(-12, 2)) : -c.r.uni(1e-6, 50);
  const char *what;
  Outcome o;
  Quiet q;
  switch (c.r.range(0, 3)) {
    case 0: what = "Ei_approximation"; o = observe([&] { volatile double v = Ei_approximation<double>(x); (void) v; }); break;
    case 1: what = "E1_approximation"; o = observe([&] { volatile double v = E1_approximation<double>(x); (void) v; }); break;
    case 2: what = "Struve_zero_order"; if (x == 0) x = -1; o = observe([&] { volatile double v = Struve_zero_order<double>(x); (void) v; }); break;
    default: what = "Struve_first_order"; if (x == 0) x = -1; o = observe([&] { volatile double v = Struve_first_order<double>(x); (void) v; }); break;
  }
  CHECK(refused(o), std::string("refusal/") + what, "%s(%.17g) returned (%s)", what, x, oname(o));
  c.obs(std::string("refused/") + what);
  c.nontrivial(H().add(x).h);
}
#endif
#if IN_PART(2)
SECTION(polynomials, 30000, 1000000) {
  int n = c.r.chance(0.2) ? (int) c.r.range(0, 2) : (int) c.r.range(0, 40);
  double x;
  switch (c.r.range(0, 4)) { case 0: x = (double) c.r.range(-1, 1); break; case 1: x = c.r.sign() * (1 - std::pow(10., c.r.uni(-12, -1))); break; default: x = c.r.uni(-1, 1); }
  if (fabs(x) == 1) c.obs("polynomial/end");
  LD X = x, p0 = 1, p1 = X, d0 = 0, d1 = 1, t0 = 1, t1 = X, u0 = 0, u1 = 1;
  if (n == 0) { p1 = 1; d1 = 0; t1 = 1; u1 = 0; }
  for (int k = 2; k <= n; k++) {
    LD p = ((2 * k - 1) * X * p1 - (k - 1) * p0) / k, d = d0 + (2 * k - 1) * p1;
    p0 = p1; p1 = p; d0 = d1; d1 = d;
    LD t = 2 * X * t1 - t0, u = 2 * t1 + 2 * X * u1 - u0;
    t0 = t1; t1 = t; u0 = u1; u1 = u;
  }
  if (n == 1) d1 = 1;
  LD f = 1e-14L * (n + 1) * (n + 1);
  double g;
  g = Legendre_polynomial<int, double>(n, x); CHECK(near(g, p1, f), "legendre", "P_%d(%.17g) = %.17g, expected %.17Lg", n, x, g, p1);
  g = Legendre_polynomial_derivative<int, double>(n, x); CHECK(near(g, d1, f * (n * n + 1)), "legendre-derivative", "P'_%d(%.17g) = %.17g, expected %.17Lg", n, x, g, d1);
  g = Chebyshev_polynomial<int, double>(n, x); CHECK(near(g, t1, f), "chebyshev", "T_%d(%.17g) = %.17g, expected %.17Lg", n, x, g, t1);
  g = Chebyshev_polynomial_derivative<int, double>(n, x); CHECK(near(g, u1, f * (n * n + 1)), "chebyshev-derivative", "T'_%d(%.17g) = %.17g, expected %.17Lg", n, x, g, u1);
  double sh = 0.5 * (x + 1);
  LD S = 2 * (LD) sh - 1, s0 = 1, s1 = n ? S : 1;
  for (int k = 2; k <= n; k++) { LD t = 2 * S * s1 - s0; s0 = s1; s1 = t; }
  g = Chebyshev_polynomial_shifted<int, double>(n, sh); CHECK(near(g, s1, f + n * n * 4e-16L), "chebyshev-shifted", "T*_%d(%.17g) = %.17g, expected %.17Lg", n, sh, g, s1);
  double a = c.r.gauss(), b = c.r.gauss();
  g = Chebyshev_polynomial_next<double>(x, a, b); CHECK(near(g, 2 * X * a - b, 1e-15L * (labs_(a) + labs_(b)) * 4), "chebyshev-next", "next(%.17g,%.17g,%.17g) = %.17g, expected %.17Lg", x, a, b, g, 2 * X * a - b);
  if (n >= 1) {
    g = Chebyshev_polynomial_next<double>(x, Chebyshev_polynomial<int, double>(n, x), Chebyshev_polynomial<int, double>(n - 1, x));
    CHECK(near(g, 2 * X * t1 - t0, 4 * f), "chebyshev-recurrence", "T_%d(%.17g) = %.17g by recurrence, expected %.17Lg", n + 1, x, g, 2 * X * t1 - t0);
  }
  // outside [-1,1] Chebyshev polynomials are cosh(n acosh x)
  double out = c.r.sign() * (1 + c.r.uni(0.01, 2));
  LD ac = acoshl(labs_(out)), ch = coshl(n * ac), sg = out < 0 && n % 2 ? -1 : 1;
  g = Chebyshev_polynomial<int, double>(n, out); CHECK(rel(g, sg * ch, 0), "chebyshev-outside", "T_%d(%.17g) = %.17g, expected %.17Lg", n, out, g, sg * ch);
  c.obs(fmt("polynomial-order/%d", n));
  c.nontrivial(H().add(x).add((double) n).h);
}
SECTION(factorials, 4000, 60000) {
  int n = (int) (c.idx % 171);
  LD f = 1;
  for (int i = 2; i <= n; i++) f *= i;
  double g = Factorial<int, double>(n);
  CHECK(near(g, f, 4e-16L * f), "factorial", "%d! = %.17g, expected %.17Lg", n, g, f);
  if (n > 0) { g = Gamma<double>(n); CHECK(near(g * (LD) n, f, 1e-13L * f), "gamma-integer", "Gamma(%d) = %.17g, expected %.17Lg", n, g, f / n); }
  double x = c.r.chance(0.2) ? std::pow(10., c.r.uni(-8, 0)) : c.r.uni(0.05, 160);
  LD ref = bm::tgamma((LD) x);
  g = Gamma<double>(x);
  CHECK(rel(g, ref, 0), "gamma", "Gamma(%.17g) = %.17g, expected %.17Lg", x, g, ref);
  LD g1 = Gamma<double>(x + 1);
  CHECK(labs_(g1 - x * (LD) g) <= (1e-12L + 2e-16L * x * 8) * labs_(g1), "gamma-recurrence", "Gamma(%.17g) = %.17Lg, x Gamma(x) = %.17Lg", x + 1, g1, x * (LD) g);
  // negative arguments between the poles
  double y = -(double) c.r.range(0, 25) - c.r.uni(0.02, 0.98);
  if (c.r.chance(0.1)) { y = -std::pow(10., c.r.uni(-8, -1.7)); c.obs("gamma/just-below-zero"); }
  LD yr = bm::tgamma((LD) y);
  g = Gamma<double>(y);
  CHECK(rel(g, yr, 0, 40), "gamma-negative", "Gamma(%.17g) = %.17g, expected %.17Lg", y, g, yr);
  c.obs("factorial");
  c.nontrivial(H().add(x).h);
}
#endif
}  // namespace mon
MON_MAIN
