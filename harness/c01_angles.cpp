// C01: angle normalisation
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;

static const LD PI_L = 3.141592653589793238462643383279502884L;

// Distance (in long double) from (out - in) to the nearest multiple of `turn`.
static LD off_turn(LD out, LD in, LD turn) {
  LD d = out - in;
  LD k = roundl(d / turn);
  return labs_(d - k * turn);
}

template<class T> T gen_angle(Rng &r, LD turn, std::string &cls) {
  long k = r.range(-40, 40);
  if (r.chance(0.15)) k = r.range(-100000, 100000);
  T v;
  switch (r.range(0, 9)) {
    case 0: v = (T) (k * turn); cls = "whole-turn"; break;
    case 1: v = (T) (k * turn + turn / 2); cls = "half-turn"; break;
    case 2: v = ulp_up((T) (k * turn)); cls = "whole-turn+ulp"; break;
    case 3: v = ulp_down((T) (k * turn)); cls = "whole-turn-ulp"; break;
    case 4: v = r.chance(0.5) ? ulp_up((T) (k * turn + turn / 2)) : ulp_down((T) (k * turn + turn / 2)); cls = "half-turn~ulp"; break;
    case 5: v = (T) r.logmag(1e-30, 1e-3); cls = v < 0 ? "tiny-negative" : "tiny-positive"; break;
    case 6: v = (T) (k * turn / 8); cls = "eighths"; break;
    case 7: v = (T) r.uni(-3 * (double) turn, 3 * (double) turn); cls = "few-turns"; break;
    case 8:
      if (r.chance(0.5)) { v = (T) r.logmag(1, 1e7); cls = "far"; }
      else if (r.chance(0.7)) { v = (T) r.logmag(1e7, 1e17); cls = "very-far"; }
      else { v = (T) r.logmag(1e17, sizeof(T) == 4 ? 3e38 : 1e308); cls = "beyond-turn-resolution"; }
      break;
    default: v = (T) r.uni(-(double) turn, 0); cls = "negative-first-turn"; break;
  }
  if (r.chance(0.01)) { v = r.chance(0.5) ? (T) -0.0 : std::numeric_limits<T>::denorm_min() * r.sign(); cls = "zero/denormal"; }
  return v;
}

template<class T> void one(Case &c, const char *tn) {
  Rng &r = c.r;
  std::string cls;
  const LD e = epsof<T>();
  for (int i = 0; i < 40; i++) {
    {
      T a = gen_angle<T>(r, 360, cls);
      c.obs(std::string("deg/") + cls);
      c.nontrivial(H().add((double) a).add("deg").h);
      LD tol = 8 * e * (labs_(a) + 360);
      T n = Normalize_0_360(a);
      CHECK(n >= 0 && n < 360, std::string("range/0_360/") + tn, "Normalize_0_360<%s>(%.17g) = %.17g", tn, (double) a, (double) n);
      CHECK(off_turn(n, a, 360) <= tol, std::string("congruence/0_360/") + tn, "Normalize_0_360<%s>(%.17g) = %.17g", tn, (double) a, (double) n);
      T m = Normalize__180_180(a);
      CHECK(m > -180 && m <= 180, std::string("range/180/") + tn, "Normalize__180_180<%s>(%.17g) = %.17g", tn, (double) a, (double) m);
      CHECK(off_turn(m, a, 360) <= tol, std::string("congruence/180/") + tn, "Normalize__180_180<%s>(%.17g) = %.17g", tn, (double) a, (double) m);
      T q = modulo360(a);
      CHECK((q == 0 || (q < 0) == (a < 0)) && std::fabs((LD) q) < 360 && off_turn(q, a, 360) <= tol, std::string("modulo360/") + tn,
            "modulo360<%s>(%.17g) = %.17g", tn, (double) a, (double) q);
      if (i == 0) c.sample(fmt("Normalize_0_360<%s>(%.17g)=%.17g, ]-180,180]: %.17g", tn, (double) a, (double) n, (double) m));
    }
    {
      T a = gen_angle<T>(r, 2 * PI_L, cls);
      c.obs(std::string("rad/") + cls);
      c.nontrivial(H().add((double) a).add("rad").h);
      // the library turns by the floating-point value of 2 pi: k turns drift by k*ulp, inside eps*|a|
      LD tol = 8 * e * (labs_(a) + 2 * PI_L);
      const T TWO_PI = (T) (2 * PI_L), PI_T = (T) PI_L;
      T n = Normalize_0_2PI(a);
      CHECK(n >= 0 && n < TWO_PI, std::string("range/0_2PI/") + tn, "Normalize_0_2PI<%s>(%.17g) = %.17g", tn, (double) a, (double) n);
      CHECK(off_turn(n, a, 2 * PI_L) <= tol, std::string("congruence/0_2PI/") + tn, "Normalize_0_2PI<%s>(%.17g) = %.17g", tn, (double) a, (double) n);
      T m = Normalize__PI_PI(a);
      CHECK(m > -PI_T && m <= PI_T, std::string("range/PI_PI/") + tn, "Normalize__PI_PI<%s>(%.17g) = %.17g", tn, (double) a, (double) m);
      CHECK(off_turn(m, a, 2 * PI_L) <= tol, std::string("congruence/PI_PI/") + tn, "Normalize__PI_PI<%s>(%.17g) = %.17g", tn, (double) a, (double) m);
      T q = modulo2pi(a);
      CHECK((q == 0 || (q < 0) == (a < 0)) && std::fabs((LD) q) <= (LD) TWO_PI && off_turn(q, a, 2 * PI_L) <= tol, std::string("modulo2pi/") + tn,
            "modulo2pi<%s>(%.17g) = %.17g", tn, (double) a, (double) q);
    }
  }
}

SECTION(doubles, 27000, 400000) { one<double>(c, "double"); }
SECTION(floats, 13000, 200000) { one<float>(c, "float"); }

SECTION(integer, 4000, 40000) {
  Rng &r = c.r;
  for (int i = 0; i < 50; i++) {
    int a;
    switch (r.range(0, 4)) {
      case 0: a = (int) r.range(-720, 720); break;
      case 4: a = r.chance(0.5) ? INT_MAX - (int) r.range(0, 720) : INT_MIN + (int) r.range(0, 720); c.obs("int-extreme"); break;
      case 1: a = (int) (180 * r.range(-1000, 1000)); break;
      case 2: a = (int) (180 * r.range(-1000, 1000) + r.sign()); break;
      default: a = (int) r.range(-1000000000, 1000000000);
    }
    c.obs("int-deg");
    c.nontrivial(H().add(a).add("int").h);
    int w = ((a % 360) + 360) % 360;
    CHECK(Normalize_0_360(a) == w, "int/0_360", "Normalize_0_360<int>(%d) = %d, expected %d", a, Normalize_0_360(a), w);
    int w2 = w > 180 ? w - 360 : w;
    CHECK(Normalize__180_180(a) == w2, "int/180", "Normalize__180_180<int>(%d) = %d, expected %d", a, Normalize__180_180(a), w2);
    CHECK(modulo360(a) == a % 360, "int/modulo360", "modulo360<int>(%d) = %d", a, modulo360(a));
  }
}

SECTION(strings, 40, 120) {
  static const char *bad[] = {"", "deg", "rad", "Deg", "DEG ", " DEG", "RADS", "D", "DEGRAD", "RA", "degrees", "GRAD", "0", "1"};
  CHECK(STRING2ANGLE("DEG") == DEG, "string/DEG", "STRING2ANGLE(DEG)");
  CHECK(STRING2ANGLE("RAD") == RAD, "string/RAD", "STRING2ANGLE(RAD)");
  std::string s = bad[c.idx % 14];
  if (c.idx >= 14) { s = ""; int n = (int) c.r.range(0, 6); for (int i = 0; i < n; i++) s += (char) c.r.range(32, 126); }
  if (c.idx % 5 == 3) {   // one of the two names, damaged: case, truncation, extra characters (a null one included)
    s = c.r.chance(0.5) ? "DEG" : "RAD";
    switch (c.r.range(0, 4)) {
      case 0: s += '\0'; break;
      case 1: s += std::string("\0x", 2); break;
      case 2: s.insert(s.begin(), (char) c.r.range(0, 126)); break;
      case 3: s[c.r.range(0, 2)] ^= 32; break;
      default: s.erase(c.r.range(0, 2), 1);
    }
    c.obs("string/damaged-name");
  }
  if (s == "DEG" || s == "RAD") return;
  Outcome o = observe([&]() { STRING2ANGLE(s); });
  c.obs(std::string("string-refusal/") + oname(o));
  CHECK(refused(o), "string/accepts-unknown", "STRING2ANGLE(\"%s\") %s", s.c_str(), oname(o));
}
}  // namespace mon
MON_MAIN
