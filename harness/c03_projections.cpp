// C03: 2D frame projections and transport
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
static const LD PI_L = 3.141592653589793238462643383279502884L;

template<class T> T coord(Rng &r) {
  switch (r.range(0, 4)) {
    case 0: return (T) r.range(-4, 4);
    case 1: return (T) r.uni(-10, 10);
    case 2: return (T) r.logmag(1e-6, 1e6);
    case 3: return (T) 0;
    default: return (T) r.gauss();
  }
}
static const FREQUENCY_UNIT FU[] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
static LD radPerS(LD v, FREQUENCY_UNIT u) {
  switch (u) {
    case HERTZ: return v * 2 * PI_L;
    case RADS: return v;
    case DEGS: return v * PI_L / 180;
    case DEGM: return v * PI_L / 180 / 60;
    case S: return 2 * PI_L / v;
    default: return v * 2 * PI_L / 60;
  }
}
static const SPEED_UNIT SU[] = {MS, KNOT, KMH};
static LD sfac(SPEED_UNIT u) { return u == MS ? 1.0L : u == KNOT ? 1852.0L / 3600.0L : 1000.0L / 3600.0L; }

template<class T> void proj(Case &c, const char *tn) {
  Rng &r = c.r;
  typedef Vector2d<T> V;
  const LD e = epsof<T>();
  T x = coord<T>(r), y = coord<T>(r);
  if (r.chance(0.15)) { T k = (T) (r.chance(0.7) ? 1e-12 : 1e12); x *= k; y *= k; c.obs("extreme-scale"); }   // no length is too small to rotate
  ANGLE_UNIT u = r.chance(0.5) ? DEG : RAD;
  LD turn = u == DEG ? 360 : 2 * PI_L;
  T a;
  std::string ac;
  switch (r.range(0, 5)) {
    case 0: a = (T) (turn / 8 * r.range(-24, 24)); ac = "eighths"; break;
    case 1: a = (T) r.uni(-(double) turn, (double) turn); ac = "one-turn"; break;
    case 2: a = (T) r.logmag(1e-9, 1e-2); ac = "tiny"; break;
    case 3: a = (T) r.uni(-50 * (double) turn, 50 * (double) turn); ac = "many-turns"; break;
    case 4: a = 0; ac = "zero"; break;
    default: a = (T) (turn / 4 * r.range(-8, 8)); ac = "quarters";
  }
  c.obs(std::string("heading/") + ac + (u == DEG ? "/deg" : "/rad"));
  c.nontrivial(H().add(x).add(y).add(a).add(u).h);
  LD ar = u == DEG ? (LD) a * PI_L / 180 : (LD) a;
  LD C = cosl(ar), Sn = sinl(ar);
  LD nrm = sqrtl((LD) x * x + (LD) y * y);
  LD tol = nrm * e * (8 + 4 * labs_(ar)) + 1e-300L;    // argument rounding + products
  LD N = C * x - Sn * y, E = Sn * x + C * y, X = C * x + Sn * y, Y = -Sn * x + C * y;
  auto two = [&](const V &v, LD a0, LD a1, const char *what) {
    CHECK(near(v[0], a0, tol) && near(v[1], a1, tol), std::string(what) + "/" + tn,
          "%s of (%.9g,%.9g) heading %.17g %s -> (%.17g,%.17g), expected (%.17Lg,%.17Lg)", what, (double) x, (double) y, (double) a, u == DEG ? "deg" : "rad",
          (double) v[0], (double) v[1], a0, a1);
  };
  auto one = [&](T v, LD a0, const char *what) {
    CHECK(near(v, a0, tol), std::string(what) + "/" + tn, "%s of (%.9g,%.9g) heading %.17g %s -> %.17g, expected %.17Lg", what, (double) x, (double) y, (double) a,
          u == DEG ? "deg" : "rad", (double) v, a0);
  };
  const V v(x, y);
  V o(3, 4), w = v;
  v.ProjectLocalOnNED(o, a, u); two(o, N, E, "ProjectLocalOnNED-out");
  w.ProjectLocalOnNED(a, u); two(w, N, E, "ProjectLocalOnNED-inplace");
  two(ProjectLocalOnNED(v, a, u), N, E, "ProjectLocalOnNED-free");
  CHECK(v[0] == x && v[1] == y, "input-changed", "projection altered its const input");
  V al = v; al.ProjectLocalOnNED(al, a, u); two(al, N, E, "ProjectLocalOnNED-aliased");
  o.ProjectNEDOnLocal(a, u); two(o, x, y, "roundtrip NED->local");
  v.ProjectNEDOnLocal(o, a, u); two(o, X, Y, "ProjectNEDOnLocal-out");
  w = v; w.ProjectNEDOnLocal(a, u); two(w, X, Y, "ProjectNEDOnLocal-inplace");
  two(ProjectNEDOnLocal(v, a, u), X, Y, "ProjectNEDOnLocal-free");
  al = v; al.ProjectNEDOnLocal(al, a, u); two(al, X, Y, "ProjectNEDOnLocal-aliased");
  w.ProjectLocalOnNED(a, u); two(w, x, y, "roundtrip local->NED");
  one(v.ProjectOnNorthAxis(a, u), N, "ProjectOnNorthAxis"); one(ProjectOnNorthAxis(v, a, u), N, "ProjectOnNorthAxis-free");
  one(v.ProjectOnEastAxis(a, u), E, "ProjectOnEastAxis"); one(ProjectOnEastAxis(v, a, u), E, "ProjectOnEastAxis-free");
  one(v.ProjectOnLocalXAxis(a, u), X, "ProjectOnLocalXAxis"); one(ProjectOnLocalXAxis(v, a, u), X, "ProjectOnLocalXAxis-free");
  one(v.ProjectOnLocalYAxis(a, u), Y, "ProjectOnLocalYAxis"); one(ProjectOnLocalYAxis(v, a, u), Y, "ProjectOnLocalYAxis-free");
  V s(9, 9); s.SetNEDFromLocal(x, y, a, u); two(s, N, E, "SetNEDFromLocal");
  { T cc, ss; _GetTrigo(a, cc, ss, u); CHECK(near(cc, C, e * (4 + 4 * labs_(ar))) && near(ss, Sn, e * (4 + 4 * labs_(ar))), std::string("_GetTrigo/") + tn, "_GetTrigo(%.17g)", (double) a); }
  if (u == RAD) {  // defaults are radians
    two(ProjectLocalOnNED(v, a), N, E, "ProjectLocalOnNED-default-unit");
    two(ProjectNEDOnLocal(v, a), X, Y, "ProjectNEDOnLocal-default-unit");
    w = v; w.ProjectLocalOnNED(a); two(w, N, E, "ProjectLocalOnNED-inplace-default-unit");
    w = v; w.ProjectNEDOnLocal(a); two(w, X, Y, "ProjectNEDOnLocal-inplace-default-unit");
    one(v.ProjectOnNorthAxis(a), N, "ProjectOnNorthAxis-default-unit"); one(v.ProjectOnEastAxis(a), E, "ProjectOnEastAxis-default-unit");
    one(v.ProjectOnLocalXAxis(a), X, "ProjectOnLocalXAxis-default-unit"); one(v.ProjectOnLocalYAxis(a), Y, "ProjectOnLocalYAxis-default-unit");
  }
  // composition: heading a then heading b == heading a+b (checked on moderate angles)
  {
    T b = (T) r.uni(-3, 3);
    V p = ProjectLocalOnNED(ProjectLocalOnNED(v, b, RAD), a, u);
    LD t = ar + b;
    LD tl = nrm * e * (16 + 4 * labs_(ar) + 4 * labs_(b));
    CHECK(near(p[0], cosl(t) * x - sinl(t) * y, tl) && near(p[1], sinl(t) * x + cosl(t) * y, tl), std::string("composition/") + tn, "headings %.17g and %.17g", (double) a, (double) b);
    CHECK(near(p.norm(), nrm, tl), std::string("norm/") + tn, "norm %.17g -> %.17g", (double) nrm, (double) p.norm());
  }
  // velocity vector
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      V g = GetNEDVelocityVector<T>(x, y, a, u, SU[i], SU[j]);
      LD f = sfac(SU[i]) / sfac(SU[j]);
      c.obs("velocity-vector");
      CHECK(near(g[0], f * N, tol * f * 2) && near(g[1], f * E, tol * f * 2), std::string("GetNEDVelocityVector/") + tn,
            "(%.9g,%.9g) heading %.9g, units %d->%d -> (%.17g,%.17g), expected (%.17Lg,%.17Lg)", (double) x, (double) y, (double) a, i, j, (double) g[0], (double) g[1], f * N, f * E);
    }
  {
    V g = GetNEDVelocityVector<T>(x, y, a, u);
    LD f = sfac(KNOT);
    CHECK(near(g[0], f * N, tol * f * 2) && near(g[1], f * E, tol * f * 2), std::string("GetNEDVelocityVector-defaults/") + tn, "default units knot -> m/s");
  }
  c.sample(fmt("vector (%.6g,%.6g) heading %.6g %s [%s]", (double) x, (double) y, (double) a, u == DEG ? "deg" : "rad", tn));
}
SECTION(projection, 40000, 400000) { proj<double>(c, "double"); }
SECTION(projection_float, 20000, 200000) { proj<float>(c, "float"); }

template<class T> void transport(Case &c, const char *tn) {
  Rng &r = c.r;
  typedef Vector2d<T> V;
  const LD e = epsof<T>();
  V v(coord<T>(r), coord<T>(r)), p(coord<T>(r), coord<T>(r)), q(coord<T>(r), coord<T>(r));
  FREQUENCY_UNIT fu = FU[r.range(0, 5)];
  T w = (T) (r.chance(0.4) ? r.logmag(1e-14, 1e10) : r.logmag(1e-3, 1e3));   // any rate, also tiny or huge ones
  if (r.chance(0.15)) { v = V(0, 0); if (r.chance(0.5)) p[0] = 0; }
  if (r.chance(0.1)) { T k = (T) (r.chance(0.7) ? 1e-12 : 1e9); v *= k; p *= k; q *= k; }
  if (fu != S && r.chance(0.1)) w = 0;
  LD W = radPerS(w, fu);
  c.obs(fmt("transport/unit%d", (int) fu));
  c.nontrivial(H().add(v[0]).add(p[1]).add(w).add(fu).h);
  LD tol = e * 16 * (labs_(v[0]) + labs_(v[1]) + labs_(W) * (labs_(p[0]) + labs_(p[1]))) + 1e-300L;
  LD a0 = (LD) v[0] - W * p[1], a1 = (LD) v[1] + W * p[0];
  auto ck = [&](const V &g, const char *what) {
    CHECK(near(g[0], a0, tol) && near(g[1], a1, tol), std::string(what) + "/" + tn, "v=(%g,%g) point=(%g,%g) w=%.9g unit %d -> (%.17g,%.17g), expected (%.17Lg,%.17Lg)",
          (double) v[0], (double) v[1], (double) p[0], (double) p[1], (double) w, (int) fu, (double) g[0], (double) g[1], a0, a1);
  };
  const V cv = v;
  V o(1, 2);
  cv.TransportAtPoint(o, p, w, fu); ck(o, "TransportAtPoint-out");
  V in = v; in.TransportAtPoint(p, w, fu); ck(in, "TransportAtPoint-inplace");
  ck(TransportAtPoint<T>(v, p, w, fu), "TransportAtPoint-free");
  V al = v; al.TransportAtPoint(al, p, w, fu); ck(al, "TransportAtPoint-aliased");
  CHECK(cv == v, "transport-input-changed", "TransportAtPoint altered its const input");
  if (fu == RADS) {
    ck(TransportAtPoint<T>(v, p, w), "TransportAtPoint-default-unit");
    V d = v; d.TransportAtPoint(p, w); ck(d, "TransportAtPoint-inplace-default-unit");
    v.TransportAtPoint(o, p, w); ck(o, "TransportAtPoint-out-default-unit");
  }
  // reversible and additive
  V back = in; V mp(-p[0], -p[1]); back.TransportAtPoint(mp, w, fu);
  CHECK(near(back[0], v[0], 2 * tol) && near(back[1], v[1], 2 * tol), std::string("transport-back/") + tn, "not reversible");
  V two = in; two.TransportAtPoint(q, w, fu);
  V pq(p[0] + q[0], p[1] + q[1]);
  V dir = TransportAtPoint<T>(v, pq, w, fu);
  LD tol2 = 2 * tol + e * 16 * labs_(W) * (labs_(q[0]) + labs_(q[1]));
  CHECK(near(two[0], dir[0], tol2) && near(two[1], dir[1], tol2), std::string("transport-additive/") + tn, "two steps differ from one");
  V z = TransportAtPoint<T>(v, V(0, 0), w, fu);
  CHECK(z[0] == v[0] && z[1] == v[1], std::string("transport-zero-lever/") + tn, "zero lever arm changes the vector");
  // self point: the lever arm is the vector itself (aliasing of the point argument)
  V self = v; self.TransportAtPoint(V(v), w, fu);
  LD s0 = (LD) v[0] - W * v[1], s1 = (LD) v[1] + W * v[0];
  LD ts = e * 16 * (labs_(v[0]) + labs_(v[1])) * (1 + labs_(W)) + 1e-300L;
  CHECK(near(self[0], s0, ts) && near(self[1], s1, ts), std::string("transport-self/") + tn, "lever arm equal to the vector");
}
SECTION(transports, 40000, 400000) { transport<double>(c, "double"); }
SECTION(transports_float, 20000, 200000) { transport<float>(c, "float"); }
}  // namespace mon
MON_MAIN
