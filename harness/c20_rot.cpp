// C20: rotation representations
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
typedef Eigen::Matrix<LD, 3, 3> M3L;
typedef Eigen::Matrix3d M3;
typedef Eigen::Quaterniond Q;
typedef Eigen::Vector3d V3;
static const LD PI_L = 3.141592653589793238462643383279502884L;
static const LD TOL = 2e-14L;

static M3L elem(int ax, LD a) {
  M3L R = M3L::Identity();
  int i = (ax + 1) % 3, j = (ax + 2) % 3;
  R(i, i) = cosl(a); R(j, j) = cosl(a); R(i, j) = -sinl(a); R(j, i) = sinl(a);
  return R;
}
static M3L ref_euler(const V3 &e) { return elem(2, e[2]) * elem(1, e[1]) * elem(0, e[0]); }
static M3L ref_quat(const Q &q) {  // v -> q v q*
  LD w = q.w(), x = q.x(), y = q.y(), z = q.z(), n = w * w + x * x + y * y + z * z;
  M3L R;
  R << 1 - 2 * (y * y + z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n,
       2 * (x * y + w * z) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - w * x) / n,
       2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, 1 - 2 * (x * x + y * y) / n;
  return R;
}
static LD dist(const M3 &A, const M3L &B) { LD d = (A.cast<LD>() - B).cwiseAbs().maxCoeff(); return std::isnan((double) A.sum()) ? INFINITY : d; }
static std::string es(const V3 &e) { return fmt("(%.17g,%.17g,%.17g)", e[0], e[1], e[2]); }

static void matrix_ok(const M3 &R, const M3L &ref, const std::string &key, const std::string &d) {
  LD e = dist(R, ref);
  CHECK(e <= TOL, key, "matrix differs by %Lg from the rotation of %s", e, d.c_str());
  M3L L = R.cast<LD>();
  LD o = (L * L.transpose() - M3L::Identity()).cwiseAbs().maxCoeff();
  CHECK(o <= TOL && labs_(L.determinant() - 1) <= TOL, key + "-orthogonal", "not orthogonal with determinant +1 (%Lg, %Lg) for %s", o, L.determinant(), d.c_str());
}
static void quat_ok(const Q &q, const M3L &ref, const std::string &key, const std::string &d) {
  LD n = (LD) q.w() * q.w() + (LD) q.x() * q.x() + (LD) q.y() * q.y() + (LD) q.z() * q.z();
  CHECK(labs_(n - 1) <= TOL, key + "-norm", "squared norm %.17Lg for %s", n, d.c_str());
  LD e = (ref_quat(q) - ref).cwiseAbs().maxCoeff();
  CHECK(e <= TOL, key, "quaternion (%.17g,%.17g,%.17g,%.17g) differs by %Lg from the rotation of %s", q.w(), q.x(), q.y(), q.z(), e, d.c_str());
}
static void angles_ok(const V3 &a, const M3L &ref, const std::string &key, const std::string &d) {
  bool fin = std::isfinite(a[0]) && std::isfinite(a[1]) && std::isfinite(a[2]);
  CHECK(fin, key + "-finite", "angles %s recovered for %s", es(a).c_str(), d.c_str());
  if (!fin) return;
  CHECK(fabs(a[0]) <= PI_L + 1e-15L && fabs(a[2]) <= PI_L + 1e-15L && fabs(a[1]) <= PI_L / 2 + 1e-15L, key + "-range", "angles %s outside the principal range for %s", es(a).c_str(), d.c_str());
  LD e = (ref_euler(a) - ref).cwiseAbs().maxCoeff();
  CHECK(e <= TOL, key, "angles %s rebuild a rotation different by %Lg from that of %s", es(a).c_str(), e, d.c_str());
}
/// every conversion path from a rotation matrix / quaternion already known to be right
static void paths(Case &c, const M3L &ref, const std::string &from, const std::string &d) {
  M3 R = ref.cast<double>();
  angles_ok(rotationMatrixToEulerAnglesZYX(R), ref, "matrix-to-angles/" + from, d);
  Q q = RotationMatrixToQuaternion(R);
  quat_ok(q, ref, "matrix-to-quaternion/" + from, d);
  angles_ok(quaternionToEulerAnglesZYX(q), ref, "matrix-to-quaternion-to-angles/" + from, d);
  matrix_ok(quaternionToRotationMatrix(q), ref, "matrix-to-quaternion-to-matrix/" + from, d);
  V3 a = rotationMatrixToEulerAnglesZYX(R);
  matrix_ok(eulerAnglesZYXToRotationMatrix(a), ref, "matrix-to-angles-to-matrix/" + from, d);
  quat_ok(eulerAnglesZYXToQuaternion(a), ref, "matrix-to-angles-to-quaternion/" + from, d);
}
static double angle(Rng &r, const char **k) {
  switch (r.range(0, 7)) {
    case 0: *k = "zero"; return 0;
    case 1: *k = "quarter"; return (double) (r.range(-8, 8) * PI_L / 4);
    case 2: { *k = "quarter-neighbour"; double v = (double) (r.range(-8, 8) * PI_L / 2); for (int i = (int) r.range(1, 4); i > 0; i--) v = r.chance(0.5) ? ulp_up(v) : ulp_down(v); return v; }
    case 3: *k = "near-quarter"; return (double) (r.range(-4, 4) * PI_L / 2) + r.logmag(1e-16, 1e-1);
    case 4: *k = "tiny"; return r.logmag(1e-18, 1e-3);
    case 5: *k = "many-turns"; return r.logmag(10, 1e4);
    default: *k = "principal"; return r.uni(-3.15, 3.15);
  }
}
SECTION(angles, 60000, 1500000) {
  const char *k0, *k1, *k2;
  V3 e;
  e[0] = angle(c.r, &k0); e[1] = angle(c.r, &k1); e[2] = angle(c.r, &k2);
  if (c.r.chance(0.4)) { e[1] = (double) (c.r.sign() * PI_L / 2) + (c.r.chance(0.4) ? 0 : c.r.logmag(1e-17, 1e-5)); k1 = "vertical"; }
  c.obs(std::string("pitch/") + k1);
  c.obs(std::string("roll/") + k0);
  M3L ref = ref_euler(e);
  std::string d = "angles " + es(e);
  M3 R = eulerAnglesZYXToRotationMatrix(e);
  matrix_ok(R, ref, "angles-to-matrix", d);
  Q q = eulerAnglesZYXToQuaternion(e);
  quat_ok(q, ref, "angles-to-quaternion", d);
  angles_ok(rotationMatrixToEulerAnglesZYX(R), ref, "angles-to-matrix-to-angles", d);
  angles_ok(quaternionToEulerAnglesZYX(q), ref, "angles-to-quaternion-to-angles", d);
  matrix_ok(quaternionToRotationMatrix(q), ref, "angles-to-quaternion-to-matrix", d);
  quat_ok(RotationMatrixToQuaternion(R), ref, "angles-to-matrix-to-quaternion", d);
  paths(c, ref, "from-angles", d);
  // unambiguous angles are recovered themselves
  if (fabs(e[0]) < 3.1 && fabs(e[2]) < 3.1 && fabs(e[1]) < 1.4) {
    V3 a = rotationMatrixToEulerAnglesZYX(R), b = quaternionToEulerAnglesZYX(q);
    CHECK((a - e).cwiseAbs().maxCoeff() <= 1e-13, "angles-recovered-matrix", "%s recovered as %s", es(e).c_str(), es(a).c_str());
    CHECK((b - e).cwiseAbs().maxCoeff() <= 1e-13, "angles-recovered-quaternion", "%s recovered as %s", es(e).c_str(), es(b).c_str());
    c.obs("unambiguous");
  }
  c.nontrivial(H().add(e[0]).add(e[1]).add(e[2]).h);
}
SECTION(quaternions, 60000, 1500000) {
  double v[4];
  const char *k;
  switch (c.r.range(0, 5)) {
    case 0: k = "half-turn"; v[0] = c.r.chance(0.5) ? 0 : c.r.logmag(1e-18, 1e-6); for (int i = 1; i < 4; i++) v[i] = c.r.gauss(); break;
    case 1: k = "axis"; for (auto &x : v) x = 0; v[c.r.range(0, 3)] = c.r.sign(); break;
    case 2: { k = "two-components"; for (auto &x : v) x = 0; int i = (int) c.r.range(0, 3), j = (i + (int) c.r.range(1, 3)) % 4; v[i] = c.r.sign(); v[j] = c.r.sign() * (c.r.chance(0.5) ? 1 : c.r.uni(0, 2)); break; }
    case 3: {  // vertical pitch: 2(wy - xz) = +-1
      k = "gimbal";
      double a = c.r.uni(-3.2, 3.2), s = c.r.sign();
      v[0] = std::cos(a); v[1] = std::sin(a); v[2] = s * v[0]; v[3] = -s * v[1];
      if (c.r.chance(0.6)) for (auto &x : v) x += c.r.logmag(1e-18, 1e-7);
      break;
    }
    case 4: k = "small-rotation"; v[0] = 1; for (int i = 1; i < 4; i++) v[i] = c.r.logmag(1e-18, 1e-4); break;
    default: k = "general"; for (auto &x : v) x = c.r.gauss(); break;
  }
  double s = c.r.sign();
  Q q(s * v[0], s * v[1], s * v[2], s * v[3]);
  q.normalize();
  c.obs(std::string("quaternion/") + k);
  M3L ref = ref_quat(q);
  std::string d = fmt("quaternion (%.17g,%.17g,%.17g,%.17g)", q.w(), q.x(), q.y(), q.z());
  M3 R = quaternionToRotationMatrix(q);
  matrix_ok(R, ref, "quaternion-to-matrix", d);
  V3 a = quaternionToEulerAnglesZYX(q);
  angles_ok(a, ref, "quaternion-to-angles", d);
  matrix_ok(eulerAnglesZYXToRotationMatrix(a), ref, "quaternion-to-angles-to-matrix", d);
  quat_ok(eulerAnglesZYXToQuaternion(a), ref, "quaternion-to-angles-to-quaternion", d);
  angles_ok(rotationMatrixToEulerAnglesZYX(R), ref, "quaternion-to-matrix-to-angles", d);
  quat_ok(RotationMatrixToQuaternion(R), ref, "quaternion-to-matrix-to-quaternion", d);
  Q m(-q.w(), -q.x(), -q.y(), -q.z());
  matrix_ok(quaternionToRotationMatrix(m), ref, "negated-quaternion-to-matrix", d);
  angles_ok(quaternionToEulerAnglesZYX(m), ref, "negated-quaternion-to-angles", d);
  paths(c, ref, "from-quaternion", d);
  c.nontrivial(H().add(q.w()).add(q.x()).add(q.y()).add(q.z()).h);
}
}  // namespace mon
MON_MAIN
