// C02: unit conversions
#include "mon.h"
#include "MathUtils/MathUtils.h"
namespace mon {
using namespace mathutils;
static const LD PI_L = 3.141592653589793238462643383279502884L;

static const SPEED_UNIT SU[] = {MS, KNOT, KMH};
static const char *SN[] = {"MS", "KNOT", "KMH"};
static LD sfac(SPEED_UNIT u) { return u == MS ? 1.0L : u == KNOT ? 1852.0L / 3600.0L : 1000.0L / 3600.0L; }

static const FREQUENCY_UNIT FU[] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
static const char *FN[] = {"HERTZ", "RADS", "DEGS", "DEGM", "S", "RPM"};
// Hz per unit (period handled apart)
static LD ffac(FREQUENCY_UNIT u) {
  switch (u) {
    case HERTZ: return 1;
    case RADS: return 1 / (2 * PI_L);
    case DEGS: return 1 / 360.0L;
    case DEGM: return 1 / 360.0L / 60;
    case RPM: return 1 / 60.0L;
    default: return 0;
  }
}
static LD toHz(LD v, FREQUENCY_UNIT u) { return u == S ? 1 / v : v * ffac(u); }
static LD fromHz(LD v, FREQUENCY_UNIT u) { return u == S ? 1 / v : v / ffac(u); }

template<class T> T gen(Rng &r, bool nz) {
  double v;
  switch (r.range(0, 4)) {
    case 0: v = r.range(-20, 20); break;
    case 1: v = r.uni(-100, 100); break;
    case 2: v = r.logmag(1e-12, 1e12); break;
    case 3: v = r.chance(0.8) ? 0.5 * r.range(-400, 400) : sizeof(T) == 4 ? r.logmag(1e-28, 1e28) : r.logmag(1e-280, 1e280); break;
    default: v = r.logmag(1e-3, 1e3);
  }
  if (nz && v == 0) v = 1.25;
  return (T) v;
}

template<class T> void scalars(Case &c, const char *tn) {
  Rng &r = c.r;
  const LD e = 16 * epsof<T>();
  auto ck = [&](LD got, LD want, const std::string &key, LD in) {
    CHECK(near(got, want, e * labs_(want)), key + "/" + tn, "%s(%.17Lg) = %.17Lg, expected %.17Lg", key.c_str(), in, got, want);
  };
  for (int it = 0; it < 4; it++) {
    T v = gen<T>(r, false);
    c.nontrivial(H().add((double) v).add("s").h);
    ck(KNOT2MS(v), (LD) v * sfac(KNOT), "KNOT2MS", v);
    ck(MS2KNOT(v), (LD) v / sfac(KNOT), "MS2KNOT", v);
    ck(KMH2MS(v), (LD) v * sfac(KMH), "KMH2MS", v);
    ck(MS2KMH(v), (LD) v / sfac(KMH), "MS2KMH", v);
    ck(KMH2KNOT(v), (LD) v * sfac(KMH) / sfac(KNOT), "KMH2KNOT", v);
    ck(KNOT2KMH(v), (LD) v * sfac(KNOT) / sfac(KMH), "KNOT2KMH", v);
    ck(convert_velocity_unit(v, KNOT), (LD) v * sfac(KNOT), "convert_velocity_unit(default target)", v);
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        T w = convert_velocity_unit(v, SU[i], SU[j]);
        c.obs(std::string("speed/") + SN[i] + ">" + SN[j]);
        ck(w, (LD) v * sfac(SU[i]) / sfac(SU[j]), std::string("velocity/") + SN[i] + ">" + SN[j], v);
        ck(convert_velocity_unit(w, SU[j], SU[i]), v, std::string("velocity-roundtrip/") + SN[i] + ">" + SN[j], v);
        for (int k = 0; k < 3; k++)
          ck(convert_velocity_unit(convert_velocity_unit(v, SU[i], SU[k]), SU[k], SU[j]), (LD) w, std::string("velocity-via/") + SN[i] + ">" + SN[k] + ">" + SN[j], v);
      }
    T f = gen<T>(r, true);
    c.nontrivial(H().add((double) f).add("f").h);
    ck(DEGS2RADS(f), f * PI_L / 180, "DEGS2RADS", f);
    ck(RADS2DEGS(f), f * 180 / PI_L, "RADS2DEGS", f);
    ck(HZ2RADS(f), f * 2 * PI_L, "HZ2RADS", f);
    ck(RADS2HZ(f), f / (2 * PI_L), "RADS2HZ", f);
    ck(HZ2S(f), 1 / (LD) f, "HZ2S", f);
    ck(S2HZ(f), 1 / (LD) f, "S2HZ", f);
    ck(RADS2S(f), 2 * PI_L / f, "RADS2S", f);
    ck(S2RADS(f), 2 * PI_L / f, "S2RADS", f);
    ck(RPM2RADS(f), f * 2 * PI_L / 60, "RPM2RADS", f);
    ck(RADS2RPM(f), f * 60 / (2 * PI_L), "RADS2RPM", f);
    ck(DEGM2RADS(f), f * PI_L / 180 / 60, "DEGM2RADS", f);
    ck(RADS2DEGM(f), f * 180 / PI_L * 60, "RADS2DEGM", f);
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 6; j++) {
        T w = convert_frequency(f, FU[i], FU[j]);
        c.obs(std::string("freq/") + FN[i] + ">" + FN[j]);
        ck(w, fromHz(toHz(f, FU[i]), FU[j]), std::string("frequency/") + FN[i] + ">" + FN[j], f);
        ck(convert_frequency(w, FU[j], FU[i]), f, std::string("frequency-roundtrip/") + FN[i] + ">" + FN[j], f);
        int k = (int) r.range(0, 5);
        ck(convert_frequency(convert_frequency(f, FU[i], FU[k]), FU[k], FU[j]), w, std::string("frequency-via/") + FN[i] + ">" + FN[k] + ">" + FN[j], f);
      }
    // a null frequency has an infinite period, a null period an infinite frequency
    for (int i = 0; i < 6; i++)
      for (int z = 0; z < 2; z++) {
        if (FU[i] == S) continue;
        T w = z ? convert_frequency((T) 0, FU[i], S) : convert_frequency((T) 0, S, FU[i]);
        c.obs("frequency-zero/period");
        CHECK(std::isinf(w) && w > 0, std::string("frequency-zero-period/") + FN[i], "%s: 0 converts to %g", z ? "frequency" : "period", (double) w);
        T b = z ? convert_frequency(w, S, FU[i]) : convert_frequency(w, FU[i], S);
        CHECK(b == 0, std::string("frequency-zero-period-back/") + FN[i], "0 converts there and back to %g", (double) b);
      }
    // zero is a legal frequency for every non-period pair
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 6; j++)
        if (FU[i] != S && FU[j] != S)
          CHECK(convert_frequency((T) 0, FU[i], FU[j]) == 0, std::string("frequency-zero/") + FN[i] + ">" + FN[j], "0 converts to %g", (double) convert_frequency((T) 0, FU[i], FU[j]));
  }
  if (c.idx < 3) c.sample(fmt("%s: all 9 speed and 36 frequency pairs on random values", tn));
}

SECTION(scalar, 8000, 100000) { scalars<double>(c, "double"); }
SECTION(scalar_float, 4000, 50000) { scalars<float>(c, "float"); }

template<class T> void vecs(Case &c, const char *tn) {
  Rng &r = c.r;
  size_t n = (size_t) r.range(0, 30);
  if (r.chance(0.004)) { n = (size_t) r.range(4000, 70000); c.obs("long-vector"); }
  const LD e = 16 * epsof<T>();
  std::vector<T> v(n);
  for (auto &x : v) x = gen<T>(r, false);
  const std::vector<T> v0 = v;
  std::vector<T> out((size_t) r.range(0, 40), (T) 7);   // dirty output of another size
  auto ck = [&](const std::vector<T> &got, LD fac, const char *what) {
    bool ok = got.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok = near(got[i], (LD) v0[i] * fac, e * labs_((LD) v0[i] * fac));
    CHECK(ok, std::string("vector/") + what + "/" + tn, "%s on %zu elements -> %zu elements", what, n, got.size());
    c.obs(std::string("vector/") + what);
  };
  auto same = [&](const char *what) { CHECK(v == v0, std::string("vector-input-changed/") + what, "%s altered its input", what); };
  const std::vector<T> &cv = v;
  auto dirty = [&]() { out.assign((size_t) r.range(0, 40), (T) 7); };
  deg2rad(cv, out); ck(out, PI_L / 180, "deg2rad-copy"); same("deg2rad-copy"); dirty();
  rad2deg(cv, out); ck(out, 180 / PI_L, "rad2deg-copy"); same("rad2deg-copy"); dirty();
  { auto ret = rad2deg(cv, out); ck(ret, 180 / PI_L, "rad2deg-returned"); ck(out, 180 / PI_L, "rad2deg-output"); } dirty();
  kt2ms(cv, out); ck(out, sfac(KNOT), "kt2ms-copy"); same("kt2ms-copy");
  std::vector<T> w = v0; deg2rad(w); ck(w, PI_L / 180, "deg2rad-inplace");
  rad2deg(w); ck(w, 1, "deg2rad-rad2deg");
  w = v0; rad2deg(w); ck(w, 180 / PI_L, "rad2deg-inplace");
  w = v0; kt2ms(w); ck(w, sfac(KNOT), "kt2ms-inplace");
  c.nontrivial(hash_bytes(v0.data(), n * sizeof(T)));
}
SECTION(vectors, 2700, 27000) { vecs<double>(c, "double"); }
SECTION(vectors_float, 1300, 13000) { vecs<float>(c, "float"); }

SECTION(constants, 1, 1) {
  auto k = [&](const char *n, LD got, LD want) { CHECK(near(got, want, 4e-16L * want), std::string("constant/") + n, "%s = %.17Lg", n, got); };
  k("DEG2RAD", DEG2RAD, PI_L / 180); k("RAD2DEG", RAD2DEG, 180 / PI_L); k("MU_KNOT", MU_KNOT, 1852.0L / 3600); k("MU_KMH", MU_KMH, 1 / 3.6L);
  k("MU_2PI", MU_2PI, 2 * PI_L); k("MU_PI_2", MU_PI_2, PI_L / 2); k("MU_2_PI", MU_2_PI, 2 / PI_L); k("MU_4PI", MU_4PI, 4 * PI_L); k("MU_PI_4", MU_PI_4, PI_L / 4);
  k("MU_1_4PI", MU_1_4PI, 1 / (4 * PI_L)); k("MU_RPM2RADS", MU_RPM2RADS, 2 * PI_L / 60); k("MU_SQRT2", MU_SQRT2, sqrtl(2)); k("MU_SQRT2_2", MU_SQRT2_2, sqrtl(2) / 2);
  k("MU_ONE_MINUTE", MU_ONE_MINUTE, 60); k("MU_ONE_HOUR", MU_ONE_HOUR, 3600); k("MU_ONE_DAY", MU_ONE_DAY, 86400); k("MU_ONE_MILE", MU_ONE_MILE, 1852); k("MU_ONE_KM", MU_ONE_KM, 1000);
  c.obs("constants", 18);
}
}  // namespace mon
MON_MAIN
