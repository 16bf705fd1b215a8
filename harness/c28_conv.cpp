// C28: naive discrete convolution
#include "mon.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
#include <deque>
namespace mon {
using namespace mathutils;
template<class T> void conv(Case &c, const std::string &t) {
  int N = (int) (c.r.chance(0.1) ? 2 : c.r.chance(0.1) ? c.r.range(100, 300) : c.r.chance(0.005) ? c.r.range(1000, 9000) : c.r.range(2, 30));
  int len = N + (int) (c.r.chance(0.3) ? 0 : c.r.chance(0.01) ? c.r.range(1000, 70000) : c.r.range(1, 40));
  int cap = len + (int) (c.r.chance(0.5) ? 0 : c.r.range(1, 20));
  std::vector<T> k(N);
  for (auto &v : k) v = (T) c.r.value();
  boost::circular_buffer<T> buf(cap);
  std::deque<T> model;
  int pushes = len + (int) c.r.range(0, 3 * cap);
  int mode = (int) c.r.range(0, 2);
  for (int i = 0; i < pushes || (int) model.size() < len; i++) {
    T v = (T) c.r.value();
    bool front = mode == 0 || (mode == 2 && c.r.chance(0.5));
    if (front) { buf.push_front(v); model.push_front(v); if ((int) model.size() > cap) model.pop_back(); }
    else { buf.push_back(v); model.push_back(v); if ((int) model.size() > cap) model.pop_front(); }
    if (c.r.chance(0.05) && (int) model.size() > len) { buf.pop_back(); model.pop_back(); }
  }
  c.obs(pushes > cap ? "buffer/wrapped" : "buffer/plain");
  c.obs((int) model.size() == N ? "buffer/same-length" : "buffer/longer");
  T dt = (T) (c.r.chance(0.9) ? std::fabs(c.r.value()) + 1e-3 : c.r.value());
  const auto k0 = k;
  const boost::circular_buffer<T> b0 = buf;
  LD eps = epsof<T>();
  auto ref = [&](const std::vector<T> &kk, const std::deque<T> &s, bool rev, LD &mag) {
    LD sum = 0;
    mag = 0;
    for (int i = 0; i < N; i++) {
      LD p = (LD) kk[i] * (LD) (rev ? s[i] : s[N - 1 - i]);
      sum += (i == 0 || i == N - 1 ? 0.5L : 1.0L) * p;
      mag += labs_(p);
    }
    mag *= labs_(dt);
    return sum * dt;
  };
  for (int rev = 0; rev < 2; rev++) {
    std::string key = t + (rev ? "/reversed" : "/plain");
    LD mag, want = ref(k, model, rev, mag), tol = (10 + N) * eps * mag;
    T got = NaiveConvolution(k, buf, dt, (bool) rev);
    CHECK(near(got, want, tol), "convolution/" + key, "N %d len %d cap %d dt %g got %.17g want %.17Lg", N, (int) model.size(), cap, (double) dt, (double) got, want);
    if (rev) { T d = NaiveConvolution(k, buf, dt); CHECK(near(d, want, tol), "convolution-default/" + t, "the default reading is not newest-first: got %g want %Lg", (double) d, want); }
    CHECK(k == k0 && buf == b0, "inputs/" + key, "kernel or buffer modified");
    c.nontrivial(H().add((double) got).h);
    {  // same logical content in another rotation and capacity
      boost::circular_buffer<T> b2(model.size() + c.r.range(0, 9));
      int rot = (int) c.r.range(0, (long) b2.capacity());
      for (int i = 0; i < rot; i++) b2.push_back((T) 777);
      b2.clear();
      for (auto v : model) b2.push_back(v);
      boost::circular_buffer<T> b3(model.size());
      for (int i = 0; i < (int) c.r.range(0, 9); i++) b3.push_front((T) 555);
      for (auto it = model.rbegin(); it != model.rend(); ++it) b3.push_front(*it);
      CHECK(near(NaiveConvolution(k, b2, dt, (bool) rev), want, tol) && near(NaiveConvolution(k, b3, dt, (bool) rev), want, tol), "rotation/" + key, "depends on the internal rotation of the buffer");
    }
    if ((int) model.size() > N) {  // no sample beyond the kernel length matters
      boost::circular_buffer<T> b2(buf);
      for (size_t i = N; i < b2.size(); i++) b2[i] = (T) (c.r.chance(0.3) ? NAN : c.r.value() * 1e6);
      T g2 = NaiveConvolution(k, b2, dt, (bool) rev);
      CHECK(near(g2, want, tol), "beyond-kernel/" + key, "depends on samples beyond the kernel length: %g instead of %Lg", (double) g2, want);
      c.obs("beyond-kernel");
    }
    {  // linear in both
      std::vector<T> k2(N), ks(N);
      boost::circular_buffer<T> s2(buf), ss(buf);
      T al = (T) c.r.range(-4, 4), be = (T) c.r.range(-4, 4);
      std::deque<T> m2(model.size());
      for (int i = 0; i < N; i++) { k2[i] = (T) c.r.value(); ks[i] = al * k[i] + be * k2[i]; }
      for (size_t i = 0; i < model.size(); i++) { m2[i] = (T) c.r.value(); s2[i] = m2[i]; ss[i] = al * buf[i] + be * m2[i]; }
      LD mk, ms;
      LD wk = ref(k2, model, rev, mk), ws = ref(k, m2, rev, ms);
      CHECK(near(NaiveConvolution(ks, buf, dt, (bool) rev), al * want + be * wk, 4 * (10 + N) * eps * (labs_(al) * mag + labs_(be) * mk)), "linear-kernel/" + key, "not linear in the kernel");
      CHECK(near(NaiveConvolution(k, ss, dt, (bool) rev), al * want + be * ws, 4 * (10 + N) * eps * (labs_(al) * mag + labs_(be) * ms)), "linear-signal/" + key, "not linear in the signal");
    }
  }
}
SECTION(conv_double, 8000, 200000) { conv<double>(c, "double"); }
SECTION(conv_float, 2000, 40000) { conv<float>(c, "float"); }
SECTION(refusal, 60, 400) {
  int N = (int) c.r.range(2, 30), len = (int) c.r.range(0, N - 1);
  std::vector<double> k(N, 1.5);
  boost::circular_buffer<double> b(N + 5);
  for (int i = 0; i < len; i++) b.push_back(i);
  for (int rev = 0; rev < 2; rev++) {
    Outcome o = observe([&]() { volatile double v = NaiveConvolution(k, b, 0.1, (bool) rev); (void) v; });
    CHECK(refused(o), "short-signal-accepted", "signal of %d samples with a kernel of %d: %s", len, N, oname(o));
    c.obs("short-signal-refused");
    if (len == N - 1) c.obs("short-by-one");
  }
}
}  // namespace mon
MON_MAIN
