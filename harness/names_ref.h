// series names: the usual ones, and names that differ from one already used only a little
#ifndef NAMES_REF_H
#define NAMES_REF_H
#include "mon.h"
namespace names {
static const char *const USUAL[] = {"Cx", "Cy", "", "a", "b", "Cx ", "cx", "serie_with_a_rather_long_name_0123456789", "z", "0", "1", "10", "mz", "Mz"};
inline std::string usual(mon::Rng &r) { return USUAL[r.range(0, 13)]; }
// a name close to n, but different from it
inline std::string close_to(mon::Rng &r, const std::string &n) {
  switch (r.range(0, 8)) {
    case 0: return n + std::string(1, '\0');
    case 1: return n + std::string("\0x", 2);
    case 2: return n + std::string(1, (char) ('a' + r.range(0, 25)));
    case 3: if (n.size() > 1) return n.substr(0, n.size() - 1); return n + "_";
    case 4: {
      static const long PAD[] = {64, 65, 128, 256, 300, 1024, 4100, 66000};
      return (n.size() > 200 ? std::string() : n) + std::string(PAD[r.range(0, 7)], '.') + (r.chance(0.5) ? "a" : "b");
    }
    case 5: return n + " ";
    case 6: { std::string m = n + "\xc3\xa9"; return m; }
    case 7: { std::string m = n; if (m.size() > 200 && r.chance(0.7)) { m[m.size() - 1] = m.back() == 'a' ? 'b' : 'a'; return m; } if (!m.empty()) { m[m.size() - 1] ^= 0x20; return m; } return "\t"; }
    default: return " " + n;
  }
}
template<class Map> std::string known(mon::Rng &r, const Map &m) {
  auto it = m.begin();
  std::advance(it, r.range(0, (long) m.size() - 1));
  return it->first;
}
// a name to add or to look up: usual, or close to one the table holds
template<class Map> std::string any(mon::Rng &r, const Map &m) {
  return m.empty() || r.chance(0.7) ? usual(r) : close_to(r, known(r, m));
}
// a name the table does not hold
template<class Map> std::string unknown(mon::Rng &r, const Map &m) {
  for (int k = 0; k < 20; k++) {
    std::string n = any(r, m);
    if (!m.count(n)) return n;
  }
  return "no such serie";
}
}  // namespace names
#endif
