// Independent character categories.
#pragma once
#include "common.h"
#include "oracle_utf8.h"
namespace orc {
using Ranges = std::vector<std::pair<uint32_t, uint32_t>>;
inline const Ranges Hira{{0x3040, 0x309f}}, Kata{{0x30a0, 0x30ff}, {0x31f0, 0x31ff}},
    Common{{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}},
    Rare{{0x2e80, 0x2eff}, {0x2a700, 0x2ebef}, {0x2f800, 0x2fa1f}, {0x30000, 0x3134f}},
    Punct{{0x2000, 0x206f}, {0x3000, 0x303f}, {0xfff0, 0xffff}},
    Symbol{{0x2100, 0x214f}, {0x2190, 0x21ff}, {0x2200, 0x22ff}, {0x2500, 0x257f}, {0x25a0, 0x25ff}, {0x2600, 0x26ff}, {0x2ff0, 0x2fff}, {0x3190, 0x319f}, {0x31c0, 0x31ef}},
    Letter{{0x80, 0xff}, {0x100, 0x17f}, {0x180, 0x24f}, {0x2150, 0x218f}, {0x2460, 0x24ff}, {0x2c60, 0x2c7f}, {0xff00, 0xffef}},
    Marks{{0xfe00, 0xfe0f}, {0x3099, 0x309a}};
inline Ranges cat(std::initializer_list<Ranges> l) { Ranges r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
inline bool in(uint32_t c, const Ranges& r) { for (auto& [a, b] : r) if (c >= a && c <= b) return true; return false; }
inline bool is(const std::string& s, bool one, const Ranges& r) {
  if (s.size() < 2) return false;
  auto d = decode(s);
  if (!one) return !d.empty() && in(d[0], r);
  return s.size() <= 8 && (d.size() == 1 || (d.size() == 2 && in(d[1], Marks))) && in(d[0], r);
}
inline bool isAll(const std::string& s, const Ranges& r) {
  bool after = false;
  for (auto c : decode(s)) {
    if (after && in(c, Marks)) after = false;
    else if (in(c, r)) after = true;
    else return false;
  }
  return true;
}
} // namespace orc
