// UTF-8 decoding / encoding / validation oracle, written from RFC 3629 (independently of /repo)
#pragma once
#include "common.h"
namespace orc {
struct D { uint32_t code; size_t len; };
inline bool ct(uint8_t b) { return b >= 0x80 && b <= 0xBF; }
inline D one(const std::string& t, size_t p) { // t is cut at its first NUL
  auto at = [&](size_t k) -> uint8_t { return p + k < t.size() ? static_cast<uint8_t>(t[p + k]) : 0; };
  const auto b = at(0);
  if (b < 0x80) return {b, 1};
  const size_t need = b >= 0xF8 || b < 0xC0 ? 0 : b >= 0xF0 ? 4 : b >= 0xE0 ? 3 : 2;
  if (!need) return {0xFFFD, 1};
  uint32_t v = b & (need == 2 ? 31 : need == 3 ? 15 : 7);
  for (size_t k = 1; k < need; ++k) {
    if (!ct(at(k))) return {0xFFFD, k};
    v = v * 64 + (at(k) - 0x80);
  }
  const uint32_t min = need == 2 ? 0x80 : need == 3 ? 0x800 : 0x10000;
  if (v < min || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) v = 0xFFFD;
  return {v, need};
}
inline std::u32string decode(const std::string& full, size_t max = 0) {
  const std::string t{full.c_str()};
  std::u32string r;
  for (size_t p = 0; p < t.size() && (!max || r.size() < max);) { auto d = one(t, p); r += static_cast<char32_t>(d.code); p += d.len; }
  return r;
}
inline std::string encode(uint32_t c) { return c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF) ? std::string{"\xEF\xBF\xBD"} : rp::u8(c); }
inline std::string encode(const std::u32string& s) { std::string r; for (auto c : s) r += encode(c); return r; }
enum V { Valid, CharTooLong, ContinuationByte, InvalidCodePoint, MissingBytes, Overlong, StringTooLong, Single = 100 };
inline V validate(const std::string& full, bool one_) {
  const std::string t{full.c_str()};
  auto at = [&](size_t k) -> uint8_t { return k < t.size() ? static_cast<uint8_t>(t[k]) : 0; };
  const auto b = at(0);
  if (b < 0x80) return Single;
  if (b < 0xC0) return ContinuationByte;
  if (!ct(at(1))) return MissingBytes;
  if (b >= 0xE0 && !ct(at(2))) return MissingBytes;
  if (b >= 0xF8) return CharTooLong;
  if (b >= 0xF0 && !ct(at(3))) return MissingBytes;
  const size_t n = b >= 0xF0 ? 4 : b >= 0xE0 ? 3 : 2;
  uint32_t v = b & (n == 2 ? 31 : n == 3 ? 15 : 7);
  for (size_t k = 1; k < n; ++k) v = v * 64 + (at(k) & 63);
  if (v < (n == 2 ? 0x80u : n == 3 ? 0x800u : 0x10000u)) return Overlong;
  if (v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) return InvalidCodePoint;
  return one_ && t.size() > n ? StringTooLong : Valid;
}
} // namespace orc
