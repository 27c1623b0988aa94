// Shared parts of the native replay drivers: argument parsing, input generation, crash / hang reporting.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace rp {
struct Arg {
  char k{'i'};                // 'i' integer, 's' text, 'n' null
  uint64_t i{};
  std::vector<uint32_t> s;
  std::string bytes() const { std::string r; for (auto x : s) r += static_cast<char>(x); return r; }
  std::u32string codes() const { std::u32string r; for (auto x : s) r += static_cast<char32_t>(x); return r; }
  std::wstring wide() const { std::wstring r; for (auto x : s) r += static_cast<wchar_t>(x); return r; }
};
using Args = std::vector<Arg>;
inline Arg I(uint64_t x) { Arg a; a.i = x; return a; }
inline Arg S(const std::string& t) { Arg a; a.k = 's'; for (auto c : t) a.s.push_back(static_cast<uint8_t>(c)); return a; }
inline Arg S(const std::u32string& t) { Arg a; a.k = 's'; for (auto c : t) a.s.push_back(c); return a; }
inline Arg N() { Arg a; a.k = 'n'; return a; }

// NUL terminated heap copy of exactly the right size (so that the address sanitizer sees any over-read)
struct CStr {
  std::unique_ptr<char[]> p;
  explicit CStr(const Arg& a) {
    if (a.k == 'n') return;
    auto b = a.bytes();
    p.reset(new char[b.size() + 1]);
    std::memcpy(p.get(), b.c_str(), b.size() + 1);
  }
  operator const char*() const { return p.get(); }
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s{x * 0x9E3779B97F4A7C15ull + 0x1234567} {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int pct) { return below(100) < static_cast<uint64_t>(pct); }
};

inline std::string u8(uint32_t c) {   // also encodes surrogates / beyond the last code point (invalid on purpose)
  std::string r;
  if (c < 0x80) r += static_cast<char>(c);
  else if (c < 0x800) { r += static_cast<char>(0xC0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += static_cast<char>(0xE0 | c >> 12); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
  else { r += static_cast<char>(0xF0 | (c >> 18 & 7)); r += static_cast<char>(0x80 | (c >> 12 & 63)); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
  return r;
}

inline uint32_t genCode(Rng& r) {
  static const uint32_t edges[]{0, 1, 0x1f, 0x20, 0x30, 0x41, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x17f, 0x180, 0x24f, 0x2b0,
      0x7ff, 0x800, 0x1100, 0x115f, 0x2000, 0x206f, 0x2100, 0x214f, 0x2150, 0x218f, 0x2190, 0x21ff, 0x2200, 0x22ff, 0x231a, 0x2329,
      0x2460, 0x24ff, 0x2500, 0x257f, 0x25a0, 0x25ff, 0x2600, 0x26ff, 0x2c60, 0x2c7f, 0x2e80, 0x2eff, 0x2ff0, 0x2fff, 0x3000, 0x303f,
      0x3040, 0x3041, 0x3042, 0x3046, 0x304b, 0x3096, 0x3099, 0x309a, 0x309b, 0x309f, 0x30a0, 0x30a1, 0x30ff, 0x3190, 0x319f, 0x31c0, 0x31ef,
      0x31f0, 0x31ff, 0x3200, 0x3247, 0x3250, 0x3400, 0x4dbf, 0x4dc0, 0x4dff, 0x4e00, 0x9fff, 0xa000, 0xa4cf, 0xa960, 0xac00, 0xd7a3, 0xd7ff,
      0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xf8ff, 0xf900, 0xfaff, 0xfb00, 0xfdff, 0xfe00, 0xfe0f, 0xfe10, 0xfe30, 0xfe6b, 0xfeff, 0xff00, 0xff01,
      0xff60, 0xff61, 0xffe0, 0xffe6, 0xffef, 0xfff0, 0xfffd, 0xffff, 0x10000, 0x16fe0, 0x1b000, 0x1f004, 0x1f300, 0x1f64f, 0x1f900, 0x1faff,
      0x20000, 0x2a6df, 0x2a6e0, 0x2a700, 0x2ebef, 0x2ebf0, 0x2f800, 0x2fa1f, 0x30000, 0x3134f, 0x31350, 0x3fffd, 0xe0100, 0xe01ef, 0x10ffff,
      0x110000, 0x13ffff};
  constexpr auto n = sizeof(edges) / sizeof(edges[0]);
  switch (r.below(6)) {
  case 0: return edges[r.below(n)];
  case 1: { auto x = edges[r.below(n)]; return r.chance(50) ? x + 1 : x ? x - 1 : 0; }
  case 2: return static_cast<uint32_t>(0x3000 + r.below(0x200));
  case 3: return static_cast<uint32_t>(r.below(0x80));
  case 4: return static_cast<uint32_t>(r.below(0x110000));
  default: { auto x = edges[r.below(n)]; return static_cast<uint32_t>(x + r.below(64)) % 0x140000; }
  }
}

inline size_t genLen(Rng& r) {
  switch (r.below(12)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return 2;
  case 10: return r.below(70);
  case 11: return r.chance(15) ? 200 + r.below(400) : r.below(20);
  default: return r.below(8);
  }
}

inline std::string genText(Rng& r, bool nul = true) {
  std::string t;
  for (auto n = genLen(r); n--;)
    switch (r.below(9)) {
    case 0: t += static_cast<char>(r.next()); break;
    case 1: { auto e = u8(genCode(r)); t += e.substr(0, 1 + r.below(e.size())); break; }
    case 2: { auto e = u8(genCode(r)); if (e.size() > 1) e[r.below(e.size())] = static_cast<char>(r.next()); t += e; break; }
    case 3: t += static_cast<char>("\x80\xbf\xc0\xc1\xc2\xdf\xe0\xef\xf0\xf4\xf7\xf8\xfb\xfe\xff\x7f"[r.below(16)]); break;
    case 4: { // overlong forms
      auto c = genCode(r) % 0x800;
      if (r.chance(50)) { t += '\xe0'; t += static_cast<char>(0x80 | (c >> 6 & 63)); t += static_cast<char>(0x80 | (c & 63)); }
      else { t += '\xf0'; t += static_cast<char>(0x80 | (genCode(r) >> 12 & 63)); t += static_cast<char>(0x80 | (c >> 6 & 63)); t += static_cast<char>(0x80 | (c & 63)); }
      break; }
    default: t += u8(genCode(r));
    }
  if (!nul) { std::string x; for (auto c : t) if (c) x += c; return x; }
  return t;
}
// well formed text only
inline std::string genGood(Rng& r) {
  std::string t;
  for (auto n = genLen(r); n--;) { auto c = genCode(r) % 0x110000; if (c && (c < 0xd800 || c > 0xdfff)) t += u8(c); }
  return t;
}
inline std::u32string genCodes(Rng& r) {
  std::u32string t;
  for (auto n = genLen(r); n--;) t += static_cast<char32_t>(r.chance(5) ? r.next() : genCode(r));
  return t;
}
inline uint64_t genInt(Rng& r) {
  switch (r.below(8)) {
  case 0: return r.below(4);
  case 1: return r.below(20);
  case 2: return r.next();
  case 3: return (uint64_t{1} << r.below(64)) - r.below(3);
  case 4: return static_cast<uint64_t>(-static_cast<int64_t>(r.below(300)));
  case 5: return r.below(300);
  case 6: return r.next() >> r.below(64);
  default: return 65530 + r.below(12);
  }
}

inline std::string show(const std::string& s) {
  std::string r{"\""}; char b[8];
  for (auto c : s) { snprintf(b, sizeof b, "\\x%02x", static_cast<uint8_t>(c)); if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c; else r += b; }
  return r + '"';
}
inline std::string show(const std::u32string& s) {
  std::string r{"["}; char b[16];
  for (auto c : s) { snprintf(b, sizeof b, "%x ", static_cast<unsigned>(c)); r += b; }
  return r + ']';
}
inline std::string show(const std::wstring& s) { std::u32string t; for (auto c : s) t += static_cast<char32_t>(c); return show(t); }
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(const char* s) { return s ? show(std::string{s}) : "null"; }
template <typename T> std::enable_if_t<std::is_integral_v<T>, std::string> show(T x) { return std::to_string(x); }
template <typename T> std::enable_if_t<std::is_enum_v<T>, std::string> show(T x) { return std::to_string(static_cast<long long>(x)); }
template <typename T> std::string show(const std::optional<T>& o) { return o ? "some " + show(*o) : "none"; }

inline std::string same(const auto& got, const auto& want) {
  return got == want ? std::string{} : "got " + show(got) + " expected " + show(want);
}
/// runs f; the result text is the value shown or "throws <type>"
template <typename F> std::string outcome(F f) {
  try { return f(); }
  catch (const std::exception& e) { return std::string{"throws "} + typeid(e).name(); }
}

struct Cmd {
  std::function<std::string(const Args&)> check;
  std::function<Args(Rng&)> gen;
  std::function<void(const std::function<void(Args)>&)> all;   // optional exhaustive part
};
inline std::map<std::string, Cmd>& cmds() { static std::map<std::string, Cmd> m; return m; }
inline void reg(const std::string& n, Cmd c) { cmds()[n] = std::move(c); }

inline std::string& current() { static std::string s; return s; }
inline std::string text(const std::string& name, const Args& a) {
  std::string r{"check|" + name};
  char b[16];
  for (auto& x : a) {
    r += '|';
    if (x.k == 'n') r += 'n';
    else if (x.k == 'i') r += "i:" + std::to_string(x.i);
    else { r += "s:"; for (size_t k = 0; k < x.s.size(); ++k) { snprintf(b, sizeof b, "%s%x", k ? "," : "", x.s[k]); r += b; } }
  }
  return r;
}
inline const Args* curArgs{};
inline const std::string* curName{};
inline void report(const char* why) {
  static bool once = false;
  if (once) return;
  once = true;
  if (curArgs) { auto t = text(*curName, *curArgs); printf("FAIL %s : %s\n", t.c_str(), why); fflush(stdout); }
}
inline void onDeath() { report("sanitizer report / crash"); }
inline void onAlarm(int) { report("no termination within 20 s"); _exit(1); }
inline void onAbort(int) { report("abort / terminate"); _exit(1); }

inline Arg parse(const std::string& t) {
  if (t == "n") return N();
  if (t.rfind("i:", 0) == 0) return I(std::stoull(t.substr(2)));
  Arg a; a.k = 's';
  std::stringstream ss{t.substr(2)};
  for (std::string x; std::getline(ss, x, ',');) a.s.push_back(static_cast<uint32_t>(std::stoul(x, nullptr, 16)));
  return a;
}

inline std::string runOne(const std::string& name, const Cmd& c, const Args& a) {
  curArgs = &a; curName = &name;
  std::string r;
  try { r = c.check(a); }
  catch (const std::exception& e) { r = std::string{"unexpected exception "} + typeid(e).name() + ": " + e.what(); }
  curArgs = nullptr;
  return r;
}

inline int run(int argc, char** argv) {
  __sanitizer_set_death_callback(onDeath);
  std::signal(SIGALRM, onAlarm);
  std::signal(SIGABRT, onAbort);
  std::vector<std::string> v(argv + 1, argv + argc);
  if (v.size() < 2 || !cmds().count(v[1])) { fprintf(stderr, "no such command\n"); return 3; }
  auto& c = cmds()[v[1]];
  if (v[0] == "check") {
    Args a;
    for (size_t k = 2; k < v.size(); ++k) a.push_back(parse(v[k]));
    alarm(20);
    auto r = runOne(v[1], c, a);
    if (r.empty()) { printf("OK\n"); return 0; }
    printf("FAIL %s : %s\n", text(v[1], a).c_str(), r.c_str());
    return 1;
  }
  Rng rng{std::stoull(v[2])};
  const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(std::stoi(v[3]));
  uint64_t tried = 0; bool bad = false;
  auto one = [&](const Args& a) {
    if (bad) return;
    ++tried;
    if (tried % 1024 == 1) alarm(20);
    auto r = runOne(v[1], c, a);
    if (!r.empty()) { bad = true; printf("FAIL %s : %s\n", text(v[1], a).c_str(), r.c_str()); }
  };
  if (c.all) c.all(one);
  while (!bad && c.gen && std::chrono::steady_clock::now() < end)
    for (int k = 0; k < 256 && !bad; ++k) one(c.gen(rng));
  printf("TRIED %llu\n", static_cast<unsigned long long>(tried));
  return bad;
}
} // namespace rp
