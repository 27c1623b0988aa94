// Executable oracle for the small value types.
#include "common.h"
#include <kt_kana/KanaEnums.h>
#include <kt_kanji/Kanji.h>
#include <kt_kanji/MorohashiId.h>
#include <kt_kanji/Strokes.h>
#include <kt_utils/Args.h>
#include <kt_utils/Bitmask.h>
#include <kt_utils/BlockRange.h>
#include <cstring>
using namespace kanji_tools;
using rp::Rng; using rp::I; using rp::S; using rp::reg; using rp::same;
using List = std::vector<rp::Arg>;
using Each = std::function<void(rp::Args)>;

static std::string how(const std::function<std::string()>& f) {
  try { return f(); }
  catch (const RangeError&) { return "RangeError"; }
  catch (const DomainError&) { return "DomainError"; }
}
static std::string num(auto x) { return std::to_string(static_cast<unsigned long long>(x)); }
namespace kanji_tools {
enum class F32 : uint32_t {};
enum class F64 : uint64_t {};
template <> inline constexpr auto is_bitmask<F32>{true};
template <> inline constexpr auto is_bitmask<F64>{true};
}
template <typename T> static void flags(const std::string& n) {
  using U = std::underlying_type_t<T>;
  reg("flags " + n, {[](const rp::Args& a) {
      const U x = static_cast<U>(a[0].i), y = static_cast<U>(a.size() > 1 ? a[1].i : 0x5a5a5a5a5a5a5a5aULL);
      const T p = static_cast<T>(x), q = static_cast<T>(y);
      auto u = [](T t) { return static_cast<uint64_t>(static_cast<U>(t)); };
      std::string r;
      r += same(u(p & q), static_cast<uint64_t>(static_cast<U>(x & y)));
      r += same(u(p | q), static_cast<uint64_t>(static_cast<U>(x | y)));
      r += same(u(p ^ q), static_cast<uint64_t>(static_cast<U>(x ^ y)));
      r += same(u(~p), static_cast<uint64_t>(static_cast<U>(~x)));
      T t{p}; T* w = &(t &= q); r += same(u(t), static_cast<uint64_t>(static_cast<U>(x & y))) + same(w == &t, true);
      t = p; w = &(t |= q); r += same(u(t), static_cast<uint64_t>(static_cast<U>(x | y))) + same(w == &t, true);
      t = p; w = &(t ^= q); r += same(u(t), static_cast<uint64_t>(static_cast<U>(x ^ y))) + same(w == &t, true);
      r += same(hasValue(p), x != 0) + same(!p, x == 0);
      return r; }, {},
      [](const Each& f) { for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) { f({I(1ULL << i), I(1ULL << j)}); f({I(~(1ULL << i)), I(1ULL << j)}); f({I((1ULL << i) - 1), I(~0ULL << j)}); } f({I(0), I(0)}); }});
}
static auto rel(auto a, auto b) { return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }

struct Block { Code s, e; const void* v; const char* p; size_t n; };
static std::vector<std::pair<uint32_t, uint32_t>> kanjiRange() {
  return {{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}, {0xfe00, 0xfe0f}, {0x2e80, 0x2eff}, {0x2a700, 0x2ebef}, {0x2f800, 0x2fa1f}, {0x30000, 0x3134f}};
}
static std::string wantAt(const std::vector<std::pair<uint32_t, uint32_t>>& bs, uint64_t i) {
  if (i > bs.size() * 3) return "RangeError";
  if (i == bs.size() * 3) return "0";
  return num(i % 3 == 0 ? bs[i / 3].first : i % 3 == 1 ? '-' : bs[i / 3].second);
}
template <typename R> static void fixedRange(const std::string& n, const R& r, std::vector<std::pair<uint32_t, uint32_t>> bs) {
  reg("range " + n, {[&r, bs](const rp::Args& a) { return same(how([&] { return num(static_cast<uint32_t>(r[a[0].i])); }), wantAt(bs, a[0].i)); },
      [](Rng& g) { return rp::Args{I(rp::genInt(g))}; }, [](const Each& f) { for (uint64_t i = 0; i < 100; ++i) { f({I(i)}); f({I(~i)}); f({I((1ULL << 32) + i)}); } }});
}
static UnicodeBlock& block(Block& b) { static_assert(sizeof(Block) == sizeof(UnicodeBlock)); return *reinterpret_cast<UnicodeBlock*>(&b); }

// what a Morohashi ID text means: "id/type" or DomainError
static std::string morohashi(const std::string& s) {
  auto ends = [&](const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; };
  size_t b = 0, e = s.size();
  int t = 0;
  if (ends("PP") || ends("''")) { t = 2; e -= 2; }
  else if (ends("P") || ends("'")) { t = 1; e -= 1; }
  else if (!s.empty() && s[0] == 'H') { t = 3; b = 1; }
  if (s.empty()) return "0/0";
  if (b == e) return "DomainError";
  uint64_t v = 0;
  for (; b < e; ++b) {
    if (s[b] < '0' || s[b] > '9') return "DomainError";
    v = v * 10 + static_cast<uint64_t>(s[b] - '0');
    if (v > 65535) return "DomainError";
  }
  if (t && !v) return "DomainError";
  return num(v) + "/" + num(t);
}
static rp::Args genMoro(Rng& r) {
  std::string s = r.chance(30) ? "H" : "";
  if (r.chance(20)) s += std::string(r.below(4), '0');
  if (r.chance(30)) s += num(65526 + r.below(20)); else if (r.chance(20)) s += num(rp::genInt(r)); else for (auto k = r.below(7); k; --k) s += static_cast<char>('0' + r.below(10));
  if (r.chance(40)) s += std::vector<std::string>{"P", "PP", "'", "''", "P'", "'P", "PPP"}[r.below(7)];
  if (r.chance(20) && !s.empty()) s[r.below(s.size())] = static_cast<char>(r.chance(50) ? '/' + static_cast<int>(r.below(12)) : r.below(256));
  return {S(s)};
}

int main(int argc, char** argv) {
  flags<ConvertFlags>("ConvertFlags"); flags<Kanji::Info>("Kanji::Info"); flags<F32>("VcFlags32"); flags<F64>("VcFlags64");
  reg("args", {[](const rp::Args& a) {
      std::string r;
      const int64_t n = static_cast<int32_t>(a[0].i);
      const bool list = a.size() > 1 ? a[1].i & 1 : true;
      std::vector<const char*> v(70000, nullptr);
      for (size_t k = 0; k < v.size(); ++k) v[k] = reinterpret_cast<const char*>(&v[k]);
      const auto l = list ? v.data() : nullptr;
      auto want = [&](int64_t c, int64_t i) {
        if (c < 0 || c > 65535) return std::string{"RangeError"};
        if ((c != 0) != list) return std::string{"DomainError"};
        if (i < 0) return num(c) + (c ? "t" : "f");
        return i >= c ? std::string{"RangeError"} : num(i); };
      auto at = [&](const kanji_tools::Args& x, int64_t i) { return i < 0 ? num(x.size()) + (x ? "t" : "f") : num(reinterpret_cast<const char* const*>(x[static_cast<uint16_t>(i)]) - v.data()); };
      for (int64_t i : {int64_t{-1}, static_cast<int64_t>(a.size() > 2 ? a[2].i & 0xffff : 0), int64_t{0}, n - 1, n}) {
        if (i > 65535 || (i < 0 && i != -1)) continue;
        r += same(how([&] { return at(kanji_tools::Args{static_cast<int>(n), l}, i); }), want(n, i));
        r += same(how([&] { return at(kanji_tools::Args{static_cast<uint16_t>(n), l}, i); }), want(n & 0xffff, i));
      }
      const kanji_tools::Args e;
      r += same(static_cast<int>(e.size()), 0) + same(static_cast<bool>(e), false);
      return r; }, [](Rng& r) { return rp::Args{I(rp::genInt(r)), I(r.below(2)), I(rp::genInt(r) & 0xffff)}; },
      [](const Each& f) { for (int64_t n : {0, 1, 2, 5, 255, 256, 257, 65534, 65535, 65536, 65537, 131072, -1, -65536, -65535, INT32_MAX, INT32_MIN}) for (uint64_t l : {0, 1}) for (uint64_t i : {0, 1, 2, 4, 5, 255, 256, 65534, 65535}) f({I(static_cast<uint64_t>(n)), I(l), I(i)}); }});
  fixedRange("KanjiRange", KanjiRange, kanjiRange());
  fixedRange("WideLetterRange", WideLetterRange, {{0xff00, 0xffef}});
  fixedRange("HiraganaRange", HiraganaRange, {{0x3040, 0x309f}});
  fixedRange("KatakanaRange", KatakanaRange, {{0x30a0, 0x30ff}, {0x31f0, 0x31ff}});
  fixedRange("KanaRange", KanaRange, {{0x3040, 0x30ff}, {0x31f0, 0x31ff}});
  for (size_t n : {1, 2, 3})
    reg("range " + num(n), {[n](const rp::Args& a) {
        std::vector<Block> b; std::vector<std::pair<uint32_t, uint32_t>> w;
        for (size_t k = 0; k < 3; ++k) {
          const uint32_t s = a.size() > 2 * k + 2 ? static_cast<uint32_t>(a[2 * k].i) : 0x100 + static_cast<uint32_t>(k), e = a.size() > 2 * k + 2 ? static_cast<uint32_t>(a[2 * k + 1].i) : 0x900 + static_cast<uint32_t>(k);
          b.push_back({s, e, nullptr, "", 0}); if (k < n) w.push_back({s, e}); }
        const auto i = a.empty() ? 0 : a[a.size() - 1].i;
        std::string r;
        for (uint64_t j : {i, uint64_t{0}, uint64_t{1}, uint64_t{2}, uint64_t{3}, uint64_t{5}, uint64_t{6}, uint64_t{9}, uint64_t{10}}) {
          auto go = [&](const auto& x) { r += same(how([&] { return num(static_cast<uint32_t>(x[j])); }), wantAt(w, j)) + same(static_cast<size_t>(x.size()), 3 * n);
            if (j <= 3 * n) r += same(num(static_cast<uint32_t>(x()[j])), wantAt(w, j)); };
          if (n == 1) go(BlockRange{block(b[0])}); else if (n == 2) go(BlockRange{block(b[0]), block(b[1])}); else go(BlockRange{block(b[0]), block(b[1]), block(b[2])});
        }
        return r; }, [](Rng& r) { rp::Args a; for (int k = 0; k < 6; ++k) a.push_back(I(r.below(0x20000))); a.push_back(I(rp::genInt(r))); return a; },
        [](const Each& f) { for (uint64_t i = 0; i < 12; ++i) for (uint64_t h : {uint64_t{0}, uint64_t{1} << 32, uint64_t{1} << 63}) f({I(5), I(6), I(7), I(8), I(9), I(10), I(h + i)}); }});
  reg("InBlock", {[](const rp::Args& a) { Block b{static_cast<Code>(a[0].i), static_cast<Code>(a[1].i), nullptr, "", 0}; const auto c = static_cast<uint32_t>(a[2].i);
      return same(block(b)(static_cast<Code>(c)), c >= static_cast<uint32_t>(a[0].i) && c <= static_cast<uint32_t>(a[1].i)); },
      [](Rng& r) { const auto c = rp::genInt(r); return rp::Args{I(c - r.below(3)), I(c + r.below(3)), I(c)}; }, {}});
  reg("BlockSize", {[](const rp::Args& a) { Block b{static_cast<Code>(a[0].i), static_cast<Code>(a[1].i), nullptr, "", 0};
      return same(static_cast<uint32_t>(block(b).range()), static_cast<uint32_t>(a[1].i - a[0].i + 1)); },
      [](Rng& r) { const auto c = rp::genInt(r); return rp::Args{I(c), I(c + r.below(300))}; }, {}});
  // stroke counts: one command drives every member
  auto two = [](int n, int v) { return n < 2 || n > 64 || v < 3 || v > 33 ? "RangeError" : n == v ? "DomainError" : ""; };
  auto strokes = [two](const rp::Args& a) {
    const uint8_t n = static_cast<uint8_t>(a[0].i), v = static_cast<uint8_t>(a.size() > 1 ? a[1].i : 9);
    std::string r;
    auto show = [](const Strokes& s) { return num(s.value()) + "," + num(s.variant()) + "," + num(s.hasVariant()) + "," + s.toString() + "," + s.toString(true); };
    r += same(how([&] { return show(Strokes{n}); }), n && n <= 64 ? num(n) + ",0,0," + num(n) + "," + num(n) : std::string{"RangeError"});
    std::string w = two(n, v);
    r += same(how([&] { return show(Strokes{n, v}); }), w.empty() ? num(n) + "," + num(v) + ",1," + num(n) + "," + num(n) + "/" + num(v) : w);
    return r; };
  auto pairs = [](const Each& f) { for (uint64_t n = 0; n < 256; ++n) for (uint64_t v = 0; v < 256; ++v) f({I(n), I(v)}); };
  for (auto n : {"Strokes", "StrokesText", "StrokesVariant", "StrokesVariantText"}) reg(n, {strokes, {}, pairs});
  auto compare = [two](const rp::Args& in) {
    std::vector<int> k;
    for (auto& x : in) k.push_back(static_cast<uint8_t>(x.i));
    k.resize(4);
    auto a = std::pair{k[0], in.size() == 4 ? k[1] : 0}, b = std::pair{in.size() == 4 ? k[2] : k[1], in.size() == 4 ? k[3] : in.size() == 3 ? k[2] : 0};
    auto ok = [&](auto p) { return p.second ? !*two(p.first, p.second) : p.first >= 1 && p.first <= 64; };
    if (!ok(a) || !ok(b)) return std::string{};
    auto mk = [](auto p) { return p.second ? Strokes{static_cast<uint8_t>(p.first), static_cast<uint8_t>(p.second)} : Strokes{static_cast<uint8_t>(p.first)}; };
    return same(rel(mk(a), mk(b)), rel(a, b)); };
  reg("StrokesCompare", {compare, {}, [](const Each& f) { for (uint64_t n = 1; n < 65; ++n) for (uint64_t v = 1; v < 65; ++v) f({I(n), I(v)}); }});
  reg("StrokesMixedCompare", {compare, [](Rng& r) { return rp::Args{I(1 + r.below(64)), I(2 + r.below(63)), I(3 + r.below(31))}; }, {}});
  reg("StrokesVariantCompare", {compare, [](Rng& r) { const auto n = 2 + r.below(60); return rp::Args{I(n), I(3 + r.below(31)), I(n + r.below(3)), I(3 + r.below(31))}; }, {}});
  auto show = [](const MorohashiId& m) { return num(m.id()) + "/" + num(static_cast<int>(to_underlying(m.idType()))); };
  auto fixedMoro = [](const Each& f) { for (auto s : {"", "0", "000", "1", "65535", "65536", "655350", "H", "P", "PP", "'", "''", "H1", "H0", "0P", "1P", "1PP", "1P'", "HP", "H1P", "00065535", "99999", "65535P", "65536PP", "12a", "a12", " 1", "+1", "-1"}) f({S(std::string{s})}); };
  reg("morohashi", {[show](const rp::Args& a) { const auto s = a[0].bytes(); return same(how([&] { return show(MorohashiId{s}); }), morohashi(s)); }, genMoro, fixedMoro});
  // id and type, made through the text they come from
  auto make = [](uint64_t id, uint64_t t) { const auto n = num(id); return t == 3 ? "H" + n : n + (t == 1 ? "P" : t == 2 ? "PP" : ""); };
  reg("morohashi text", {[make](const rp::Args& a) -> std::string {
      if (a.empty()) { const MorohashiId x; return same(static_cast<int>(x.id()), 0) + same(static_cast<bool>(x), false) + same(x.toString(), std::string{}); }
      const auto id = a[0].i & 0xffff, t = a.size() > 1 ? a[1].i & 3 : 0;
      if (!id && t) return {};
      const MorohashiId x{make(id, t)};
      return same(x.toString(), id ? make(id, t) : std::string{}) + same(static_cast<bool>(x), id != 0); }, {},
      [](const Each& f) { f({}); for (uint64_t i = 0; i < 65536; ++i) f({I(i), I(i)}); for (uint64_t i = 0; i < 200; ++i) for (uint64_t t = 0; t < 4; ++t) f({I(i), I(t)}); }});
  reg("morohashi compare", {[make](const rp::Args& a) -> std::string {
      const auto x = std::pair{a[0].i & 0xffff, a[1].i & 3}, y = std::pair{a[2].i & 0xffff, a[3].i & 3};
      if ((!x.first && x.second) || (!y.first && y.second)) return {};
      return same(rel(MorohashiId{make(x.first, x.second)}, MorohashiId{make(y.first, y.second)}), rel(x, y)); },
      [](Rng& r) { const auto n = r.below(65536); return rp::Args{I(n), I(r.below(4)), I(n + r.below(3) - 1), I(r.below(4))}; }, {}});
  return rp::run(argc, argv);
}
