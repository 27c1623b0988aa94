// Executable oracle for libs/utils: compares the functions under contract with independent definitions.
#include "common.h"
#include "oracle_utf8.h"
#include "oracle_blocks.h"
#include <kt_utils/Exception.h>
#include <kt_utils/UnicodeBlock.h>
using namespace rp;
namespace kt = kanji_tools;
using kt::Code;

static void utf8Cmds() {
  auto tn = [](Rng& r, bool nul) { return Args{S(genText(r, nul)), I(r.chance(60) ? 0 : genInt(r))}; };
  auto t1 = [](bool nul) { return [nul](Rng& r) { return Args{S(genText(r, nul))}; }; };
  auto nul0 = [](const std::function<void(Args)>& f) { f({N()}); f({S(std::string{})}); };
  auto nul1 = [](const std::function<void(Args)>& f) { f({N(), I(0)}); f({N(), I(1)}); f({S(std::string{}), I(0)}); };
  reg("fromUtf8(char const*, unsigned long)", {[](const Args& a) {
        CStr s{a[0]}; return same(kt::fromUtf8(s, a[1].i), orc::decode(a[0].bytes(), a[1].i)); },
      [=](Rng& r) { return tn(r, false); }, nul1});
  reg("fromUtf8(std::string const&, unsigned long)", {[](const Args& a) {
        return same(kt::fromUtf8(a[0].bytes(), a[1].i), orc::decode(a[0].bytes(), a[1].i)); }, [=](Rng& r) { return tn(r, true); }, {}});
  auto w = [](const std::u32string& s) { std::wstring r; for (auto c : s) r += static_cast<wchar_t>(c); return r; };
  reg("fromUtf8ToWstring(char const*)", {[=](const Args& a) {
        CStr s{a[0]}; return same(kt::fromUtf8ToWstring(static_cast<const char*>(s)), w(orc::decode(a[0].bytes()))); }, t1(false), nul0});
  reg("fromUtf8ToWstring(std::string const&)", {[=](const Args& a) {
        return same(kt::fromUtf8ToWstring(a[0].bytes()), w(orc::decode(a[0].bytes()))); }, t1(true), {}});
  auto gc = [](const std::string& t) -> Code { auto d = orc::decode(t, 1); return d.empty() ? 0 : d[0]; };
  reg("getCode(char const*)", {[=](const Args& a) {
        CStr s{a[0]}; return same(static_cast<uint32_t>(kt::getCode(static_cast<const char*>(s))), static_cast<uint32_t>(gc(a[0].bytes()))); }, t1(false), nul0});
  reg("getCode(std::string const&)", {[=](const Args& a) {
        return same(static_cast<uint32_t>(kt::getCode(a[0].bytes())), static_cast<uint32_t>(gc(a[0].bytes()))); }, t1(true), {}});
  auto codes = [](const std::function<void(Args)>& f) { for (uint32_t c = 0; c < 0x112000; ++c) f({I(c)}); for (int k = 0; k < 32; ++k) f({I(1u << k)}); f({I(0xffffffff)}); };
  auto gcode = [](Rng& r) { return Args{I(static_cast<uint32_t>(r.next()))}; };
  reg("toUtf8(char32_t)", {[](const Args& a) { return same(kt::toUtf8(static_cast<Code>(a[0].i)), orc::encode(static_cast<uint32_t>(a[0].i))); }, gcode, codes});
  reg("toUtf8(int)", {[](const Args& a) { return same(kt::toUtf8(static_cast<int>(a[0].i)), orc::encode(static_cast<uint32_t>(a[0].i))); }, gcode, codes});
  reg("toUtf8(unsigned int)", {[](const Args& a) { return same(kt::toUtf8(static_cast<uint32_t>(a[0].i)), orc::encode(static_cast<uint32_t>(a[0].i))); }, gcode, codes});
  auto gs = [](Rng& r) { return Args{S(genCodes(r))}; };
  reg("toUtf8(std::u32string const&)", {[](const Args& a) { return same(kt::toUtf8(a[0].codes()), orc::encode(a[0].codes())); }, gs, {}});
  reg("toUtf8(std::wstring const&)", {[](const Args& a) { return same(kt::toUtf8(a[0].wide()), orc::encode(a[0].codes())); }, gs, {}});
  auto val = [](auto call, const Args& a) -> std::string {
    const bool one{(a.back().i & 1) != 0};
    auto e{static_cast<kt::Utf8Result>(77)};
    const auto got{call(e, one)};
    const auto v{a[0].k == 'n' ? orc::Single : orc::validate(a[0].bytes(), one)};
    const auto want{v == orc::Single ? kt::MBUtf8Result::NotMultiByte : v == orc::Valid ? kt::MBUtf8Result::Valid : kt::MBUtf8Result::NotValid};
    if (got != want) return same(got, want);
    return same(static_cast<int>(e), want == kt::MBUtf8Result::NotValid ? static_cast<int>(v) : 77);
  };
  auto gv = [](bool nul) { return [nul](Rng& r) { return Args{S(genText(r, nul)), I(r.below(2))}; }; };
  reg("validateMBUtf8(char const*, kanji_tools::Utf8Result&, bool)", {[=](const Args& a) {
        CStr s{a[0]}; return val([&](auto& e, bool o) { return kt::validateMBUtf8(static_cast<const char*>(s), e, o); }, a); }, gv(false),
      [](const std::function<void(Args)>& f) { f({N(), I(0)}); f({N(), I(1)}); }});
  reg("validateMBUtf8(std::string const&, kanji_tools::Utf8Result&, bool)", {[=](const Args& a) {
        const auto s{a[0].bytes()}; return val([&](auto& e, bool o) { return kt::validateMBUtf8(s, e, o); }, a); }, gv(true), {}});
  reg("isValidMBUtf8(string, bool)", {[](const Args& a) { return same(kt::isValidMBUtf8(a[0].bytes(), a[1].i & 1), orc::validate(a[0].bytes(), a[1].i & 1) == orc::Valid); }, gv(true), {}});
  reg("isValidUtf8(string, bool)", {[](const Args& a) { auto v = orc::validate(a[0].bytes(), a[1].i & 1); return same(kt::isValidUtf8(a[0].bytes(), a[1].i & 1), v == orc::Valid || v == orc::Single); }, gv(true), {}});
}

static void blockCmds() {
  using namespace orc;
  struct C { const char* n; bool (*one)(const std::string&, bool); bool (*all)(const std::string&); Ranges r; };
  const C cs[]{{"Hiragana", kt::isHiragana, kt::isAllHiragana, Hira}, {"Katakana", kt::isKatakana, kt::isAllKatakana, Kata},
      {"Kana", kt::isKana, kt::isAllKana, cat({Hira, Kata})}, {"CommonKanji", kt::isCommonKanji, kt::isAllCommonKanji, Common},
      {"RareKanji", kt::isRareKanji, kt::isAllRareKanji, Rare}, {"Kanji", kt::isKanji, kt::isAllKanji, cat({Common, Rare})},
      {"MBSymbol", kt::isMBSymbol, kt::isAllMBSymbol, Symbol}, {"MBLetter", kt::isMBLetter, kt::isAllMBLetter, Letter},
      {"MBPunctuation", nullptr, kt::isAllMBPunctuation, Punct},
      {"RecognizedUtf8", kt::isRecognizedUtf8, kt::isAllRecognizedUtf8, cat({Hira, Kata, Common, Rare, Punct, Symbol, Letter})}};
  auto few = [](Rng& r, const Ranges& rs) {   // mostly characters of the category, some marks, some noise
    std::string t;
    for (auto n = r.below(5); n--;) {
      switch (r.below(8)) {
      case 0: t += u8(Marks[r.below(2)].first + r.below(18)); break;
      case 1: t += genText(r, true); break;
      default: { auto& x = rs[r.below(rs.size())]; t += u8(r.chance(50) ? x.first + r.below(x.second - x.first + 1) : r.chance(50) ? x.first : x.second); }
      }
    }
    return r.chance(70) ? t : genText(r, true);
  };
  for (auto& c : cs) {
    auto every = [](const std::function<void(Args)>& f) {
      for (uint32_t x = 0; x < 0x110400; ++x) { f({S(u8(x)), I(1)}); f({S(u8(x)), I(0)}); } };
    auto every1 = [](const std::function<void(Args)>& f) { for (uint32_t x = 0; x < 0x110400; ++x) f({S(u8(x))}); };
    if (c.one) reg(std::string{"is"} + c.n + "(string, bool)", {[c](const Args& a) {
        return same(c.one(a[0].bytes(), a[1].i & 1), is(a[0].bytes(), a[1].i & 1, c.r)); },
      [=](Rng& r) { return Args{S(few(r, c.r)), I(r.below(2))}; }, every});
    reg(std::string{"isAll"} + c.n + "(string)", {[c](const Args& a) { return same(c.all(a[0].bytes()), isAll(a[0].bytes(), c.r)); },
      [=](Rng& r) { return Args{S(few(r, c.r))}; }, every1});
  }
  reg("isMBPunctuation(string, bool, bool)", {[](const Args& a) {
        auto s = a[0].bytes(); bool sp = a[1].i & 1, one = a[2].i & 1;
        auto want = s.rfind("\xe3\x80\x80", 0) == 0 ? sp && (s.size() == 3 || !one) : is(s, one, Punct);
        return same(kt::isMBPunctuation(s, sp, one), want); },
      [=](Rng& r) { auto t = r.chance(30) ? "\xe3\x80\x80" + (r.chance(50) ? std::string{} : genText(r)) : few(r, Punct); return Args{S(t), I(r.below(2)), I(r.below(2))}; },
      [](const std::function<void(Args)>& f) { for (uint32_t x = 0; x < 0x110000; ++x) for (int k = 0; k < 4; ++k) f({S(u8(x)), I(k & 1), I(k >> 1)}); }});
}

// ---------------------------------------------------------------- formatting and string helpers
static std::string bracket(const std::string& s, uint64_t t) {
  const auto k = static_cast<uint32_t>(t);
  return k > 2 ? s : std::string(1, "{(["[k]) + s + "})]"[k];
}
static std::string pad(std::string s, uint64_t n) {
  while (s.size() < n) s.insert(0, "0");
  return s.empty() ? "0" : s;
}
static std::string number(uint64_t x, int w, int base, bool upper, uint64_t min) {
  std::string r;
  const char* const digits{upper ? "0123456789ABCDEF" : "0123456789abcdef"};
  for (; x; x /= base) r.insert(0, 1, digits[x % base]);
  return pad(r, min ? min : base == 2 ? w : w / 4);
}
static std::string unicode(const std::u32string& s, uint64_t t) {
  std::string r;
  for (auto c : s) { if (!r.empty()) r += ' '; r += number(c, 32, 16, true, 4); }
  return bracket(r, t);
}
static std::vector<uint64_t> edgeInts() {
  std::vector<uint64_t> r;
  for (uint64_t k = 0; k < 300; ++k) r.push_back(k);
  for (int k = 0; k < 64; ++k) for (int d = -2; d < 3; ++d) r.push_back((uint64_t{1} << k) + d);
  for (int k = 0; k < 300; ++k) r.push_back(-static_cast<uint64_t>(k));
  for (uint64_t k = 0; k < 16; ++k) r.push_back(0x0123456789abcdefull << k), r.push_back(0x1111111111111111ull * k);
  return r;
}
template <typename T> static void numCmds(const std::string& t) {
  using namespace kt;
  constexpr int w = 8 * sizeof(T);
  using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<T, char32_t>, uint32_t, T>>;
  auto min = [](const Arg& a) { return a.i % 90; };
  auto gen = [](int n) { return [n](Rng& r) { Args a{I(static_cast<U>(genInt(r)))}; for (int k = 1; k < n; ++k) a.push_back(I(r.below(k == n - 1 ? 80 : 5))); return a; }; };
  auto all = [](int n) { return [n](const std::function<void(Args)>& f) {
    for (auto x : edgeInts()) for (uint64_t b = 0; b < 4; ++b) for (uint64_t m : {0, 1, 4, 9, 33}) {
      if (n == 2) f({I(static_cast<U>(x)), I(m)});
      else if (n == 3) f({I(static_cast<U>(x)), I(b), I(m)});
      else for (uint64_t h = 0; h < 2; ++h) f({I(static_cast<U>(x)), I(b), I(h), I(m)});
    } }; };
  if constexpr (!std::is_same_v<T, char32_t>)
    reg("toBinary(" + t + ", BracketType, unsigned long)", {[=](const Args& a) {
        return same(toBinary(static_cast<T>(a[0].i), static_cast<BracketType>(a[1].i), min(a[2])), bracket(number(static_cast<U>(a[0].i), w, 2, true, min(a[2])), a[1].i)); }, gen(3), all(3)});
  reg("toHex(" + t + ", BracketType, HexCase, unsigned long)", {[=](const Args& a) {
        return same(toHex(static_cast<T>(a[0].i), static_cast<BracketType>(a[1].i), static_cast<HexCase>(a[2].i), min(a[3])), bracket(number(static_cast<U>(a[0].i), w, 16, !static_cast<uint32_t>(a[2].i), min(a[3])), a[1].i)); }, gen(4), all(4)});
  if constexpr (!std::is_same_v<T, char32_t> && !std::is_same_v<T, char>) {
    reg("toBinary(" + t + ", unsigned long)", {[=](const Args& a) { return same(toBinary(static_cast<T>(a[0].i), min(a[1])), number(static_cast<U>(a[0].i), w, 2, true, min(a[1]))); }, gen(2), all(2)});
    reg("toHex(" + t + ", unsigned long)", {[=](const Args& a) { return same(toHex(static_cast<T>(a[0].i), min(a[1])), number(static_cast<U>(a[0].i), w, 16, false, min(a[1]))); }, gen(2), all(2)});
    reg("toHex(" + t + ", HexCase, unsigned long)", {[=](const Args& a) { return same(toHex(static_cast<T>(a[0].i), static_cast<HexCase>(a[1].i), min(a[2])), number(static_cast<U>(a[0].i), w, 16, !static_cast<uint32_t>(a[1].i), min(a[2]))); }, gen(3), all(3)});
    reg("toHex(" + t + ", BracketType, unsigned long)", {[=](const Args& a) { return same(toHex(static_cast<T>(a[0].i), static_cast<BracketType>(a[1].i), min(a[2])), bracket(number(static_cast<U>(a[0].i), w, 16, false, min(a[2])), a[1].i)); }, gen(3), all(3)});
  }
}
static void formatCmds() {
  using namespace kt;
  numCmds<unsigned char>("unsigned char"); numCmds<unsigned short>("unsigned short"); numCmds<unsigned>("unsigned int");
  numCmds<unsigned long>("unsigned long"); numCmds<char32_t>("char32_t"); numCmds<char>("char");
  reg("addBrackets", {[](const Args& a) { return same(addBrackets(a[0].bytes(), static_cast<BracketType>(a[1].i)), bracket(a[0].bytes(), a[1].i)); },
      [](Rng& r) { return Args{S(genText(r)), I(r.below(6))}; }, {}});
  reg("addLeadingZeroes(String)", {[](const Args& a) { return same(addLeadingZeroes(a[0].bytes(), a[1].i % 900), pad(a[0].bytes(), a[1].i % 900)); },
      [](Rng& r) { return Args{S(genText(r)), I(r.below(90))}; }, {}});
  reg("addLeadingZeroes(CodeString)", {[](const Args& a) {
        auto w = a[0].codes(); while (w.size() < a[1].i % 900) w.insert(w.begin(), U'0'); if (w.empty()) w = U"0";
        return same(addLeadingZeroes(a[0].codes(), a[1].i % 900), w); }, [](Rng& r) { return Args{S(genCodes(r)), I(r.below(90))}; }, {}});
  reg("toUnicode(Code)", {[](const Args& a) { return same(toUnicode(static_cast<Code>(a[0].i), static_cast<BracketType>(a[1].i)), unicode({static_cast<char32_t>(a[0].i)}, a[1].i)); },
      [](Rng& r) { return Args{I(static_cast<uint32_t>(genInt(r))), I(r.below(5))}; }, {}});
  reg("toUnicode(String)", {[](const Args& a) { return same(toUnicode(a[0].bytes(), static_cast<BracketType>(a[1].i)), unicode(orc::decode(a[0].bytes()), a[1].i)); },
      [](Rng& r) { return Args{S(genText(r)), I(r.below(5))}; }, {}});
  reg("toUnicode(CodeString)", {[](const Args& a) { return same(toUnicode(a[0].codes(), static_cast<BracketType>(a[1].i)), unicode(a[0].codes(), a[1].i)); },
      [](Rng& r) { return Args{S(genCodes(r)), I(r.below(5))}; }, {}});
}
template <typename T> static void charCmd(const std::string& t) {
  reg("toChar(" + t + ")", {[](const Args& a) {
        const auto x = static_cast<T>(a[0].i);
        std::string got, want;
        if constexpr (std::is_same_v<T, int>) {
          const bool neg = a[1].i & 1;
          got = outcome([&] { return show(static_cast<int>(kt::toChar(x, neg))); });
          want = x > 255 || x < (neg ? -128 : 0) ? std::string{"throws "} + typeid(kt::RangeError).name() : show(static_cast<int>(static_cast<char>(x)));
        } else {
          got = outcome([&] { return show(static_cast<int>(kt::toChar(x))); });
          want = static_cast<uint64_t>(x) > 255 ? std::string{"throws "} + typeid(kt::RangeError).name() : show(static_cast<int>(static_cast<char>(x)));
        }
        return same(got, want); },
      [](Rng& r) { return Args{I(genInt(r)), I(r.below(2))}; },
      [](const std::function<void(Args)>& f) { for (auto x : edgeInts()) { f({I(x), I(0)}); f({I(x), I(1)}); } }});
}
static void helperCmds() {
  using namespace kt;
  charCmd<int>("int"); charCmd<unsigned short>("unsigned short"); charCmd<unsigned>("unsigned int"); charCmd<unsigned long>("unsigned long");
  charCmd<char32_t>("char32_t"); charCmd<unsigned char>("unsigned char");
  reg("toUChar", {[](const Args& a) { return same(static_cast<int>(toUChar(static_cast<char>(a[0].i))), static_cast<int>(a[0].i & 255)); },
      [](Rng& r) { return Args{I(r.below(256))}; }, {}});
  auto g8 = [](Rng& r) { std::string t; const bool low = r.chance(70); for (auto n = genLen(r); n--;) t += static_cast<char>(low ? r.below(128) : r.below(256)); if (!t.empty() && r.chance(40)) t[r.below(t.size())] = static_cast<char>(r.next()); return t; };
  auto g32 = [](Rng& r) { std::u32string t; const bool low = r.chance(70); for (auto n = genLen(r); n--;) t += static_cast<char32_t>(low ? r.below(128) : r.below(300)); if (!t.empty() && r.chance(40)) t[r.below(t.size())] = static_cast<char32_t>(r.next()); return t; };
  auto sb = [](char32_t c) { return c < 128; };
  reg("isSingleByte(String)", {[=](const Args& a) { auto s = a[0].bytes(); bool o = a[1].i & 1; return same(isSingleByte(s, o), (o ? s.size() == 1 : !s.empty()) && sb(static_cast<uint8_t>(s[0]))); }, [=](Rng& r) { return Args{S(g8(r)), I(r.below(2))}; }, {}});
  reg("isSingleByte(CodeString)", {[=](const Args& a) { auto s = a[0].codes(); bool o = a[1].i & 1; return same(isSingleByte(s, o), (o ? s.size() == 1 : !s.empty()) && sb(s[0])); }, [=](Rng& r) { return Args{S(g32(r)), I(r.below(2))}; }, {}});
  auto all = [=](const auto& s) { for (auto c : s) if (!sb(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(c) == 1, char, uint32_t>>>(c))) return false; return true; };
  auto any = [=](const auto& s) { for (auto c : s) if (sb(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(c) == 1, char, uint32_t>>>(c))) return true; return false; };
  reg("isAllSingleByte(String)", {[=](const Args& a) { return same(isAllSingleByte(a[0].bytes()), all(a[0].bytes())); }, [=](Rng& r) { return Args{S(g8(r))}; }, {}});
  reg("isAllSingleByte(CodeString)", {[=](const Args& a) { return same(isAllSingleByte(a[0].codes()), all(a[0].codes())); }, [=](Rng& r) { return Args{S(g32(r))}; }, {}});
  auto high = [=](Rng& r) { std::string t; for (auto n = genLen(r); n--;) t += static_cast<char>(128 + r.below(128)); if (!t.empty() && r.chance(40)) t[r.below(t.size())] = static_cast<char>(r.next()); return t; };
  auto high32 = [=](Rng& r) { std::u32string t; for (auto n = genLen(r); n--;) t += static_cast<char32_t>(128 + r.below(1280)); if (!t.empty() && r.chance(40)) t[r.below(t.size())] = static_cast<char32_t>(r.below(200)); return t; };
  reg("isAnySingleByte(String)", {[=](const Args& a) { return same(isAnySingleByte(a[0].bytes()), any(a[0].bytes())); }, [=](Rng& r) { return Args{S(high(r))}; }, {}});
  reg("isAnySingleByte(CodeString)", {[=](const Args& a) { return same(isAnySingleByte(a[0].codes()), any(a[0].codes())); }, [=](Rng& r) { return Args{S(high32(r))}; }, {}});
  auto cv = [](std::string s, bool up, size_t n) { for (size_t k = 0; k < s.size() && k < n; ++k) { auto& c = s[k]; if (up ? c >= 'a' && c <= 'z' : c >= 'A' && c <= 'Z') c ^= 32; } return s; };
  reg("firstLower", {[=](const Args& a) { return same(firstLower(a[0].bytes()), cv(a[0].bytes(), false, 1)); }, [=](Rng& r) { return Args{S(g8(r))}; }, {}});
  reg("firstUpper", {[=](const Args& a) { return same(firstUpper(a[0].bytes()), cv(a[0].bytes(), true, 1)); }, [=](Rng& r) { return Args{S(g8(r))}; }, {}});
  reg("toLower", {[=](const Args& a) { return same(toLower(a[0].bytes()), cv(a[0].bytes(), false, ~size_t{})); }, [=](Rng& r) { return Args{S(g8(r))}; }, {}});
  reg("toUpper", {[=](const Args& a) { return same(toUpper(a[0].bytes()), cv(a[0].bytes(), true, ~size_t{})); }, [=](Rng& r) { return Args{S(g8(r))}; }, {}});
}

int main(int argc, char** argv) {
  utf8Cmds();
  blockCmds();
  formatCmds();
  helperCmds();
  return run(argc, argv);
}
