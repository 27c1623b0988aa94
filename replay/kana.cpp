// Executable oracle for libs/kana.
#include "common.h"
#include "oracle_utf8.h"
#include "oracle_blocks.h"
#include "oracle_kana.h"
#include <kt_kana/Converter.h>
#include <kt_kana/DisplaySize.h>
#include <kt_kana/Kana.h>
#include <kt_kana/Utf8Char.h>
using namespace rp;
namespace kt = kanji_tools;

static const orc::Ranges Wide{{0x1100, 0x115F}, {0x231A, 0x231B}, {0x2329, 0x232A}, {0x23E9, 0x23EC}, {0x23F0, 0x23F0}, {0x23F3, 0x23F3},
        {0x25FD, 0x25FE}, {0x2614, 0x2615}, {0x2648, 0x2653}, {0x267F, 0x267F}, {0x2693, 0x2693}, {0x26A1, 0x26A1},
        {0x26AA, 0x26AB}, {0x26BD, 0x26BE}, {0x26C4, 0x26C5}, {0x26CE, 0x26CE}, {0x26D4, 0x26D4}, {0x26EA, 0x26EA},
        {0x26F2, 0x26F3}, {0x26F5, 0x26F5}, {0x26FA, 0x26FA}, {0x26FD, 0x26FD}, {0x2705, 0x2705}, {0x270A, 0x270B},
        {0x2728, 0x2728}, {0x274C, 0x274C}, {0x274E, 0x274E}, {0x2753, 0x2755}, {0x2757, 0x2757}, {0x2795, 0x2797},
        {0x27B0, 0x27B0}, {0x27BF, 0x27BF}, {0x2B1B, 0x2B1C}, {0x2B50, 0x2B50}, {0x2B55, 0x2B55}, {0x2E80, 0x2E99},
        {0x2E9B, 0x2EF3}, {0x2F00, 0x2FD5}, {0x2FF0, 0x2FFB}, {0x3000, 0x303E}, {0x3041, 0x3096}, {0x3099, 0x30FF},
        {0x3105, 0x312F}, {0x3131, 0x318E}, {0x3190, 0x31E3}, {0x31F0, 0x321E}, {0x3220, 0x3247}, {0x3250, 0x4DBF},
        {0x4E00, 0xA48C}, {0xA490, 0xA4C6}, {0xA960, 0xA97C}, {0xAC00, 0xD7A3}, {0xF900, 0xFAFF}, {0xFE10, 0xFE19},
        {0xFE30, 0xFE52}, {0xFE54, 0xFE66}, {0xFE68, 0xFE6B}, {0xFF01, 0xFF60}, {0xFFE0, 0xFFE6},
        {0x16FE0, 0x16FE4}, {0x16FF0, 0x16FF1}, {0x17000, 0x187F7}, {0x18800, 0x18CD5}, {0x18D00, 0x18D08},
        {0x1AFF0, 0x1AFF3}, {0x1AFF5, 0x1AFFB}, {0x1AFFD, 0x1AFFE}, {0x1B000, 0x1B122}, {0x1B150, 0x1B152},
        {0x1B164, 0x1B167}, {0x1B170, 0x1B2FB}, {0x1F004, 0x1F004}, {0x1F0CF, 0x1F0CF}, {0x1F18E, 0x1F18E},
        {0x1F191, 0x1F19A}, {0x1F200, 0x1F202}, {0x1F210, 0x1F23B}, {0x1F240, 0x1F248}, {0x1F250, 0x1F251},
        {0x1F260, 0x1F265}, {0x1F300, 0x1F320}, {0x1F32D, 0x1F335}, {0x1F337, 0x1F37C}, {0x1F37E, 0x1F393},
        {0x1F3A0, 0x1F3CA}, {0x1F3CF, 0x1F3D3}, {0x1F3E0, 0x1F3F0}, {0x1F3F4, 0x1F3F4}, {0x1F3F8, 0x1F43E},
        {0x1F440, 0x1F440}, {0x1F442, 0x1F4FC}, {0x1F4FF, 0x1F53D}, {0x1F54B, 0x1F54E}, {0x1F550, 0x1F567},
        {0x1F57A, 0x1F57A}, {0x1F595, 0x1F596}, {0x1F5A4, 0x1F5A4}, {0x1F5FB, 0x1F64F}, {0x1F680, 0x1F6C5},
        {0x1F6CC, 0x1F6CC}, {0x1F6D0, 0x1F6D2}, {0x1F6D5, 0x1F6D7}, {0x1F6DD, 0x1F6DF}, {0x1F6EB, 0x1F6EC},
        {0x1F6F4, 0x1F6FC}, {0x1F7E0, 0x1F7EB}, {0x1F7F0, 0x1F7F0}, {0x1F90C, 0x1F93A}, {0x1F93C, 0x1F945},
        {0x1F947, 0x1F9FF}, {0x1FA70, 0x1FA74}, {0x1FA78, 0x1FA7C}, {0x1FA80, 0x1FA86}, {0x1FA90, 0x1FAAC},
        {0x1FAB0, 0x1FABA}, {0x1FAC0, 0x1FAC5}, {0x1FAD0, 0x1FAD9}, {0x1FAE0, 0x1FAE7}, {0x1FAF0, 0x1FAF6},
        {0x20000, 0x2FFFD}, {0x30000, 0x3FFFD}};

static size_t width(const std::u32string& s) {
  size_t r{};
  for (auto c : s) if (c && !orc::in(c, orc::Marks)) r += orc::in(c, Wide) ? 2 : 1;
  return r;
}
static void widthCmds() {
  auto every = [](const std::function<void(Args)>& f) { for (uint32_t c = 0; c < 0x111000; ++c) f({S(std::u32string(1, static_cast<char32_t>(c)))}); };
  reg("displaySize(CodeString)", {[](const Args& a) { return same(kt::displaySize(a[0].codes()), width(a[0].codes())); },
      [](Rng& r) { return Args{S(genCodes(r))}; }, every});
  reg("displaySize(char const*)", {[](const Args& a) { CStr s{a[0]}; return same(kt::displaySize(static_cast<const char*>(s)), a[0].k == 'n' ? 0 : width(orc::decode(a[0].bytes()))); },
      [](Rng& r) { return Args{S(genText(r, false))}; }, [](const std::function<void(Args)>& f) { f({N()}); f({S(std::string{})}); }});
  reg("displaySize(String)", {[](const Args& a) { return same(kt::displaySize(a[0].bytes()), width(orc::decode(a[0].bytes()))); },
      [](Rng& r) { return Args{S(genText(r))}; }, {}});
  reg("wideSetw", {[](const Args& a) { return same(kt::wideSetw(a[0].bytes(), a[1].i), static_cast<int>(a[1].i + a[0].bytes().size() - width(orc::decode(a[0].bytes())))); },
      [](Rng& r) { return Args{S(genText(r)), I(r.chance(80) ? r.below(100) : genInt(r))}; }, {}});
}

// ---------------------------------------------------------------- characters, modifiers, voicing
using Opt = std::optional<std::string>;
static Opt voiced(const std::string& s, bool semi) {
  auto c = orc::decode(s);
  if (s.size() != c.size() * 3 || c.empty() || c.size() > 2) return {};
  const bool kata = c[0] >= 0x30A0;
  auto base = [&](char32_t x) -> char32_t { return kata ? x - 0x60 : x; };
  for (auto x : c) if ((x >= 0x30A0) != kata || base(x) < 0x3041 || base(x) > 0x3096) return {};
  const auto b = base(c[0]);
  const std::u32string dak{U"かきくけこさしすせそたちつてとはひふへほう"}, han{U"はひふへほ"};
  if ((semi ? han : dak).find(b) == std::u32string::npos) return {};
  if (c.size() == 2) {
    const std::u32string y{U"きしちてひ"}, v{U"くと"}, small{U"ゃぃゅぇょ"}, vowels{U"ぁぃぅぇぉ"}, u{U"ぃぇ"};
    const auto t = base(c[1]);
    const auto in = [&](const std::u32string& x, char32_t k) { return x.find(k) != std::u32string::npos; };
    if (!(in(y, b) && in(small, t)) && !(in(v, b) && in(vowels, t)) && !(b == U'う' && in(u, t))) return {};
  }
  c[0] = b == U'う' ? (kata ? 0x30F4 : 0x3094) : c[0] + (semi ? 2 : 1);
  return orc::encode(c);
}
static size_t validLen(const std::string& t, size_t p) {   // of a well-formed multi-byte character (0: none)
  if (orc::validate(t.substr(p), false) != orc::Valid) return 0;
  const auto b = static_cast<uint8_t>(t[p]);
  return b >= 0xF0 ? 4 : b >= 0xE0 ? 3 : 2;
}
static bool sel(const std::string& t, size_t p) { return t.size() >= p + 3 && t.compare(p, 2, "\xEF\xB8") == 0 && (static_cast<uint8_t>(t[p + 2]) & 0xF0) == 0x80; }
static bool mrk(const std::string& t, size_t p) { return t.compare(p, 3, "\xE3\x82\x99") == 0 || t.compare(p, 3, "\xE3\x82\x9A") == 0; }
struct Ref {
  std::string t; size_t p{}, errors{}, variants{}, marks{};
  bool next(std::string& out, bool only) {
    for (; p < t.size();) {
      if (static_cast<uint8_t>(t[p]) < 0x80) { if (!only) { out = t.substr(p++, 1); return true; } ++p; continue; }
      const auto n = validLen(t, p);
      if (!n) { ++p; ++errors; continue; }
      if (sel(t, p) || mrk(t, p)) { p += 3; ++errors; continue; }
      auto c = t.substr(p, n);
      p += n;
      if (sel(t, p)) { c += t.substr(p, 3); p += 3; ++variants; }
      else if (mrk(t, p)) { if (auto v = voiced(c, t[p + 2] == static_cast<char>(0x9A)); v) { c = *v; ++marks; } else ++errors; p += 3; }
      out = c;
      return true;
    }
    return false;
  }
};
static size_t refSize(const std::string& full, bool only) {
  const std::string t{full.c_str()};
  size_t r{};
  for (size_t p = 0; p < t.size();) {
    if (sel(t, p) || mrk(t, p)) { p += 3; continue; }
    const auto b = static_cast<uint8_t>(t[p++]);
    r += b >= 0xC0 || (!only && b < 0x80);
  }
  return r;
}
static std::string iterate(const std::string& full, uint64_t flags) {
  const std::string t{full.c_str()};
  const kt::String in{full};
  kt::Utf8Char u{in};
  const bool f = flags & 1;
  if (u.size(f) != refSize(t, f)) return "size of an object";
  const auto v = orc::validate(t, f);
  if (static_cast<int>(u.valid(f)) != (v == orc::Valid ? 0 : v == orc::Single ? 1 : 2)) return "valid";
  if (u.isValid(f) != (v == orc::Valid)) return "isValid";
  for (int round = 0; round < 2; ++round) {
    Ref r{t};
    if (u.errors() || u.variants() || u.combiningMarks()) return "counters do not start at zero";
    for (int k = 0;; ++k) {
      const bool only = flags >> (k % 63) & 1;
      std::string a{"old"}, b{"old"}, c{"old"};
      const auto x = u.peek(c, only), y = u.next(a, only), z = r.next(b, only);
      if (y != z || a != b) return "next: " + same(a, b);
      if (x != z || c != b) return "peek: " + same(c, b);
      if (u.errors() != r.errors || u.variants() != r.variants || u.combiningMarks() != r.marks)
        return "counters " + show(u.errors()) + ' ' + show(u.variants()) + ' ' + show(u.combiningMarks()) + " expected " + show(r.errors) + ' ' + show(r.variants) + ' ' + show(r.marks);
      if (!z) break;
    }
    u.reset();
  }
  return {};
}
static std::string genMarked(Rng& r) {
  std::string t;
  for (auto n = genLen(r); n--;)
    switch (r.below(8)) {
    case 0: t += u8(static_cast<uint32_t>(0xFE00 + r.below(17) - (r.chance(10) ? 1 : 0))); break;
    case 1: t += u8(static_cast<uint32_t>(0x3098 + r.below(4))); break;
    case 2: t += genText(r); break;
    case 3: t += static_cast<char>(r.below(128)); break;
    case 4: t += u8(0x80 + static_cast<uint32_t>(r.below(0x780))); break;
    case 5: t += u8(0x10000 + static_cast<uint32_t>(r.below(0x20000))); break;
    default: t += u8(static_cast<uint32_t>(0x3040 + r.below(0xC0)));
    }
  return t;
}
static void charCmds() {
  auto gm = [](Rng& r) { return Args{S(genMarked(r))}; };
  auto kanaPairs = [](const std::function<void(Args)>& f) {
    for (uint32_t a = 0x3040; a < 0x3100; ++a) { f({S(u8(a))}); for (uint32_t b = 0x3040; b < 0x3100; ++b) f({S(u8(a) + u8(b))}); }
  };
  reg("findDakuten", {[](const Args& a) { return same(kt::Kana::findDakuten(a[0].bytes()), voiced(a[0].bytes(), false)); }, gm, kanaPairs});
  reg("findHanDakuten", {[](const Args& a) { return same(kt::Kana::findHanDakuten(a[0].bytes()), voiced(a[0].bytes(), true)); }, gm, kanaPairs});
  auto every = [](const std::function<void(Args)>& f) { for (uint32_t c = 0; c < 0x111000; ++c) f({S(u8(c))}); f({S(std::string{})}); };
#define KT_MOD(NAME, ORACLE) \
  reg(NAME "(String)", {[](const Args& a) { return same(kt::Utf8Char::ORACLE(a[0].bytes()), NAME[2] == 'V' ? sel(a[0].bytes().c_str(), 0) : mrk(a[0].bytes().c_str(), 0)); }, gm, every}); \
  reg(NAME "(char const*)", {[](const Args& a) { CStr s{a[0]}; const std::string t{s.p ? s.p.get() : ""}; \
      return same(kt::Utf8Char::ORACLE(static_cast<const char*>(s)), NAME[2] == 'V' ? sel(t, 0) : mrk(t, 0)); }, gm, [](const std::function<void(Args)>& f) { f({N()}); }}); \
  reg(NAME "(unsigned char const*)", {[](const Args& a) { CStr s{a[0]}; const std::string t{s.p ? s.p.get() : ""}; \
      return same(kt::Utf8Char::ORACLE(reinterpret_cast<const uint8_t*>(s.p.get())), NAME[2] == 'V' ? sel(t, 0) : mrk(t, 0)); }, gm, [](const std::function<void(Args)>& f) { f({N()}); }});
  KT_MOD("isVariationSelector", isVariationSelector)
  KT_MOD("isCombiningMark", isCombiningMark)
  auto gs = [](Rng& r) { return Args{S(genMarked(r)), I(r.below(2))}; };
  reg("size(String)", {[](const Args& a) { return same(kt::Utf8Char::size(a[0].bytes(), a[1].i & 1), refSize(a[0].bytes(), a[1].i & 1)); }, gs, {}});
  reg("size(char const*)", {[](const Args& a) { CStr s{a[0]}; return same(kt::Utf8Char::size(static_cast<const char*>(s), a.size() > 1 && a[1].i & 1), a[0].k == 'n' ? 0 : refSize(a[0].bytes(), a[1].i & 1)); },
      gs, [](const std::function<void(Args)>& f) { f({N(), I(0)}); f({N(), I(1)}); }});
  auto withSel = [](const std::string& t) { return t.size() >= 5 && t.size() <= 7 && sel(t, t.size() - 3) && validLen(t, 0) == t.size() - 3; };
  auto near = [](Rng& r) {
    if (r.chance(30)) return Args{S(std::string{genMarked(r).c_str()})};
    std::string t{r.chance(60) ? u8(genCode(r)) : std::string{genText(r, false).substr(0, 4)}};
    t += u8(static_cast<uint32_t>(0xFDFF + r.below(18)));
    if (r.chance(10)) t += u8(genCode(r));
    return Args{S(std::string{t.c_str()})};
  };
  reg("isCharWithVariationSelector", {[=](const Args& a) { return same(kt::Utf8Char::isCharWithVariationSelector(a[0].bytes()), withSel(a[0].bytes())); }, near, {}});
  reg("noVariationSelector", {[=](const Args& a) { auto t = a[0].bytes(); return same(kt::Utf8Char::noVariationSelector(t), withSel(t) ? t.substr(0, t.size() - 3) : t); }, near, {}});
  reg("getFirst", {[](const Args& a) { std::string w; Ref r{a[0].bytes().c_str()}; r.next(w, true); return same(kt::Utf8Char::getFirst(a[0].bytes()), w); }, gm, {}});
  // a counterexample gives the text and a position; the replay iterates over the text from that position on
  Cmd it{[](const Args& a) {
      auto t = a[0].bytes();
      if (a.size() > 5 && a[1].i <= t.size()) if (auto e = iterate(t.substr(a[1].i), a.back().i ? ~uint64_t{} : 0); !e.empty()) return e;
      return iterate(t, a.size() == 2 ? a[1].i : a.back().i ? ~uint64_t{} : 0); },
    [](Rng& r) { return Args{S(genMarked(r)), I(r.chance(30) ? r.next() : r.chance(50) ? ~uint64_t{} : 0)}; }, {}};
  for (auto n : {"next", "peek", "reset", "Utf8Char", "size of an object", "valid of an object", "isValid of an object"}) reg(n, it);
}

// ---------------------------------------------------------------- every kana (the arguments are those that vary besides the kana)
static const std::string& readingOf(const orc::KanaRef& k, uint64_t flags) { return flags & 1 ? (flags & 2 ? k.both : k.hepburn) : flags & 2 ? k.kunrei : k.romaji; }
static const orc::KanaRef* refOf(const std::string& h) { for (auto& k : orc::KanaRefs) if (k.hira == h) return &k; return nullptr; }
static const std::string& textOf(const orc::KanaRef& k, uint64_t type, uint64_t flags) { return type == 0 ? k.hira : type == 1 ? k.kata : readingOf(k, flags); }
using CT = kt::CharType;
using CF = kt::ConvertFlags;
static const kt::Kana* kanaOf(const std::string& h) { auto& m = kt::Kana::getMap(CT::Hiragana); auto i = m.find(h); return i == m.end() ? nullptr : i->second; }
using OnKana = std::function<std::string(const kt::Kana&, const orc::KanaRef&, const Args&)>;
static std::string eachKana(const OnKana& f, const Args& a) {
  for (auto& r : orc::KanaRefs) {
    auto k = kanaOf(r.hira);
    if (!k) return "no kana " + r.hira;
    if (auto e = f(*k, r, a); !e.empty()) return r.hira + ": " + e;
  }
  return {};
}
static Arg at(const Args& a, size_t i) { return i < a.size() ? a[i] : Arg{}; }
static void kanaCmds() {
  using Each = std::function<void(Args)>;
  auto one = [](const Each& f) { f({}); };
  auto flags = [](const Each& f) { for (uint64_t i = 0; i < 256; ++i) f({I(i)}); };
  auto types = [](const Each& f) { for (uint64_t t = 0; t < 3; ++t) f({I(t)}); };
  auto typesFlags = [](const Each& f) { for (uint64_t t = 0; t < 3; ++t) for (uint64_t i = 0; i < 256; ++i) f({I(t), I(i)}); };
  auto kanaText = [](Rng& r) { return S(r.chance(20) ? genText(r) : u8(static_cast<uint32_t>(0x3040 + r.below(0xC0)))); };
  auto kanaTexts = [](const Each& f) { for (uint32_t c = 0x3040; c < 0x3100; ++c) f({S(u8(c))}); for (auto& k : orc::KanaRefs) { f({S(k.hira)}); f({S(k.kata)}); f({S(k.romaji)}); } };
  auto none = [](Rng&) { return Args{}; };
  reg("getMap", {[](const Args&) -> std::string {
      for (int t = 0; t < 3; ++t) {
        std::map<std::string, std::string> want;
        for (auto& k : orc::KanaRefs) {
          want[t == 0 ? k.hira : t == 1 ? k.kata : k.romaji] = k.hira;
          if (t == 2) for (auto& v : k.more) want[v] = k.hira;
        }
        auto& m = kt::Kana::getMap(static_cast<CT>(t));
        for (auto& [k, h] : want) {
          auto i = m.find(k);
          if (i == m.end()) return "missing " + k;
          auto& r = *refOf(h);
          if (i->second->hiragana() != r.hira || i->second->katakana() != r.kata || i->second->romaji() != r.romaji) return k + " leads to another kana";
          auto v = i->second->romajiVariants();
          auto w = r.more;
          std::sort(v.begin(), v.end()), std::sort(w.begin(), w.end());
          if (v != w) return k + " has other variants";
        }
        if (m.size() != want.size()) return "further keys";
      }
      return {}; }, none, one});
  auto onKana = [](OnKana f) { return [f](const Args& a) { return eachKana(f, a); }; };
  reg("getRomaji", {onKana([](auto& k, auto& r, auto& a) { return same(k.getRomaji(static_cast<CF>(at(a, 0).i)), readingOf(r, at(a, 0).i)); }), none, flags});
  reg("get", {onKana([](auto& k, auto& r, auto& a) { return same(k.get(static_cast<CT>(at(a, 0).i), static_cast<CF>(at(a, 1).i)), textOf(r, at(a, 0).i, at(a, 1).i)); }), none, typesFlags});
  reg("getSokuonRomaji", {onKana([](auto& k, auto& r, auto& a) { auto w = readingOf(r, at(a, 0).i); return same(k.getSokuonRomaji(static_cast<CF>(at(a, 0).i)), (w[0] == 'c' ? 't' : w[0]) + w); }), none, flags});
  auto opt = [](const std::string& h, uint64_t t) { return h.empty() ? Opt{} : Opt{textOf(*refOf(h), t, 0)}; };
  reg("dakuten", {onKana([=](auto& k, auto& r, auto& a) { return same(k.dakuten(static_cast<CT>(at(a, 0).i)), opt(r.voiced, at(a, 0).i)); }), none, types});
  reg("hanDakuten", {onKana([=](auto& k, auto& r, auto& a) { return same(k.hanDakuten(static_cast<CT>(at(a, 0).i)), opt(r.semi, at(a, 0).i)); }), none, types});
  const std::string small{"ぁぃぅぇぉゕゖゃゅょゎっ"};
  reg("isSmall", {onKana([=](auto& k, auto& r, auto&) { return same(k.isSmall(), r.hira.size() == 3 && small.find(r.hira) != std::string::npos); }), none, one});
  reg("isMonograph", {onKana([](auto& k, auto& r, auto&) { return same(k.isMonograph(), r.hira.size() == 3); }), none, one});
  reg("isDigraph", {onKana([](auto& k, auto& r, auto&) { return same(k.isDigraph(), r.hira.size() == 6); }), none, one});
  auto isForm = [](const orc::KanaRef& r, bool semi) { for (auto& x : orc::KanaRefs) if ((semi ? x.semi : x.voiced) == r.hira) return true; return false; };
  reg("isDakuten", {onKana([=](auto& k, auto& r, auto&) { return same(k.isDakuten(), isForm(r, false) || r.hira.rfind("ゔ", 0) == 0); }), none, one});
  reg("isHanDakuten", {onKana([=](auto& k, auto& r, auto&) { return same(k.isHanDakuten(), isForm(r, true)); }), none, one});
  reg("containsKana", {onKana([](auto& k, auto& r, auto& a) { auto t = at(a, 0).bytes(); return same(k.containsKana(t), t == r.hira || t == r.kata); }), [=](Rng& r) { return Args{kanaText(r)}; }, kanaTexts});
  auto link = [](const kt::Kana* k, const std::string& h) { return k ? !h.empty() && k == kanaOf(h) : h.empty(); };
  reg("linked kana", {onKana([=](auto& k, auto& r, auto&) { return link(k.plain(), r.plain) && link(k.dakuten(), r.voiced) && link(k.hanDakuten(), r.semi) ? std::string{} : std::string{"wrong link"}; }), none, one});
  reg("operator==", {onKana([](auto& k, auto& r, auto&) { for (auto& x : orc::KanaRefs) if (auto o = kanaOf(x.hira); o) if ((k == *o) != (x.romaji == r.romaji)) return "equality with " + x.hira; return std::string{}; }), none, one});
  struct Mark { const kt::Kana::IterationMark& m; std::string h, k; bool voiced; };
  static const Mark marks[]{{kt::Kana::RepeatPlain, "ゝ", "ヽ", false}, {kt::Kana::RepeatAccented, "ゞ", "ヾ", true}};
  auto isMark = [](const Mark& m, const Args& a) { return at(a, 1).bytes() == m.h && at(a, 0).i == 0 || at(a, 1).bytes() == m.k && at(a, 0).i == 1; };
  auto typedTexts = [=](const Each& f) { kanaTexts([&](Args a) { for (uint64_t t = 0; t < 3; ++t) f({I(t), a[0]}); }); };
  auto typedText = [=](Rng& r) { return Args{I(r.below(3)), kanaText(r)}; };
  reg("IterationMark::matches", {[=](const Args& a) { for (auto& m : marks) if (auto e = same(m.m.matches(static_cast<CT>(at(a, 0).i), at(a, 1).bytes()), isMark(m, a)); !e.empty()) return e; return std::string{}; }, typedText, typedTexts});
  reg("findIterationMark", {[=](const Args& a) { auto p = kt::Kana::findIterationMark(static_cast<CT>(at(a, 0).i), at(a, 1).bytes()); for (auto& m : marks) if ((p == &m.m) != isMark(m, a)) return "mark " + m.h; return std::string{}; }, typedText, typedTexts});
  reg("IterationMark::get", {[](const Args& a) {
      for (auto& m : marks) {
        const auto t = at(a, 0).i, f = at(a, 1).i;
        if (auto e = same(m.m.get(static_cast<CT>(t), static_cast<CF>(f), nullptr), t == 0 ? m.h : t == 1 ? m.k : ""); !e.empty()) return m.h + " without kana: " + e;
        auto e = eachKana([&](auto& k, auto& r, auto&) {
          auto& q = m.voiced ? r.voiced : r.plain;
          return same(m.m.get(static_cast<CT>(t), static_cast<CF>(f), &k), t == 0 ? m.h : t == 1 ? m.k : readingOf(q.empty() ? r : *refOf(q), f)); }, a);
        if (!e.empty()) return m.h + " after " + e;
      }
      return std::string{}; }, none, typesFlags});
  reg("special kana", {[](const Args&) { return &kt::Kana::SmallTsu == kanaOf("っ") && &kt::Kana::N == kanaOf("ん") ? std::string{} : std::string{"wrong kana"}; }, none, one});
}

// ---------------------------------------------------------------- conversion: reference transducers over the characters of a text
static std::vector<std::string> charsOf(const std::string& text) {
  std::vector<std::string> v;
  Ref r{text.c_str()};
  for (std::string c; r.next(c, false);) v.push_back(c);
  return v;
}
static const orc::KanaRef* entry(uint64_t type, const std::string& k) {
  static const auto maps = [] {
    std::vector<std::map<std::string, const orc::KanaRef*>> m(3);
    for (auto& x : orc::KanaRefs) { m[0][x.hira] = m[1][x.kata] = m[2][x.romaji] = &x; for (auto& v : x.more) m[2][v] = &x; }
    return m;
  }();
  auto i = maps[type].find(k);
  return i == maps[type].end() ? nullptr : i->second;
}
static const std::vector<std::pair<std::string, char>>& delims() {
  static const auto d = [] {
    const std::string narrow{" !\"#$%&()*+,./0123456789:;<=>?@[\\]^_`{|}~"};
    const std::string wide{"　！”＃＄％＆（）＊＋、。・０１２３４５６７８９：；＜＝＞？＠「￥」＾＿｀『｜』〜"};
    std::vector<std::pair<std::string, char>> v;
    for (size_t i = 0; i < narrow.size(); ++i) v.emplace_back(wide.substr(i * 3, 3), narrow[i]);
    return v;
  }();
  return d;
}
static const std::string Prolong{"ー"};
static std::string other(uint64_t src, const std::string& text) {           // one syllabary to the other: element by element
  std::string out;
  for (auto& c : charsOf(text)) {
    auto k = c.size() == 3 ? entry(src, c) : nullptr;
    if (k) out += src ? k->hira : k->kata;
    else if (c == (src ? "ヽ" : "ゝ")) out += src ? "ゝ" : "ヽ";
    else if (c == (src ? "ヾ" : "ゞ")) out += src ? "ゞ" : "ヾ";
    else out += c;
  }
  return out;
}
struct Reader {                                                           // kana to romaji
  uint64_t src, flags;
  std::string out{};
  std::vector<std::string> grp{};
  bool tsu{}, closed{};
  const orc::KanaRef* prev{};
  std::string hira(const std::string& c) const { return src ? textOf(*entry(1, c), 0, 0) : c; }
  std::string lengthen(std::string r, bool prolong) const {
    if (!prolong) return r;
    static const std::map<char, std::string> m{{'a', "ā"}, {'i', "ī"}, {'u', "ū"}, {'e', "ē"}, {'o', "ō"}};
    if (auto i = m.find(r.back()); i != m.end()) return r.substr(0, r.size() - 1) + i->second;
    return r + Prolong;
  }
  static std::string joined(const std::vector<std::string>& g) { std::string s; for (auto& x : g) s += x; return s; }
  std::string write(const std::vector<std::string>& g, bool prolong) {
    if (g.empty()) return prolong ? Prolong : std::string{};
    auto mine = [&](const orc::KanaRef* k) { prev = prolong ? nullptr : k; };
    if (auto k = entry(src, joined(g)); k) { mine(k); return lengthen(readingOf(*k, flags), prolong); }
    const std::vector<std::string> rest{g.begin() + 1, g.end()};
    if (auto k = entry(src, joined(rest)); k) {
      if (hira(g[0]) == "っ" && std::string{"bcdfghjkmpqrstvwyz"}.find(k->romaji[0]) != std::string::npos) {
        auto r = readingOf(*k, flags);
        mine(k);
        return lengthen((r[0] == 'c' ? 't' : r[0]) + r, prolong);
      }
      auto a = write({g[0]}, false);
      mine(k);
      return a + lengthen(readingOf(*k, flags), prolong);
    }
    auto a = write({g.begin(), g.end() - 1}, false);
    return a + write({g.back()}, prolong);
  }
  void flush(bool prolong, const std::string& next) {
    out += write(grp, prolong);
    if (grp.size() == 1 && hira(grp[0]) == "ん")
      for (auto x : {"あ", "い", "う", "え", "お", "や", "ゆ", "よ"}) if (next == textOf(*refOf(x), src, 0)) out += '\'';
    grp.clear();
    tsu = closed = false;
  }
  std::string read(const std::string& text) {
    for (auto& c : charsOf(text)) {
      auto k = c.size() == 3 ? entry(src, c) : nullptr;
      if (c == Prolong) flush(true, "");
      else if (k) {
        const auto h = k->hira;
        const bool small = std::string{"ぁぃぅぇぉゃゅょゎ"}.find(h) != std::string::npos;
        if (h == "っ" || h == "ん") { flush(false, c); grp = {c}; (h == "っ" ? tsu : closed) = true; }
        else if (!closed && small) { grp.push_back(c); closed = true; }
        else if (!closed && grp.size() <= (tsu ? 1u : 0u)) grp.push_back(c);
        else { flush(false, c); grp = {c}; }
      } else {
        flush(false, "");
        const bool accented = c == (src ? "ヾ" : "ゞ");
        if (accented || c == (src ? "ヽ" : "ゝ")) {
          if (prev) { auto& q = accented ? prev->voiced : prev->plain; out += readingOf(q.empty() ? *prev : *refOf(q), flags); }
        } else {
          auto x = c;
          for (auto& d : delims()) if (d.first == c) x = d.second;
          out += x;
        }
      }
    }
    flush(false, "");
    return out;
  }
};
struct Writer {                                                           // one romaji word to kana
  uint64_t tgt, flags;
  std::string out{}, let{};
  static bool n(const std::string& s) { return s == "n" || s == "N"; }
  static std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
  void take() {
    for (;;) {
      const auto l = lower(let);
      if (auto k = entry(2, l); k) { out += textOf(*k, tgt, 0); let.clear(); return; }
      if (let.size() < 3) return;
      if (l[0] == 'n') out += tgt ? "ン" : "ん";
      else if ((l[0] == l[1] || l.substr(0, 2) == "tc") && std::string{"bcdfghjkmpqrstvwyz"}.find(l[0]) != std::string::npos) out += tgt ? "ッ" : "っ";
      else out += let[0];
      let.erase(0, 1);
    }
  }
  void finish() {
    while (!let.empty())
      if (n(let)) { out += tgt ? "ン" : "ん"; let.clear(); }
      else { out += let[0]; let.erase(0, 1); take(); }
  }
  std::string write(const std::string& text) {
    static const std::map<std::string, std::pair<char, std::string>> m{{"ā", {'a', "あ"}}, {"ī", {'i', "い"}}, {"ū", {'u', "う"}}, {"ē", {'e', "え"}}, {"ō", {'o', "お"}}};
    for (auto& c : charsOf(text)) {
      if (n(c)) {
        if (n(let)) out += tgt ? "ン" : "ん";
        else { out += let; let = c; }
      } else if (c.size() == 1) { let += c; take(); }
      else if (auto i = m.find(c); i != m.end()) {
        let += i->second.first;
        take();
        if (let.empty()) out += !tgt && flags & 4 ? i->second.second : Prolong;
        else { let.pop_back(); out += let; let = i->second.first; take(); }
      } else { finish(); out += c; }
    }
    finish();
    return out;
  }
};
static std::string words(uint64_t tgt, uint64_t flags, const std::string& text) {
  std::string out, word;
  auto end = [&] { out += Writer{tgt, flags}.write(word); word.clear(); };
  for (auto c : text) {
    std::string wide;
    for (auto& d : delims()) if (d.second == c) wide = d.first;
    if (wide.empty() && c != '\'' && c != '-') { word += c; continue; }
    end();
    if (c != ' ' || !(flags & 8)) out += wide;
  }
  end();
  return out;
}
static std::string refConvert(uint64_t src, uint64_t tgt, uint64_t flags, const std::string& text) {
  if (src == tgt) return text;
  if (src == 2) return words(tgt, flags, text);
  if (tgt == 2) return Reader{src, flags}.read(text);
  return other(src, text);
}
static std::string refAll(uint64_t tgt, uint64_t flags, std::string text) {
  for (uint64_t s = 0; s < 3; ++s) text = refConvert(s, tgt, flags, text);
  return text;
}
static std::string genConvert(Rng& r) {
  static const std::vector<std::string> tough{"っ", "ッ", "ん", "ン", "ー", "ゝ", "ゞ", "ヽ", "ヾ", "ゃ", "ャ", "ぁ", "ァ", "ゎ", "ヮ", "ゕ", "ヶ", "n", "N", "ā", "Ī", "ū", "ō", "'", "-", " ", "　",
    "漢", "é", "tch", "cch", "kk", "NN", "xtu", "ltu", "う", "い", "や", "\xEF\xB8\x80", "゙", "゚", "ヷ", "〻", "\xF0\x9F\x98\x80"};
  std::string t;
  for (auto n = 1 + genLen(r); n--;) {
    auto& k = orc::KanaRefs[r.below(orc::KanaRefs.size())];
    switch (r.below(12)) {
    case 0: case 1: t += k.hira; break;
    case 2: case 3: t += k.kata; break;
    case 4: case 5: t += k.romaji; break;
    case 6: { auto x = k.more.empty() ? k.romaji : k.more[r.below(k.more.size())]; for (auto& c : x) if (r.chance(40) && c >= 'a' && c <= 'z') c -= 32; t += x; break; }
    case 7: case 8: t += tough[r.below(tough.size())]; break;
    case 9: t += r.chance(50) ? std::string(1, static_cast<char>(r.below(128))) : delims()[r.below(delims().size())].first; break;
    case 10: t += "bcdfghjklmnpqrstvwxyzaiueoBCKTN"[r.below(31)]; break;
    default: if (r.chance(20)) t += genText(r); else t += u8(static_cast<uint32_t>(0x3040 + r.below(0xC0)));
    }
  }
  return t;
}
static std::string checkConvert(const Args& a, uint64_t src, uint64_t tgt) {
  std::string text;
  uint64_t flags{};
  bool got{};
  for (auto& x : a) { if (x.k == 's') text = x.bytes(); else if (x.k == 'i' && !got) { flags = x.i & 255; got = true; } }
  const kt::Converter c{static_cast<CT>(tgt), static_cast<CF>(flags)};
  return same(c.convert(static_cast<CT>(src), text), refConvert(src, tgt, flags, text));
}
static std::string checkAll(const Args& a) {
  std::string text;
  std::vector<uint64_t> f;
  for (auto& x : a) if (x.k == 's') text = x.bytes(); else if (x.k == 'i') f.push_back(x.i & 255);
  if (f.empty()) f = {0};
  for (auto flags : f) for (uint64_t tgt = 0; tgt < 3; ++tgt) {
    const auto T = static_cast<CT>(tgt);
    const auto F = static_cast<CF>(flags);
    const kt::Converter c{T, F};
    if (auto e = same(c.convert(text), refAll(tgt, flags, text)); !e.empty()) return e;
    for (uint64_t src = 0; src < 3; ++src) {
      kt::Converter d{static_cast<CT>(2 - tgt), static_cast<CF>(~flags)};
      if (auto e = same(d.convert(static_cast<CT>(src), text, T, F), refConvert(src, tgt, flags, text)); !e.empty()) return e;
      if (d.target() != T || d.flags() != F) return "target or flags not set";
      if (auto e = same(d.convert(static_cast<CT>(src), text), refConvert(src, tgt, flags, text)); !e.empty()) return e;
    }
    kt::Converter d{static_cast<CT>(2 - tgt), static_cast<CF>(~flags)};
    if (auto e = same(d.convert(text, T, F), refAll(tgt, flags, text)); !e.empty()) return e;
    if (d.target() != T || d.flags() != F) return "target or flags not set";
  }
  return {};
}
static void convCmds() {
  using Each = std::function<void(Args)>;
  auto gen = [](Rng& r) { return Args{I(r.chance(50) ? r.below(16) : r.below(256)), S(genConvert(r))}; };
  static const char* names[]{"Hiragana", "Katakana", "Romaji"};
  auto all = [](const Each& f) {
    std::vector<std::string> parts{"", "っ", "ッ", "ん", "ン", "ー", "ゝ", "ゞ", "ヽ", "ヾ", "ゃ", "ャ", "ぁ", "ァ", "漢", "n", "'", "\xEF\xB8\x80"};
    for (auto& d : delims()) { f({I(0), S(d.first)}); f({I(8), S("n" + std::string(1, d.second) + "a")}); f({I(0), S(std::string(1, d.second))}); }
    for (auto& k : orc::KanaRefs) for (auto& x : parts) for (auto& y : parts) {
      for (auto& t : {k.hira, k.kata, k.romaji}) f({I((x.size() * 7 + y.size()) & 15), S(x + t + y)});
    }
    for (auto& k : orc::KanaRefs) for (auto& o : orc::KanaRefs) { f({I(0), S(k.romaji + o.romaji)}); if (k.hira.size() == 3 && o.hira.size() == 3) f({I(0), S("っ" + k.hira + o.hira + "ー")}); }
  };
  for (uint64_t s = 0; s < 3; ++s) for (uint64_t t = 0; t < 3; ++t) {
    reg(std::string{"convert "} + names[s] + " to " + names[t], {[=](const Args& a) { return checkConvert(a, s, t); }, gen, all});
  }
  reg("convert all", {checkAll, gen, all});
  reg("flagString", {[](const Args& a) {
      for (auto& x : a) {
        const auto f = x.i & 255;
        std::string w;
        static const char* n[]{"Hepburn", "Kunrei", "NoProlongMark", "RemoveSpaces"};
        for (int i = 0; i < 4; ++i) if (f >> i & 1) w += (w.empty() ? "" : "|") + std::string{n[i]};
        if (!f) w = "None";
        if (auto e = same(kt::Converter{CT::Hiragana, static_cast<CF>(f)}.flagString(), w); !e.empty()) return e;
      }
      return std::string{}; }, [](Rng& r) { return Args{I(r.below(256))}; }, [](const Each& f) { for (uint64_t i = 0; i < 256; ++i) f({I(i)}); }});
}

int main(int argc, char** argv) {
  widthCmds();
  kanaCmds();
  convCmds();
  charCmds();
  return run(argc, argv);
}
