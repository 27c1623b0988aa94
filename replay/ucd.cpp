// Executable oracle for entries of the Unicode character data.
#include "common.h"
#include "oracle_blocks.h"
#include "oracle_utf8.h"
#include <kt_kanji/Ucd.h>
#include <kt_utils/Exception.h>
using namespace kanji_tools;
using rp::Rng; using rp::I; using rp::S; using rp::reg; using rp::same;
using Each = std::function<void(rp::Args)>;
static const orc::Ranges Kanjis{{0x3400, 0x4DBF}, {0x4E00, 0x9FFF}, {0xF900, 0xFAFF}, {0x20000, 0x2A6DF}, {0x2E80, 0x2EFF}, {0x2A700, 0x2EBEF}, {0x2F800, 0x2FA1F}, {0x30000, 0x3134F}};
static uint32_t codeOf(const std::string& s) { const auto c = orc::decode(s, 1); return c.empty() ? 0 : c[0]; }
static std::string both(const std::string& s) { char b[32]; snprintf(b, sizeof b, "[%04X] ", codeOf(s)); return b + s; }
static Ucd::Entry entry(const std::string& s) { Ucd::Entry e{0x4e00, "一"}; const_cast<std::string&>(e.name()) = s; return e; }
static std::string value(const std::function<std::string()>& f) { try { return f(); } catch (const DomainError& x) { if (getenv("RP_WHY")) std::cerr << x.what() << "\n"; return "DomainError"; } }
static std::string bits(uint64_t x, const char* pre) {
  static const char* l = "GHJKTV";
  std::string r;
  for (int i = 0; i < 6; ++i) if (x >> i & 1) r += l[i];
  return pre + r;
}
static std::string sourcesOf(const std::string& s) {   // letters in order, or the error
  uint64_t v{};
  for (auto c : s) { const char* p = c ? strchr("GHJKTV", c) : nullptr; if (!p) return "DomainError"; 
    static const char* l = "GHJKTV"; const auto k = 1u << (strchr(l, c) - l); if (v & k) return "DomainError"; v |= k; }
  return bits(v, "");
}
static std::string morohashiOf(const std::string& s) {
  std::string n{s}, tail, head;
  auto ends = [&](const char* t) { const std::string x{t}; return s.size() >= x.size() && s.substr(s.size() - x.size()) == x; };
  if (s.empty()) return "";
  if (ends("PP") || ends("''")) { n = s.substr(0, s.size() - 2); tail = "PP"; }
  else if (ends("P") || ends("'")) { n = s.substr(0, s.size() - 1); tail = "P"; }
  else if (s[0] == 'H') { n = s.substr(1); head = "H"; }
  if (n.empty()) return "DomainError";
  uint64_t v{};
  for (auto c : n) { if (c < '0' || c > '9') return "DomainError"; v = std::min<uint64_t>(v * 10 + static_cast<uint64_t>(c - '0'), 100000); }
  if (v > 65535 || (!v && (head + tail).size())) return "DomainError";
  return head + (v ? std::to_string(v) : "") + tail;
}
static Ucd make(const std::string& name, const std::vector<std::string>& t, uint64_t radical, uint64_t strokes, uint64_t variant, bool joyo, bool jinmei, const std::vector<std::string>& links, uint64_t type) {
  Ucd::Links l;
  for (auto& x : links) l.push_back(entry(x));
  const auto st = variant ? Strokes{static_cast<Strokes::Size>(strokes), static_cast<Strokes::Size>(variant)} : Strokes{static_cast<Strokes::Size>(strokes)};
  return Ucd{entry(name), t[0], t[1], static_cast<Radical::Number>(radical), st, t[2], t[3], t[4], t[5], t[6], joyo, jinmei, l, static_cast<Ucd::LinkTypes>(type), t[7], t[8], t[9]};
}
static std::string whole(const rp::Args& a) {
  // name, block, version, radical, strokes, pinyin, morohashi, nelson, sources, jSource, joyo, jinmei, (number of links), type, meaning, on, kun, links...
  auto text = [&](size_t i) { std::string d{"t"}; return a.size() > i && a[i].k == 's' ? a[i].bytes() : d + std::to_string(i); };
  auto num = [&](size_t i) { return a.size() > i && a[i].k == 'i' ? a[i].i : 0; };
  const auto name = text(0);
  const std::vector<std::string> t{text(1), text(2), text(5), text(6), text(7), text(8), text(9), text(14), text(15), text(16)};
  std::vector<std::string> links;
  for (size_t i = 17; i < a.size(); ++i) links.push_back(text(i));
  if (a.size() < 17) for (uint64_t i = 0; i < num(12) % 5; ++i) links.push_back(std::string{"\xE4\xB8\x81"} + std::to_string(i));
  const uint64_t radical = num(3) & 0xffff, joyo = num(10) & 1, jinmei = num(11) & 1, type = num(13) % 12, strokes = 2 + num(4) % 53, variant = num(4) >> 8 & 0xff ? 3 + (num(4) >> 8 & 0xff) % 30 + (3 + (num(4) >> 8 & 0xff) % 30 == strokes) : 0;
  const auto mo = morohashiOf(t[3]), so = sourcesOf(t[5]);
  std::string want = mo == "DomainError" || so == "DomainError" ? "DomainError" : "", e;
  const auto got = value([&] {
    const auto u = make(name, t, radical, strokes, variant, joyo, jinmei, links, type);
    e += same(u.name(), name) + same(u.entry().name(), name) + same(u.code(), codeOf(name)) + same(u.codeAndName(), both(name)) + same(u.block().name(), t[0]) + same(u.version().name(), t[1]);
    e += same(u.pinyin().name(), t[2]) + same(u.radical(), static_cast<Radical::Number>(radical)) + same(static_cast<uint64_t>(u.strokes().value()), strokes) + same(static_cast<uint64_t>(u.strokes().variant()), variant);
    e += same(u.morohashiId().toString(), mo) + same(u.sources(), so) + same(u.joyo(), joyo != 0) + same(u.jinmei(), jinmei != 0);
    e += same(u.nelsonIds(), t[4]) + same(u.jSource(), t[6]) + same(u.meaning(), t[7]) + same(u.onReading(), t[8]) + same(u.kunReading(), t[9]);
    e += same(static_cast<uint64_t>(u.linkType()), type) + same(u.links().size(), links.size());
    std::string l;
    for (size_t i = 0; i < links.size(); ++i) { l += (i ? ", " : "") + both(links[i]); if (u.links().size() > i) e += same(u.links()[i].name(), links[i]); }
    e += same(u.linkCodeAndNames(), l) + same(u.hasLinks(), !links.empty());
    const bool trad = type == 5 || type == 10;
    e += same(u.hasTraditionalLinks(), trad) + same(u.hasNonTraditionalLinks(), !links.empty() && !trad) + same(u.linkedReadings(), type < 6);
    return std::string{};
  });
  return e + same(got, want);
}
static rp::Args filler(Rng& r) {
  static const char* ids[]{"", "1", "0", "00", "65535", "65536", "10P", "010''", "H9", "H", "P", "0P", "99999", "6553555535", "H1P", "1PPP", "a"};
  static const char* src[]{"", "G", "GH", "VJ", "GHJKTV", "VTKJHG", "GG", "GHJKTVG", "A", "g", "JJ", "TG", "K", "HV"};
  rp::Args a{S(rp::u8(rp::genCode(r))), S("b" + std::to_string(r.below(2000))), S(std::string{"v"} + static_cast<char>('0' + r.below(9))), I(r.below(300)), I(r.below(65536)), S(r.chance(10) ? std::string{} : rp::u8(static_cast<uint32_t>(r.below(2000)))),
             S(std::string{ids[r.below(17)]}), S(rp::genText(r)), S(std::string{src[r.below(14)]}), S(rp::genText(r)), I(r.below(2)), I(r.below(2)), I(0), I(r.below(12)), S(rp::genText(r)), S(rp::genText(r)), S(rp::genText(r))};
  for (auto n = r.below(4); n; --n) a.push_back(S(rp::u8(rp::genCode(r))));
  return a;
}
static rp::Args base(Rng& r) { rp::Args a = filler(r); a[6] = S(std::string{"12P"}); a[8] = S(std::string{"GJ"}); return a; }
int main(int argc, char** argv) {
  reg("ucd entry", {[](const rp::Args& a) {
      const auto c = static_cast<uint32_t>(a[0].i);
      const auto s = a[1].bytes();
      const bool ok = orc::is(s, true, Kanjis) && codeOf(s) == c;
      return same(value([&] { const Ucd::Entry e{static_cast<Code>(c), s}; return e.name() + "/" + std::to_string(e.code()); }), ok ? s + "/" + std::to_string(c) : std::string{"DomainError"}); },
    [](Rng& r) {
      const auto c = r.chance(70) ? Kanjis[r.below(8)].first + r.below(3) : rp::genCode(r);
      auto s = rp::u8(static_cast<uint32_t>(c));
      if (r.chance(30)) s += rp::u8(r.chance(50) ? 0xfe00 + static_cast<uint32_t>(r.below(16)) : rp::genCode(r));
      if (r.chance(10)) s = rp::genText(r);
      return rp::Args{I(r.chance(80) ? c : r.chance(50) ? c + 1 : c ^ 0x10000), S(s)}; }, {}});
  reg("ucd text", {[](const rp::Args& a) {
      const auto s = a[0].bytes();
      const auto e = entry(s);
      return same(e.codeAndName(), both(s)) + same(e.code(), codeOf(s)) + same(e.name(), s); }, [](Rng& r) { return rp::Args{S(rp::genText(r))}; }, {}});
  reg("ucd links", {[](const rp::Args& a) {
      rp::Args b;
      Rng r{7};
      b = base(r); b.resize(17);
      size_t n{};
      for (auto& x : a) if (x.k == 's') { b.push_back(x); ++n; }
      if (!n) for (uint64_t k = 0; k < (a.empty() ? 0 : a.back().i % 6); ++k) b.push_back(S(rp::u8(0x4e00 + static_cast<uint32_t>(k))));
      return whole(b); },
    [](Rng& r) { rp::Args a; for (auto n = r.below(6); n; --n) a.push_back(S(r.chance(60) ? rp::u8(rp::genCode(r)) : rp::genText(r))); return a; }, [](const Each& f) { for (uint64_t i = 0; i < 6; ++i) f({I(i)}); }});
  auto flags = [](const rp::Args& a) {                   // bits, kind of link, links
    Rng r{5};
    rp::Args b = base(r);
    b.resize(17);
    const auto x = a[0].i;
    b[8] = S(bits(x, "")); b[10] = I(x >> 6 & 1); b[11] = I(x >> 7 & 1); b[13] = I(a.size() > 1 ? a[1].i % 12 : 11);
    for (uint64_t k = 0; k < (a.size() > 2 ? a[2].i % 4 : 1); ++k) b.push_back(S(std::string{"\xE4\xB8\x81"}));
    return whole(b); };
  reg("ucd flags", {flags, [](Rng& r) { return rp::Args{I(r.below(256)), I(r.below(12)), I(r.below(4))}; },
    [](const Each& f) { for (uint64_t t = 0; t < 12; ++t) for (uint64_t n = 0; n < 2; ++n) for (uint64_t x : {0, 1, 2, 4, 8, 16, 32, 63, 64, 128, 255}) f({I(x), I(t), I(n)}); }});
  reg("ucd sources", {[flags](const rp::Args& a) {
      if (a[0].k == 'i') return flags(a);
      Rng r{3};
      rp::Args b = base(r);
      b[8] = a[0]; b[10] = I(a.size() > 1 ? a[1].i : 0); b[11] = I(a.size() > 2 ? a[2].i : 0);
      return whole(b); },
    [](Rng& r) { std::string s; for (auto n = r.below(8); n; --n) s += r.chance(97) ? "GHJKTV"[r.below(6)] : static_cast<char>(r.below(256)); return rp::Args{S(s), I(r.below(2)), I(r.below(2))}; }, {}});
  reg("ucd make", {whole, filler, {}});
  return rp::run(argc, argv);
}
