// Executable oracle for looking up kanji, radicals and Unicode data (compiled without access control).
#include "common.h"
#include "oracle_utf8.h"
#include "../tu/order.h"
#include <kt_kanji/RadicalData.h>
#include <kt_kanji/UcdData.h>
#include <sstream>
using namespace kanji_tools;
using rp::Rng; using rp::I; using rp::S; using rp::reg; using rp::same;
using Each = std::function<void(rp::Args)>;
static std::ostringstream Sink;
struct Db final : KanjiData {
  Db() : KanjiData{"x", DebugMode::None, Sink, Sink} { _maxFrequency = 0; Sink.str(""); }
  Kanji::Frequency frequency(const String&) const final { return {}; }
  JlptLevels level(const String&) const final { return JlptLevels::None; }
  KenteiKyus kyu(const String&) const final { return KenteiKyus::None; }
};
static const Radical Rad{1, "一", {}, "", ""};
struct K { std::string name{"一"}, compat; bool has{}; uint64_t type{7}, freq{}, grade{7}, kyu{12}, level{5}, mo{}, mk{}; std::vector<uint16_t> nelson; };
static K readK(const rp::Args& a, size_t& i) {
  K k;
  k.name = a[i++].bytes(); k.compat = a[i++].bytes(); k.has = a[i++].i & 1; i += 2;
  k.type = a[i++].i % 9; k.freq = a[i++].i & 0xffff; k.grade = a[i++].i % 8; k.kyu = a[i++].i % 13; k.level = a[i++].i % 6;
  if (i < a.size()) i += 2;
  if (i + 1 < a.size()) { k.mo = a[i++].i & 0xffff; k.mk = a[i++].i & 3; while (i < a.size()) k.nelson.push_back(static_cast<uint16_t>(a[i++].i)); }
  return k;
}
static std::shared_ptr<VcKanji> make(const K& k) {
  auto p = std::make_shared<VcKanji>("一", k.has ? Kanji::OptString{"一"} : Kanji::OptString{}, Rad, Strokes{1}, k.nelson);
  const Kanji& b = *p;
  const_cast<String&>(b._name._name) = k.name;
  if (k.has) *const_cast<Kanji::OptString&>(b._compatibilityName) = k.compat;
  p->_type = static_cast<KanjiTypes>(k.type); p->_frequency = static_cast<uint16_t>(k.freq); p->_grade = static_cast<KanjiGrades>(k.grade);
  p->_kyu = static_cast<KenteiKyus>(k.kyu); p->_level = static_cast<JlptLevels>(k.level);
  const_cast<uint16_t&>(b._morohashiId._id) = static_cast<uint16_t>(k.mo); const_cast<MorohashiId::IdType&>(b._morohashiId._idType) = static_cast<MorohashiId::IdType>(k.mk);
  return p;
}
static MorohashiId morohashi(uint64_t i, uint64_t k) {
  MorohashiId m;
  const_cast<uint16_t&>(m._id) = static_cast<uint16_t>(i); const_cast<MorohashiId::IdType&>(m._idType) = static_cast<MorohashiId::IdType>(k & 3);
  return m;
}
static bool withSel(const std::string& t) {
  if (t.size() < 5 || t.size() > 7) return false;
  const auto n = t.size() - 3, b = static_cast<size_t>(static_cast<uint8_t>(t[0]));
  return t.compare(n, 2, "\xEF\xB8") == 0 && (static_cast<uint8_t>(t[n + 2]) & 0xF0) == 0x80 && orc::validate(t, false) == orc::Valid && (b >= 0xF0 ? 4 : b >= 0xE0 ? 3u : 2u) == n;
}
static void put(std::map<String, Ucd>& m, const std::string& key, const std::string& name, uint64_t radical = 1, uint64_t strokes = 1) {
  Ucd::Entry e{0x4e00, "一"};
  const_cast<std::string&>(e.name()) = name;
  const std::string b{"b"}, v{"v"}, p{"p"}, id{"12P"}, nelson{"1,2"}, g{"G"}, none, me{"m"}, on{"o"}, kun{"k"};
  const Ucd::Links links;
  const auto rad = static_cast<Radical::Number>(radical);
  const Strokes st{static_cast<Strokes::Size>(strokes)};
  m.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(e, b, v, rad, st, p, id, nelson, g, none, false, false, links, Ucd::LinkTypes::None, me, on, kun));
}
static std::string value(const std::function<std::string()>& f) {
  try { return f(); } catch (const DomainError&) { return "DomainError"; } catch (const std::out_of_range&) { return "out_of_range"; }
}
template <typename T> static std::string ptr(const T* p, const std::vector<std::pair<const T*, std::string>>& names) {
  for (auto& [q, n] : names) if (p == q) return n;
  return p ? "something else" : "nothing";
}
static std::string listed(const KanjiData::List& l) { std::string r; for (auto& k : l) r += k->name() + ";"; return r; }

static std::string ucdLookup(const rp::Args& a) {
  const std::string s{a[0].bytes().c_str()}, base = withSel(s) ? s.substr(0, s.size() - 3) : s, t = base + "x";
  std::string r;
  for (int m = 0; m < 32; ++m) {                         // own entry, entry of the character, link, entry of the link, another name
    Db d;
    auto& u = d._ucd;
    const std::string other = m & 16 ? base + "y" : s;
    if (m & 1) put(u._map, s, other);
    if (m & 2) put(u._map, base, other);
    if (m & 4) u._linkedJinmei[base] = t;
    if (m & 8) put(u._map, t, other);
    const std::string key = withSel(s) ? (m & 4 ? t : std::string{"?"}) : s;
    const bool has = (!withSel(s) && (m & 3)) || (withSel(s) && (m & 4) && (m & 8));
    const Ucd* want = has ? &u._map.at(key) : nullptr;
    r += same(u.find(s) == want, true) + same(d.findUcd(s) == want, true);
    const auto c = d.getCompatibilityName(s);
    r += same(c ? *c : std::string{"-"}, has && other != s ? other : std::string{"-"});
  }
  return r;
}
static std::string nameLookup(const rp::Args& a) {
  const auto s = a[0].bytes(), t = s + "x";
  std::string r;
  K x, y;
  x.type = a.size() > 1 ? a[1].i % 9 : s.size() % 9; y.type = (x.type + 1) % 9;
  const auto p = make(x), q = make(y);
  for (int m = 0; m < 32; ++m) {
    Db d;
    if (m & 8) { d._compatibilityMap.emplace(s + "y", t); d._nameMap.emplace(s + "z", q); }     // names around the one looked for
    if (m & 16 && !s.empty()) { d._compatibilityMap.emplace(s.substr(0, s.size() - 1), t); d._nameMap.emplace("", q); }
    if (m & 1) d._nameMap.emplace(s, p);
    if (m & 2) d._compatibilityMap.emplace(s, t);
    if (m & 4) d._nameMap.emplace(t, q);
    const Kanji* want = m & 2 ? (m & 4 ? q.get() : nullptr) : m & 1 ? p.get() : nullptr;
    r += same(d.findByName(s).get() == want, true) + same(d.getType(s), want ? want->type() : KanjiTypes::None);
  }
  return r;
}
static std::string morohashiLookup(const rp::Args& a) {
  std::string r;
  uint64_t id{}, kind{};
  std::string text;
  bool ok = true;
  if (a[0].k == 's') {
    text = a[0].bytes();
    try { const MorohashiId m{text}; id = m.id(); kind = static_cast<uint64_t>(m.idType()); } catch (const DomainError&) { ok = false; }
  } else { id = a[0].i & 0xffff; kind = a[1].i & 3; }
  for (int m = 0; m < 8; ++m) {
    Db d;
    const auto key = morohashi(id, kind);
    if (m & 1) d._morohashiMap[key];
    if (m & 2) d._morohashiMap[morohashi(id, kind + 1)];
    if (m & 4) d._morohashiMap[morohashi(id + 1, kind)];
    const KanjiData::List* e = &BaseEnumMap<KanjiData::List>::Empty;
    const KanjiData::List* want = id && m & 1 ? &d._morohashiMap.at(key) : e;
    if (a[0].k == 's') r += same(value([&] { return std::to_string(&d.findByMorohashiId(text) == want); }), ok ? std::string{"1"} : std::string{"DomainError"});
    else r += same(&d.findByMorohashiId(key) == want, true);
    const auto n = static_cast<uint16_t>(id);
    if (m & 1) d._nelsonMap[n];
    if (m & 4) d._nelsonMap[static_cast<uint16_t>(n + 1)];
    r += same(&d.findByNelsonId(n) == (m & 1 ? &d._nelsonMap.at(n) : e), true);
  }
  return r;
}
static std::string frequencies(const rp::Args& a) {      // highest frequency, frequency looked for
  Db d;
  if (a[0].k == 's') {                                   // one kanji
    size_t i = 0;
    K k = readK(a, i);
    if (!k.freq || k.freq == 65535) return "";
    const auto given = static_cast<uint16_t>(i < a.size() ? a[i].i : 0);
    const auto p = make(k);
    std::string r;
    for (const uint64_t m : {uint64_t{k.freq} / 2, k.freq - 1, k.freq, k.freq + 1, std::min<uint64_t>(k.freq + 9, 65535), uint64_t{65535}, uint64_t{given}}) {
      Db o;
      KanjiData::_maxFrequency = static_cast<uint16_t>(m);
      o.addToFrequencies(p);
      r += same(static_cast<uint64_t>(KanjiData::maxFrequency()), std::max<uint64_t>(m, k.freq + 1));
    }
    d.addToFrequencies(p);
    for (uint64_t b = 0; b < 10; ++b) r += same(d.frequencyList(b).size(), static_cast<size_t>(b == std::min<uint64_t>((k.freq - 1) / 250, 9)));
    return r + same(d.frequencyList(10 + i).empty(), true);
  }
  const auto n = a[0].i % 65535, f = (a.size() > 1 ? a[1].i : a[0].i) & 0xffff;
  std::vector<KanjiPtr> ks;
  for (uint64_t i = 1; i <= n; ++i) { K k; k.freq = i; ks.push_back(make(k)); d.addToFrequencies(ks.back()); }
  std::string r = same(static_cast<uint64_t>(KanjiData::maxFrequency()), n ? n + 1 : 0);
  for (uint64_t b = 0; b < 12; ++b) {
    auto want = n > b * 250 ? n - b * 250 : 0;
    if (b < 9) want = std::min<uint64_t>(want, 250);
    r += same(static_cast<uint64_t>(d.frequencyList(b).size()), b < 10 ? want : 0);
    if (b < 10) r += same(&d.frequencyList(b) == &d._frequencies[b], true);
  }
  if (a.size() == 1) r += same(d.frequencyList(a[0].i).empty(), a[0].i > 9 || n <= a[0].i * 250);
  const auto k = d.findByFrequency(static_cast<uint16_t>(f));
  return r + same(k ? static_cast<uint64_t>(k->frequency()) : 0, f <= n ? f : 0);
}
static std::string radicals(const rp::Args& a) {         // how many, a name and its place or a number
  RadicalData d;
  const auto n = a[0].i % 3000;
  for (uint64_t i = 0; i < n; ++i) d._radicals.emplace_back(static_cast<uint16_t>(i + 1), "r" + std::to_string(i), Radical::AltForms{}, "", "");
  std::string r;
  auto nr = [&](const std::function<RadicalRef()>& f) { return value([&] { return std::to_string(&f() - d._radicals.data()); }); };
  for (auto x : {a.size() > 1 && a[1].k == 'i' ? a[1].i & 0xffff : 0, n, n + 1, uint64_t{0}, uint64_t{1}, uint64_t{65535}})
    r += same(nr([&]() -> RadicalRef { return d.find(static_cast<Radical::Number>(x)); }), x && x <= n ? std::to_string(x - 1) : "DomainError");
  const auto s = a.size() > 1 && a[1].k == 's' ? a[1].bytes() : std::string{"x"};
  for (auto x : {uint64_t{70000}, uint64_t{0}, n / 2, n ? n - 1 : 0, n, uint64_t{65535}}) {
    d._map.clear();
    d._map["y" + s] = 0;
    if (x < 70000) d._map[s] = static_cast<uint16_t>(x);
    r += same(nr([&]() -> RadicalRef { return d.find(s); }), !n || x == 70000 ? std::string{"DomainError"} : x < n ? std::to_string(x) : std::string{"out_of_range"});
    Db b;
    b._radicals._map = d._map;
    for (auto& y : d._radicals) b._radicals._radicals.emplace_back(y.number(), y.name(), Radical::AltForms{}, "", "");
    r += same(value([&] { return std::to_string(&b.getRadicalByName(s) - b._radicals._radicals.data()); }), nr([&]() -> RadicalRef { return d.find(s); }));
  }
  return r;
}
static std::string parts(const rp::Args& a) {
  const auto radical = a[0].i & 0xffff, strokes = 1 + (a.size() > 1 ? a[1].i % 60 : 0);
  std::map<String, Ucd> m;
  put(m, "x", "一", radical, strokes);
  const Ucd& u = m.at("x");
  Db d;
  for (uint64_t i = 1; i <= 214; ++i) d._radicals._radicals.emplace_back(static_cast<uint16_t>(i), "r" + std::to_string(i), Radical::AltForms{}, "", "");
  std::string r = same(&KanjiData::getPinyin(&u) == &u.pinyin(), true) + same(&KanjiData::getMorohashiId(&u) == &u.morohashiId(), true) + same(&UcdData::getMeaning(&u) == &u.meaning(), true);
  r += same(KanjiData::getPinyin(nullptr).id(), Pinyin{}.id()) + same(static_cast<bool>(KanjiData::getMorohashiId(nullptr)), false) + same(UcdData::getMeaning(nullptr), std::string{});
  r += same(value([&] { return std::to_string(d.ucdStrokes("n", &u).value()); }), std::to_string(strokes)) + same(value([&] { return std::to_string(d.ucdStrokes("n", nullptr).value()); }), std::string{"DomainError"});
  r += same(value([&] { return std::to_string(d.ucdRadical("n", &u).number()); }), radical && radical < 215 ? std::to_string(radical) : "DomainError");
  return r + same(value([&] { return std::to_string(d.ucdRadical("n", nullptr).number()); }), std::string{"DomainError"});
}
static std::string lists(const rp::Args& a) {
  size_t i = 0;
  const K k = readK(a, i);
  const auto p = make(k);
  Db d;
  std::string r;
  for (int n = 1; n < 3; ++n) {
    if (k.kyu < 12) d.addToKyus(p);
    if (k.level < 5) d.addToLevels(p);
    const KanjiData& c = d;
    for (uint64_t x = 0; x < 12; ++x) r += same(c.kyus()[static_cast<KenteiKyus>(x)].size(), k.kyu == x ? static_cast<size_t>(n) : size_t{});
    for (uint64_t x = 0; x < 5; ++x) r += same(c.levels()[static_cast<JlptLevels>(x)].size(), k.level == x ? static_cast<size_t>(n) : size_t{});
    if (k.kyu < 12) r += same(c.kyus()[static_cast<KenteiKyus>(k.kyu)].back() == p, true);
    if (k.level < 5) r += same(c.levels()[static_cast<JlptLevels>(k.level)].back() == p, true);
  }
  return r;
}
static std::string insert(const rp::Args& a) {
  size_t i = 0;
  const K k = readK(a, i);
  const auto other = k.has ? k.compat : k.name;
  const bool v = withSel(k.name);
  const auto p = make(k), q = make(K{});
  std::string r;
  for (int m = 0; m < 16; ++m) {                         // the name, the other name and the IDs are taken
    Db d;
    if (m & 1) d._nameMap.emplace(k.name, q);
    if (m & 2) d._compatibilityMap.emplace(other, "taken");
    if (m & 4) { d._morohashiMap[morohashi(k.mo, k.mk)].push_back(q); for (auto x : k.nelson) d._nelsonMap[x].push_back(q); }
    const auto before = std::make_tuple(d._nameMap, d._compatibilityMap, d._nelsonMap);
    const auto mb = d._morohashiMap;
    auto names = d._nameMap; auto compats = d._compatibilityMap; auto nelson = d._nelsonMap; auto mo = d._morohashiMap;
    KanjiData::List l{q};
    const bool got = m & 8 ? d.checkInsert(l, p) : d.checkInsert(p);
    r += same(got, !(m & 1));
    if (got) {
      names.emplace(k.name, p);
      if (v) compats.emplace(other, k.name);
      if (k.mo) mo[morohashi(k.mo, k.mk)].push_back(p);
      for (auto x : k.nelson) nelson[x].push_back(p);
    }
    r += same(d._nameMap == names, true) + same(d._compatibilityMap == compats, true) + same(d._nelsonMap == nelson, true) + same(d._morohashiMap == mo, true);
    r += same(l.size(), m & 8 && got ? size_t{2} : size_t{1}) + same(l.back() == (m & 8 && got ? KanjiPtr{p} : KanjiPtr{q}), true);
    const KanjiData& c = d;
    for (uint64_t g = 0; g < 7; ++g) r += same(c.grades()[static_cast<KanjiGrades>(g)].size(), got && k.grade == g ? size_t{1} : size_t{});
  }
  return r;
}
static std::string aName(Rng& r) {
  static const std::vector<std::string> v{"一", "侮", "侮\xEF\xB8\x80", "\xF0\xA0\xAE\x9F\xEF\xB8\x8F", "\xC3\xA9\xEF\xB8\x81", "A\xEF\xB8\x80", "侮\xEF\xB8\x90", "侮\xEF\xB8", "\xEF\xB8\x80", "一一\xEF\xB8\x80", "", "逸\xEF\xB8\x82", "々"};
  if (r.chance(20)) { std::string t{rp::genText(r, false).c_str()}; return t; }
  return r.chance(30) ? rp::u8(rp::genCode(r)) + rp::u8(0xfe00 + static_cast<uint32_t>(r.below(17))) : v[r.below(v.size())];
}
static rp::Args aKanji(Rng& r, bool ids) {
  static const uint64_t fs[]{0, 1, 250, 251, 2250, 2251, 2500, 2501, 2502, 2750, 2751, 3000, 65534};
  rp::Args a{S(std::string{aName(r).c_str()}), S(std::string{aName(r).c_str()}), I(r.below(2)), I(1), I(0), I(r.below(9)), I(r.chance(70) ? fs[r.below(13)] : r.below(65535)), I(r.below(8)), I(r.below(13)), I(r.below(6)), S(std::string{}), S(std::string{})};
  if (ids) {
    a.push_back(I(r.chance(30) ? 0 : r.below(100))); a.push_back(I(r.below(4)));
    for (auto n = r.below(4); n; --n) a.push_back(I(r.chance(20) ? 0 : r.below(10)));
  }
  return a;
}
int main(int argc, char** argv) {
  const auto edges = std::vector<uint64_t>{0, 1, 2, 249, 250, 251, 500, 501, 2249, 2250, 2251, 2499, 2500, 2501, 2502, 2749, 2750, 2751, 2752, 3000, 3001, 5000};
  reg("lookup ucd", {ucdLookup, [](Rng& r) { return rp::Args{S(aName(r))}; }, {}});
  reg("lookup name", {nameLookup, [](Rng& r) { return rp::Args{S(aName(r)), I(r.below(9))}; }, {}});
  reg("lookup morohashi", {morohashiLookup, [](Rng& r) {
      static const char* t[]{"0", "", "1", "12P", "65535", "65536", "H7", "3PP", "x", "0P"};
      return r.chance(30) ? rp::Args{S(std::string{t[r.below(10)]})} : rp::Args{I(r.chance(20) ? 0 : rp::genInt(r)), I(r.below(4))}; }, {}});
  reg("lookup nelson", {[](const rp::Args& a) { return morohashiLookup(rp::Args{I(a[0].i), I(0)}); }, [](Rng& r) { return rp::Args{I(rp::genInt(r))}; }, {}});
  reg("lookup frequency", {frequencies, [](Rng& r) { return r.chance(50) ? aKanji(r, false) : rp::Args{I(r.below(4000)), I(r.chance(90) ? r.below(4000) : rp::genInt(r))}; },
    [edges](const Each& f) { for (auto n : edges) for (auto x : edges) f({I(n), I(x)}); for (auto x : {0, 9, 10, 11}) f({I(static_cast<uint64_t>(x))}); f({I(65534), I(65534)}); f({I(65534), I(65535)}); }});
  reg("lookup lists", {lists, [](Rng& r) { return aKanji(r, false); }, [](const Each& f) { Rng r{3}; for (uint64_t k = 0; k < 13; ++k) for (uint64_t l = 0; l < 6; ++l) { auto a = aKanji(r, false); a[8] = I(k); a[9] = I(l); f(a); } }});
  reg("lookup radical", {radicals, [](Rng& r) { return rp::Args{I(r.chance(20) ? 0 : r.below(300)), r.chance(50) ? S(rp::genText(r)) : I(r.below(400))}; }, {}});
  reg("lookup parts", {parts, [](Rng& r) { return rp::Args{I(r.below(300)), I(r.below(60))}; }, {}});
  reg("lookup insert", {insert, [](Rng& r) { return aKanji(r, true); }, {}});
  return rp::run(argc, argv);
}
