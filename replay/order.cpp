// Executable oracle for the orders of kanji, counts and radicals.
#include "common.h"
#include "oracle_utf8.h"
#include "../tu/order.h"
using namespace kanji_tools;
using rp::Rng; using rp::I; using rp::S; using rp::reg; using rp::same;
using Each = std::function<void(rp::Args)>;

static const Radical Rad{1, "一", {}, "", ""};
template <typename T, typename U> static void put(const T& f, U v) { const_cast<T&>(f) = static_cast<T>(v); }
struct K { std::string name, compat; bool has{}; uint64_t strokes{}, variant{}, type{}, freq{}, grade{}, kyu{}, level{}; std::string meaning, reading; };
static K readK(const rp::Args& a, size_t& i, bool text) {
  K k;
  k.name = a[i++].bytes(); k.compat = a[i++].bytes(); k.has = a[i++].i & 1; k.strokes = a[i++].i & 255; k.variant = a[i++].i & 255;
  k.type = a[i++].i % 9; k.freq = a[i++].i & 0xffff; k.grade = a[i++].i % 8; k.kyu = a[i++].i % 13; k.level = a[i++].i % 6;
  if (text) { k.meaning = a[i++].bytes(); k.reading = a[i++].bytes(); }
  return k;
}
static std::shared_ptr<VcKanji> make(const K& k) {
  auto p = std::make_shared<VcKanji>("一", k.has ? Kanji::OptString{"一"} : Kanji::OptString{}, Rad, Strokes{1}, Kanji::NelsonIds{});
  const Kanji& b = *p;
  const_cast<String&>(b._name._name) = k.name;
  if (k.has) *const_cast<Kanji::OptString&>(b._compatibilityName) = k.compat;
  put(b._strokes._value, k.strokes); put(b._strokes._variant, k.variant);
  p->_type = static_cast<KanjiTypes>(k.type); p->_frequency = static_cast<uint16_t>(k.freq); p->_grade = static_cast<KanjiGrades>(k.grade);
  p->_kyu = static_cast<KenteiKyus>(k.kyu); p->_level = static_cast<JlptLevels>(k.level); p->_meaning = k.meaning; p->_reading = k.reading;
  return p;
}
static std::string code(const std::string& s) {
  std::string r;
  for (auto c : orc::decode(s)) { char b[16]; snprintf(b, sizeof b, "%s%04X", r.empty() ? "" : " ", static_cast<unsigned>(c)); r += b; }
  return r;
}
static std::string compat(const K& k) { return k.has ? k.compat : k.name; }
static uint64_t freq(const K& k, uint64_t d) { return k.freq ? k.freq : d; }
static auto strokeKey(const K& k) { return std::make_tuple(k.strokes, k.variant, freq(k, 65535), code(compat(k))); }
static uint64_t place(const K& k) {
  if (k.type == 0) return 0;
  if (k.level != 5) return 1;
  if (k.freq) return 2;
  switch (k.type) { case 1: return 3; case 2: return 4; case 3: return 5; case 5: return 6; case 7: return 9; default: return k.kyu == 11 ? 8 : 7; }
}
static std::string one(const K& k, uint64_t x) {
  const auto p = make(k);
  const Kanji& b = *p;
  return same(b.qualifiedName(), k.name + ".'\"^~%+@#*"[place(k)]) + same(b.compatibilityName(), compat(k)) +
    same(static_cast<uint64_t>(b.frequencyOrDefault(static_cast<uint16_t>(x))), freq(k, x & 0xffff)) + same(static_cast<uint64_t>(b.frequencyOrMax()), freq(k, 65535)) +
    same(b.is(static_cast<KanjiTypes>(x % 9)), k.type == x % 9) + same(b.hasLevel(), k.level != 5) + same(b.hasKyu(), k.kyu != 12) + same(b.hasGrade(), k.grade != 7) +
    same(b.hasMeaning(), !k.meaning.empty()) + same(b.hasReading(), !k.reading.empty());
}
static std::string two(const K& a, const K& b) {
  const auto p = make(a), q = make(b);
  const auto ka = strokeKey(a), kb = strokeKey(b);
  const bool s = ka < kb, n = std::make_tuple(place(a), ka) < std::make_tuple(place(b), kb);
  return same(p->orderByStrokes(*q), s) + same(p->orderByQualifiedName(*q), n) + same(KanjiData::OrderByStrokes(p, q), s) +
    same(KanjiData::OrderByQualifiedName(p, q), n) + same(static_cast<const Kanji&>(*p) == *q, a.name == b.name);
}
struct Ct { uint64_t count{}; std::string text; bool known{}; K k; };
static Ct readC(const rp::Args& a, size_t& i) {
  Ct c;
  c.count = a[i++].i; c.text = a[i++].bytes(); c.known = a[i++].i & 1;
  if (c.known) c.k = readK(a, i, false);
  return c;
}
static Stats::Count make(const Ct& c) { return Stats::Count{c.count, c.text, c.known ? make(c.k) : KanjiPtr{}}; }
static auto key(const Ct& c, uint64_t mx) {
  return std::make_tuple(~c.count, c.known ? freq(c.k, mx) : (mx + 1) & 0xffff, c.known ? c.k.type : 8, c.text);
}
static std::string aName(Rng& r) {
  static const std::vector<std::string> v{"一", "丁", "七", "亜", "亞", "\xF0\xA0\xAE\x9F", "侮", "侮\xEF\xB8\x80", "A", "々"};
  return r.chance(15) ? rp::genText(r) : v[r.below(r.chance(70) ? 3 : v.size())];
}
static void addK(rp::Args& a, Rng& r, bool text, const K* like) {
  auto pick = [&](uint64_t same_, uint64_t other) { return I(like && r.chance(80) ? same_ : other); };
  a.push_back(S(aName(r))); a.push_back(S(aName(r))); a.push_back(I(r.below(2)));
  a.push_back(pick(like ? like->strokes : 0, 1 + r.below(3))); a.push_back(pick(like ? like->variant : 0, r.below(3)));
  a.push_back(pick(like ? like->type : 0, r.below(9)));
  static const uint64_t fs[]{0, 1, 2, 2501, 2502, 65534, 65535};
  a.push_back(pick(like ? like->freq : 0, r.chance(50) ? 0 : fs[r.below(7)]));
  a.push_back(I(r.below(8))); a.push_back(pick(like ? like->kyu : 0, r.chance(50) ? 10 + r.below(3) : r.below(13)));
  a.push_back(pick(like ? like->level : 0, r.chance(60) ? 5 : r.below(6)));
  if (text) { a.push_back(S(r.chance(50) ? "" : "x")); a.push_back(S(r.chance(50) ? "" : "x")); }
}

int main(int argc, char** argv) {
  reg("kanji order", {[](const rp::Args& a) {
      size_t i = 0;
      const K x = readK(a, i, true);
      if (i + 12 > a.size()) return one(x, i < a.size() ? a[i].i : 7);
      const K y = readK(a, i, true);
      return two(x, y) + two(y, x) + two(x, x) + one(x, 3) + one(y, 65535); },
    [](Rng& r) { rp::Args a; addK(a, r, true, nullptr); size_t i = 0; const K k = readK(a, i, true); addK(a, r, true, &k); return a; },
    [](const Each& f) {
      for (uint64_t t = 0; t < 9; ++t) for (uint64_t fr : {0, 1, 65535}) for (uint64_t k = 0; k < 13; ++k) for (uint64_t l = 0; l < 6; ++l)
        f({S(std::string{"一"}), S(std::string{"丁"}), I(t & 1), I(1 + k), I(0), I(t), I(fr), I((t + k) % 8), I(k), I(l), S(std::string{k % 2 ? "" : "m"}), S(std::string{l % 2 ? "" : "r"}), I(t * 7 + k)}); }});
  reg("count order", {[](const rp::Args& a) {
      size_t i = 1;
      const uint64_t mx = a[0].i & 0xffff;
      KanjiData::_maxFrequency = static_cast<uint16_t>(mx);
      const Ct x = readC(a, i);
      const auto p = make(x);
      std::string r = same(static_cast<uint64_t>(p.frequency()), std::get<1>(key(x, mx))) + same(static_cast<uint64_t>(p.type()), std::get<2>(key(x, mx))) + same(p < p, false);
      if (i < a.size()) {
        const Ct y = readC(a, i);
        const auto q = make(y);
        r += same(p < q, key(x, mx) < key(y, mx)) + same(q < p, key(y, mx) < key(x, mx));
      }
      return r; },
    [](Rng& r) {
      static const uint64_t ms[]{0, 1, 2, 2502, 2503, 65534, 65535};
      rp::Args a{I(ms[r.below(7)])};
      const uint64_t c = rp::genInt(r);
      K k; bool have{};
      for (int n = 0; n < 2; ++n) {
        a.push_back(I(r.chance(80) ? c : rp::genInt(r))); a.push_back(S(aName(r)));
        const bool known = r.chance(75);
        a.push_back(I(known));
        if (known) { const size_t at = a.size(); addK(a, r, false, have ? &k : nullptr); size_t i = at; k = readK(a, i, false); have = true; }
      }
      return a; }, {}});
  reg("radical order", {[](const rp::Args& a) {
      const auto x = static_cast<uint16_t>(a[0].i), y = static_cast<uint16_t>(a[1].i);
      const Radical p{x, "一", {}, "a", "b"}, q{y, "丁", {}, "c", "d"}, s{x, "七", {"y"}, "", ""};
      return same(p == q, x == y) + same(p < q, x < y) + same(p == s, true) + same(p < s, false); },
    [](Rng& r) { return rp::Args{I(rp::genInt(r)), I(rp::genInt(r))}; },
    [](const Each& f) { for (uint64_t i : {0, 1, 2, 127, 128, 214, 255, 256, 257, 32767, 32768, 65535}) for (uint64_t j : {0, 1, 2, 127, 128, 214, 255, 256, 257, 32767, 32768, 65535}) f({I(i), I(j)}); }});
  return rp::run(argc, argv);
}
