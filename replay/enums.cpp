// Executable oracle for the enum containers.
#include "common.h"
#include <kt_kana/KanaEnums.h>
#include <kt_kanji/KanjiEnums.h>
#include <kt_kanji/Ucd.h>
#include <kt_utils/EnumMap.h>
using namespace rp;
using namespace kanji_tools;

static std::string how(const std::function<std::string()>& f) {
  try { return f(); }
  catch (const RangeError&) { return "RangeError"; }
  catch (const DomainError&) { return "DomainError"; }
}
using Wide = __int128;
template <typename T, int N> struct ListOf {
  const std::string tn;
  const std::vector<std::string> names;   // without None
  template <typename L, typename I> void index(const L& l, const std::string& in) {
    reg("index " + tn + " " + in, {[&l](const Args& a) {
        const I i{static_cast<I>(a[0].i)};
        const Wide w{i};
        const auto want = w >= 0 && w < N ? std::to_string(static_cast<int>(w)) : "RangeError";
        return same(how([&] { return std::to_string(static_cast<int>(to_underlying(l[i]))); }), std::string{want}); },
        [](Rng& r) { return Args{rp::I(r.chance(50) ? r.below(3) * 256 + r.below(300) : genInt(r))}; },
        [](const std::function<void(Args)>& f) { for (int64_t k = -700; k < 700; ++k) f({rp::I(static_cast<uint64_t>(k))}); }});
  }
  template <typename L> void all(const L& l, bool none) {
    index<L, int>(l, "int"); index<L, unsigned>(l, "unsigned int"); index<L, long>(l, "long"); index<L, size_t>(l, "unsigned long");
    index<L, short>(l, "short"); index<L, signed char>(l, "signed char"); index<L, uint8_t>(l, "unsigned char"); index<L, uint16_t>(l, "unsigned short");
    auto bytes = [](const std::function<void(Args)>& f) { for (uint64_t k = 0; k < 256; ++k) f({rp::I(k)}); };
    reg("name " + tn, {[this, &l, none](const Args& a) {
        const auto x{static_cast<T>(a[0].i)}; const auto k{static_cast<size_t>(static_cast<uint8_t>(a[0].i))};
        const auto want = k < names.size() ? names[k] : none && k == names.size() ? std::string{"None"} : std::string{"RangeError"};
        return same(how([&] { return l.toString(x); }), want) + same(how([&] { return toString(x); }), want); }, {}, bytes});
    auto from = [&](const std::string& c, bool e, bool n, auto call) {
      reg(c + " " + tn, {[this, e, n, call](const Args& a) {
          const auto s = a[0].bytes();
          std::string want{"DomainError"};
          for (size_t k = 0; k < names.size(); ++k) if (names[k] == s) want = std::to_string(k);
          if ((e && s.empty()) || (n && s == "None")) want = std::to_string(names.size());
          return same(how([&] { return std::to_string(static_cast<int>(to_underlying(call(s)))); }), want); },
          [this](Rng& r) {
            std::string s = r.chance(80) ? (names.begin() + static_cast<long>(r.below(names.size())))->substr(0) : "None";
            if (r.chance(50) && !s.empty()) s[r.below(s.size())] = static_cast<char>(r.below(128));
            if (r.chance(20)) s += static_cast<char>(r.below(128));
            return Args{S(s)}; },
          [this](const std::function<void(Args)>& f) { f({S(std::string{})}); f({S(std::string{"None"})}); for (auto& x : names) f({S(x)}); }});
    };
    from("fromString", false, false, [&l](const std::string& s) { return l.fromString(s); });
    if constexpr (requires { l.fromStringAllowEmpty(""); }) {
      from("fromStringAllowEmpty", true, false, [&l](const std::string& s) { return l.fromStringAllowEmpty(s); });
      from("fromStringAllowNone", false, true, [&l](const std::string& s) { return l.fromStringAllowNone(s); });
      from("fromStringAllowEmptyAndNone", true, true, [&l](const std::string& s) { return l.fromStringAllowEmptyAndNone(s); });
    }
    iters("list", l.begin(), l.end(), [](auto& it) { return static_cast<int>(to_underlying(*it)); }, [](auto x) { return static_cast<int>(to_underlying(x)); });
  }
  // position p moved by every operation with distance d, against plain arithmetic
  template <typename It> void iters(const std::string& kind, It b, It e, auto val, auto conv) {
    static const int n = kind == "list" ? N : N - 1;
    const int len = static_cast<int>(e - b);
    auto check = [=](const Args& a) -> std::string {
      const auto p = static_cast<int>(a[0].i % static_cast<uint64_t>(len + 1));
      const auto d = static_cast<int64_t>(a.size() > 1 ? a[1].i : 0);
      It x{b};
      for (int k = 0; k < p; ++k) ++x;
      if (x - b != p || (p < len && val(x) != p)) return "position";
      std::string r;
      auto at = [&](Wide w, int hi) { return w >= 0 && w <= hi ? std::to_string(static_cast<int>(w)) : std::string{"RangeError"}; };
      auto op = [&](const char* w, Wide t, auto f, Wide ret) {
        It y{x};
        const auto got = how([&] { const auto v = f(y); return v + "/" + std::to_string(static_cast<int>(y - b)); });
        const auto ok = t >= 0 && t <= len;
        const auto want = ok ? std::to_string(static_cast<int>(ret)) + "/" + std::to_string(static_cast<int>(t)) : std::string{"RangeError"};
        if (got != want) r += std::string{w} + " got " + got + " want " + want + "; ";
        if (!ok && y - b != p) r += std::string{w} + " moved although it failed; ";
      };
      auto pos = [&](const It& y) { return std::to_string(static_cast<int>(y - b)); };
      op("++x", Wide{p} + 1, [&](It& y) { return pos(++y); }, Wide{p} + 1);
      op("--x", Wide{p} - 1, [&](It& y) { return pos(--y); }, Wide{p} - 1);
      op("x++", Wide{p} + 1, [&](It& y) { return pos(y++); }, p);
      op("x--", Wide{p} - 1, [&](It& y) { return pos(y--); }, p);
      op("x+=d", Wide{p} + d, [&](It& y) { return pos(y += d); }, Wide{p} + d);
      op("x-=d", Wide{p} - d, [&](It& y) { return pos(y -= d); }, Wide{p} - d);
      if (auto g = how([&] { return pos(x + d); }), w = at(Wide{p} + d, len); g != w) r += "x+d got " + g + " want " + w + "; ";
      if (auto g = how([&] { return pos(x - d); }), w = at(Wide{p} - d, len); g != w) r += "x-d got " + g + " want " + w + "; ";
      if (auto g = how([&] { return std::to_string(conv(x[d])); }), w = at(Wide{p} + d, len - 1); g != w) r += "x[d] got " + g + " want " + w + "; ";
      if (auto g = how([&] { return std::to_string(val(x)); }), w = at(p, len - 1); g != w) r += "*x got " + g + " want " + w + "; ";
      if (len != n) r += "length";
      return r;
    };
    reg(kind + " iterator " + tn, {check, [](Rng& r) { return Args{rp::I(r.below(40)), rp::I(genInt(r))}; },
        [](const std::function<void(Args)>& f) { for (uint64_t p = 0; p < 14; ++p) for (int64_t d = -600; d < 600; ++d) f({rp::I(p), rp::I(static_cast<uint64_t>(d))});
          for (uint64_t p = 0; p < 14; ++p) for (int64_t d = 0; d < 30; ++d) { f({rp::I(p), rp::I(static_cast<uint64_t>(INT64_MAX - d))}); f({rp::I(p), rp::I(static_cast<uint64_t>(INT64_MIN + d))}); } }});
    reg(kind + " compare " + tn, {[=](const Args& a) -> std::string {
        const auto p = static_cast<int>(a[0].i % static_cast<uint64_t>(len + 1)), q = static_cast<int>(a[1].i % static_cast<uint64_t>(len + 1));
        It x{b}, y{b};
        for (int k = 0; k < p; ++k) ++x;
        for (int k = 0; k < q; ++k) ++y;
        const int g = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5;
        const int w = (p == q) | (p != q) << 1 | (p < q) << 2 | (p <= q) << 3 | (p > q) << 4 | (p >= q) << 5;
        return same(g, w) + same(static_cast<int>(x - y), p - q); }, {},
        [](const std::function<void(Args)>& f) { for (uint64_t p = 0; p < 14; ++p) for (uint64_t q = 0; q < 14; ++q) f({rp::I(p), rp::I(q)}); }});
  }
};
template <typename T, int N> static void maps(ListOf<T, N + 1>& l) {
  static EnumMap<T, int> m, other;
  for (int k = 0; k < N; ++k) m[static_cast<T>(k)] = k;
  l.iters("map", m.begin(), m.end(), [](auto& it) { return *it; }, [](int x) { return x; });
  reg("map " + l.tn, {[](const Args& a) {
      const auto x{static_cast<T>(a[0].i)}; const int k{static_cast<uint8_t>(a[0].i)};
      const auto& c = m;
      const auto r = std::string{k < N ? std::to_string(k) : "RangeError"};
      return same(how([&] { return std::to_string(m[x]); }), r) +
        same(how([&] { return std::to_string(c[x]); }), k == N ? std::string{"0"} : r) +
        (k <= N ? same(how([&] { return &c[x] == &BaseEnumMap<int>::Empty ? "empty" : "held"; }), std::string{k == N ? "empty" : "held"}) : std::string{}); }, {},
      [](const std::function<void(Args)>& f) { for (uint64_t k = 0; k < 256; ++k) f({rp::I(k)}); }});
  auto old = cmds()["map compare " + l.tn];
  reg("map compare " + l.tn, {[old](const Args& a) {
      auto x = m.begin(), y = other.begin();
      using It = decltype(x);
      std::string r = old.check(a);
      for (const auto& f : std::vector<std::function<void()>>{[&] { (void)(x == y); }, [&] { (void)(x != y); }, [&] { (void)(x < y); }, [&] { (void)(x <= y); },
           [&] { (void)(x > y); }, [&] { (void)(x >= y); }, [&] { (void)(x - y); }, [] { (void)*It{}; }})
        r += same(how([&] { f(); return "nothing thrown"; }), std::string{"DomainError"});
      return r; }, {}, old.all});
}

int main(int argc, char** argv) {
  ListOf<CharType, 3> ct{"CharType", {"Hiragana", "Katakana", "Romaji"}}; ct.all(CharTypes, false);
  ListOf<KanjiTypes, 9> kt{"KanjiTypes", {"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra", "Kentei", "Ucd"}}; kt.all(AllKanjiTypes, true); maps<KanjiTypes, 8>(kt);
  ListOf<KanjiGrades, 8> kg{"KanjiGrades", {"G1", "G2", "G3", "G4", "G5", "G6", "S"}}; kg.all(AllKanjiGrades, true); maps<KanjiGrades, 7>(kg);
  ListOf<JlptLevels, 6> jl{"JlptLevels", {"N5", "N4", "N3", "N2", "N1"}}; jl.all(AllJlptLevels, true); maps<JlptLevels, 5>(jl);
  ListOf<KenteiKyus, 13> kk{"KenteiKyus", {"K10", "K9", "K8", "K7", "K6", "K5", "K4", "K3", "KJ2", "K2", "KJ1", "K1"}}; kk.all(AllKenteiKyus, true); maps<KenteiKyus, 12>(kk);
  ListOf<JinmeiReasons, 7> jr{"JinmeiReasons", {"Names", "Print", "Variant", "Moved", "Simple", "Other"}}; jr.all(AllJinmeiReasons, true);
  ListOf<Ucd::LinkTypes, 12> ul{"Ucd::LinkTypes", {"Compatibility*", "Definition*", "Jinmei*", "Semantic*", "Simplified*", "Traditional*", "Compatibility", "Definition", "Jinmei", "Simplified", "Traditional"}}; ul.all(AllUcdLinkTypes, true);
  return run(argc, argv);
}
