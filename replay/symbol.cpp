// Executable oracle for symbols: sequences of names against a list of what was made before.
#include "common.h"
#include <kt_utils/Exception.h>
#include <kt_utils/Symbol.h>
#include <sstream>
using namespace kanji_tools;
using rp::Rng; using rp::I; using rp::S; using rp::reg; using rp::same;
using Each = std::function<void(rp::Args)>;
namespace kanji_tools {
class SymA final : public Symbol<SymA> { public: inline static const String Type{"SymA"}; using Symbol::Symbol; };
class SymB final : public Symbol<SymB> { public: inline static const String Type{"SymB"}; using Symbol::Symbol; };
class SymC final : public Symbol<SymC> { public: inline static const String Type{"SymC"}; using Symbol::Symbol; };
}
struct Ref { std::vector<std::string> names; };
template <typename T> static std::string step(Ref& r, const std::string& s) {
  size_t want{};
  bool fails{}, had{};
  if (!s.empty()) {
    while (want < r.names.size() && r.names[want] != s) ++want;
    had = want++ < r.names.size();
    if (!had) { if (want > 65534) fails = true; }
  }
  std::string e = same(T::exists(s), had);
  std::string msg;
  size_t got{};
  try {
    const T x{s};
    got = x.id();
    if (!fails) {
      if (!s.empty() && !had) r.names.push_back(s);
      const T y{s};
      std::ostringstream os;
      os << x;
      const T none;
      e += same(x.name(), s) + same(x == y, true) + same(x != y, false) + same(static_cast<bool>(x), !s.empty()) + same(os.str(), s) + same(x == none, s.empty()) + same(&x.name() == &y.name(), true);
    }
  } catch (const DomainError& d) { msg = d.what(); }
  e += same(msg, fails ? T::Type + ": can't add '" + s + "' - max capacity" : std::string{});
  if (!fails) e += same(got, want);
  return e + same(T::size(), r.names.size());
}
static std::string capacity() {
  std::string e;
  for (size_t i = SymC::size(); i < 65534; ++i) { const SymC x{"n" + std::to_string(i)}; if (x.id() != SymC::size()) return "number " + std::to_string(x.id()) + " at size " + std::to_string(SymC::size()); if (SymC::size() == 65534) break; }
  bool threw{};
  try { const SymC x{"one more"}; } catch (const DomainError&) { threw = true; }
  const SymC last{"n7"};
  e += same(threw, true) + same(SymC::size(), size_t{65534}) + same(SymC::exists("one more"), false) + same(last.name(), std::string{"n7"});
return e;
}
int main(int argc, char** argv) {
  reg("symbol", {[](const rp::Args& a) {
      if (!a.empty() && a[0].k == 'i') return capacity();
      static Ref ra, rb;
      std::string e;
      for (auto& x : a) { e += step<SymA>(ra, x.bytes()); if (ra.names.size() % 3 == 0) e += step<SymB>(rb, x.bytes()); }
      for (size_t i = 0; i < ra.names.size() && i < 20; ++i) { const SymA x{ra.names[i]}; e += same(static_cast<size_t>(x.id()), i + 1) + same(x.name(), ra.names[i]); }
      if (ra.names.size() > 3000) for (int i = 0; i < 3; ++i) e += step<SymA>(ra, ra.names[ra.names.size() - 1 - static_cast<size_t>(i)]);
      return e; },
    [](Rng& r) { rp::Args a; for (auto n = 1 + r.below(5); n; --n) a.push_back(S(r.chance(60) ? std::string(1, static_cast<char>('a' + r.below(8))) + (r.chance(30) ? std::string(1, static_cast<char>(r.below(256))) : "") : rp::genText(r))); return a; },
    [](const Each& f) { f({S(std::string{})}); f({I(65534)}); }});
  return rp::run(argc, argv);
}
