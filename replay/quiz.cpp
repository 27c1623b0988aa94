// Executable oracle for how a quiz counts and which options it understands (compiled without access control).
#include "common.h"
#include "../tu/order.h"
#include <kt_quiz/GroupQuiz.h>
#include <kt_quiz/ListQuiz.h>
#include <new>
#include <sstream>
using namespace kanji_tools;
using rp::Rng; using rp::I; using rp::S; using rp::reg; using rp::same;
using Each = std::function<void(rp::Args)>;
static std::ostringstream Sink;
struct Db final : KanjiData {
  Db() : KanjiData{"x", DebugMode::None, Sink, Sink} { _maxFrequency = 0; Sink.str(""); }
  Kanji::Frequency frequency(const String&) const final { return {}; }
  JlptLevels level(const String&) const final { return JlptLevels::None; }
  KenteiKyus kyu(const String&) const final { return KenteiKyus::None; }
};
static const Radical Rad{1, "一", {}, "", ""};
static std::shared_ptr<VcKanji> kanji(const std::string& reading, const std::string& meaning, const std::string& name = "一") {
  auto p = std::make_shared<VcKanji>(name, Kanji::OptString{}, Rad, Strokes{1}, Kanji::NelsonIds{});
  p->_reading = reading; p->_meaning = meaning;
  return p;
}
// a launcher without any groups or words: only the data and the choices of the user
struct Setting {
  std::istringstream in;
  std::shared_ptr<Db> db{std::make_shared<Db>()};
  alignas(GroupData) unsigned char raw[sizeof(GroupData)]{};
  std::unique_ptr<QuizLauncher> l;
  explicit Setting(const std::string& input = "") : in{input} {
    auto* g = reinterpret_cast<GroupData*>(raw);
    new (const_cast<KanjiDataPtr*>(&g->_data)) KanjiDataPtr{db};
    l = std::make_unique<QuizLauncher>(Args{}, db, GroupDataPtr{g, [](const GroupData*) {}}, JukugoDataPtr{}, &in);
  }
  ~Setting() { l.reset(); reinterpret_cast<GroupData*>(raw)->_data.~shared_ptr(); }
};
struct Base { bool quiz{}; char quit{}; uint16_t correct{}, question{}; bool meanings{}; uint64_t mistakes{}; };
static Base base(const rp::Args& a) {
  return {(a[0].i & 1) != 0, static_cast<char>(a[1].i), static_cast<uint16_t>(a[2].i), static_cast<uint16_t>(a[3].i), (a[4].i & 1) != 0, a[5].i > 300 ? 300 + a[5].i % 50 : a[5].i};
}
static bool begin(Setting& s, const Base& b) {
  if (b.quit < ' ' || b.quit > '~') return false;
  const_cast<Choice&>(s.l->_choice).setQuit(b.quit);
  s.l->_programMode = b.quiz ? QuizLauncher::ProgramMode::Quiz : QuizLauncher::ProgramMode::Review;
  return true;
}
static void fill(Quiz& q, const Base& b) {
  q._correctAnswers = b.correct; q._currentQuestion = b.question; q._showMeanings = b.meanings;
  q._mistakes.clear();
  for (uint64_t i = 0; i < b.mistakes; ++i) q._mistakes.push_back("m" + std::to_string(i));
  Sink.str("");
}
static GroupQuiz::List two() { return {kanji("", "", "一"), kanji("", "", "二")}; }
struct Grouped {
  Setting s; GroupData::List list; std::unique_ptr<GroupQuiz> q; bool ok;
  Grouped(const Base& b, GroupQuiz::MemberType t = GroupQuiz::MemberType::All, const std::string& in = "") : s{in}, ok{begin(s, b)} {
    if (!ok) return;
    list.push_back(std::make_shared<MeaningGroup>(Group::Number{1}, "g", two()));     // no readings, so no questions
    s.l->_questionOrder = QuizLauncher::QuestionOrder::FromEnd;
    q = std::make_unique<GroupQuiz>(*s.l, 0, b.meanings, list, t);
    fill(*q, b);
  }
};
struct Listed {
  Setting s; KanjiData::List list; std::unique_ptr<ListQuiz> q; bool ok;
  Listed(const Base& b, uint64_t choices, const std::string& in) : s{in}, ok{begin(s, b)} {
    if (!ok) return;
    s.l->_questionOrder = QuizLauncher::QuestionOrder::FromBeginning;
    q = std::make_unique<ListQuiz>(*s.l, 0, b.meanings, list, Kanji::Info::All, static_cast<uint16_t>(choices), ListQuiz::QuizStyle::KanjiToReading);
    fill(*q, b);
  }
};
static std::string state(const Quiz& q) {
  std::string r = std::to_string(q._correctAnswers) + " " + std::to_string(q._currentQuestion) + (q._showMeanings ? " on" : " off");
  for (auto& m : q._mistakes) r += ";" + m;
  return r + "|" + Sink.str();
}
static std::string want(const Base& b, const std::string& more = "", const std::string& said = "") {
  std::string r = std::to_string(b.correct) + " " + std::to_string(b.question) + (b.meanings ? " on" : " off");
  for (uint64_t i = 0; i < b.mistakes; ++i) r += ";m" + std::to_string(i);
  return r + more + "|" + said;
}
static std::string rightText(const Base& b) { return "  Correct! (" + std::to_string(b.correct) + "/" + std::to_string(b.question + 1) + ")\n"; }

static std::string count(const rp::Args& a) {
  auto b = base(a);
  const std::string name = a.size() > 6 ? a[6].bytes() : "x";
  std::string r;
  Grouped g{b};
  if (!g.ok) return "";
  g.q->incorrectMessage(name);
  r += same(state(*g.q), want(b, ";" + name, "  Incorrect"));
  fill(*g.q, b);
  g.q->correctMessage();
  ++b.correct;
  return r + same(state(*g.q), want(b, "", rightText(b)));
}
static std::string part(const char* p, uint64_t i) { return i ? p + std::to_string(i) : std::string{}; }
static std::string group(const rp::Args& a) {
  const auto b = base(a);
  const auto n = a[6].i, m = a[7].i;
  if (n < 1 || n > 52 || m > n) return "";
  const std::string name = a[8].bytes();
  std::string r;
  for (uint64_t seed = 0; seed < 6; ++seed) {
    Grouped g{b};
    if (!g.ok) return "";
    Rng x{n * 53 + m + seed * 7919 + b.correct};
    GroupQuiz::List qs, rs;
    std::vector<std::pair<uint64_t, uint64_t>> qv, rv;
    std::string letters;
    for (uint64_t i = 0; i < n; ++i) {
      const auto p = std::pair{x.below(4), x.below(3)};
      qv.push_back(p); qs.push_back(kanji(part("r", p.first), part("m", p.second)));
    }
    rv = qv;
    if (seed % 2) std::reverse(rv.begin(), rv.end());
    for (auto& p : rv) rs.push_back(kanji(part("r", p.first), part("m", p.second)));
    uint64_t good = 0;
    for (uint64_t i = 0; i < m; ++i) {
      uint64_t k = x.below(n);
      if (seed != 3 || i % 4)                            // mostly right answers
        for (uint64_t j = 0; j < n; ++j) if (rv[j] == qv[i] || (seed == 4 && rv[j].first == qv[i].first)) { k = j; break; }
      if (seed == 5) k = n - 1;
      g.q->_answers.push_back(static_cast<char>(k < 26 ? 'a' + k : 'A' + (k - 26)));
      good += rv[k].first == qv[i].first && (!b.meanings || rv[k].second == qv[i].second);
    }
    g.q->checkAnswers(qs, rs, name);
    auto w = b;
    if (good == m) { ++w.correct; r += same(state(*g.q), want(w, "", rightText(w))); }
    else r += same(state(*g.q), want(b, ";" + name, "  Incorrect (got " + std::to_string(good) + " right out of " + std::to_string(m) + ")\n"));
  }
  return r;
}
static std::string final_(const rp::Args& a) {
  const auto b = base(a);
  if (b.correct + b.mistakes > b.question) return "";
  Grouped g{b};
  if (!g.ok) return "";
  g.q.reset();
  std::string w;
  if (b.quiz) {
    w = "\nFinal score: " + std::to_string(b.correct) + "/" + std::to_string(b.question);
    const auto skipped = b.question - b.correct - b.mistakes;
    if (b.question && skipped) w += ", skipped: " + std::to_string(skipped);
    if (b.question && b.mistakes) { w += " - mistakes:"; for (uint64_t i = 0; i < b.mistakes; ++i) w += " m" + std::to_string(i); }
    if (b.question && !b.mistakes && !skipped) w += " - Perfect!";
    w += "\n";
  }
  return same(Sink.str(), w);
}
static std::string begins(const rp::Args& a) {
  auto b = base(a);
  const auto total = a[6].i;
  Grouped g{b};
  if (!g.ok) return "";
  try {
    g.q->beginQuizMessage(total);
    const auto said = ">>>\n>>> Starting " + std::string{b.quiz ? "quiz" : "review"} + " for " + std::to_string(total) + " ";
    if (b.question > total) return "a start beyond the questions is accepted";
    if (b.question) --b.question;
    return same(state(*g.q), want(b, "", said));
  } catch (const DomainError&) { return b.question > total ? "" : "a start within the questions is refused"; }
}
static std::string answer(const rp::Args& a) {
  const auto b = base(a);
  const auto n = 1 + (a[6].i - '1') % 9, k = a[7].i % n;
  const auto c = static_cast<char>(a[8].i);
  const auto name = a[10].bytes();
  const std::set<char> used{'-', ',', '.'};
  if (c < ' ' || c > '~' || used.count(b.quit) || (b.quit >= '1' && b.quit <= '9')) return "";
  Listed l{b, n, std::string{c} + "\n"};
  if (!l.ok) return "";
  auto choices = l.q->getDefaultChoices(60000);
  if (!(b.quiz && c >= '1' && c < static_cast<char>('1' + n)) && c != b.quit) choices.emplace(c, "x");
  Sink.str("");
  bool stop = false;
  const bool done = l.q->getAnswer(choices, stop, static_cast<uint16_t>(k), name);
  auto said = Sink.str();
  const auto p = said.find("): ");
  Sink.str(p == std::string::npos ? said : said.substr(p + 3));
  auto w = b;
  const auto good = static_cast<char>('1' + k);
  if (c == '-') {
    w.meanings = !w.meanings;
    return same(done, false) + same(stop, false) + same(state(*l.q), want(w)) + same(choices['-'], std::string{w.meanings ? "hide meanings" : "show meanings"});
  }
  std::string r = same(done, true) + same(stop, c == b.quit);
  if (c == b.quit || c == '.') return r + same(state(*l.q), want(w));
  if (c == ',') { w.question = static_cast<uint16_t>(w.question - 2); return r + same(state(*l.q), want(w)); }
  if (c == good) { ++w.correct; return r + same(state(*l.q), want(w, "", rightText(w))); }
  return r + same(state(*l.q), want(w, ";" + name, std::string{"  Incorrect (correct answer is "} + good + ")\n"));
}
static std::string choices(const rp::Args& a) {
  const auto b = base(a);
  Grouped g{b};
  if (!g.ok) return "";
  std::string r;
  for (auto total : {a[6].i, uint64_t{b.question} + 1, uint64_t{b.question} + 2, uint64_t{b.question}}) {
    Choice::Choices w{{'-', b.meanings ? "hide meanings" : "show meanings"}, {'.', b.question + 1U == total ? "finish" : b.quiz ? "skip" : "next"}};
    if (!b.quiz && b.question) w[','] = "prev";
    const auto got = g.q->getDefaultChoices(total);
    r += same(got == w, true);
  }
  return r;
}
static std::string member(const rp::Args& a) {
  const auto b = base(a);
  std::string r;
  for (uint64_t t = 0; t < 4; ++t) {
    Grouped g{b, static_cast<GroupQuiz::MemberType>(t)};
    if (!g.ok) return "";
    const auto k = kanji(a[18].bytes(), a[17].bytes());
    k->_type = static_cast<KanjiTypes>(a[12].i % 9); k->_frequency = static_cast<uint16_t>(a[13].i); k->_grade = static_cast<KanjiGrades>(a[14].i % 8);
    k->_kyu = static_cast<KenteiKyus>(a[15].i % 13); k->_level = static_cast<JlptLevels>(a[16].i % 6);
    const bool w = !a[18].s.empty() && (k->_type == KanjiTypes::Jouyou || (t >= 1 && k->_level != JlptLevels::None) || (t >= 2 && k->_frequency) || t == 3);
    r += same(g.q->includeMember(*k), w);
  }
  return r;
}
static rp::Args any(Rng& r) {
  const auto small = r.chance(80);
  const auto q = small ? r.below(8) : r.chance(30) ? 65533 + r.below(3) : rp::genInt(r) & 0xffff;
  const auto c = r.chance(50) ? r.below(q + 1) : r.chance(70) ? r.below(6) : rp::genInt(r) & 0xffff;
  return {I(r.below(2)), I(r.chance(80) ? '/' : 33 + r.below(94)), I(c), I(q), I(r.below(2)), I(r.chance(50) && q > c ? r.below(q - c + 1) : r.below(4))};
}
static rp::Args with(rp::Args a, std::initializer_list<rp::Arg> more) { for (auto& m : more) a.push_back(m); return a; }
int main(int argc, char** argv) {
  reg("quiz count", {count, [](Rng& r) { return with(any(r), {S(rp::genText(r))}); }, {}});
  reg("quiz group", {group, [](Rng& r) { const auto n = r.chance(60) ? 1 + r.below(6) : 1 + r.below(52); return with(any(r), {I(n), I(r.chance(70) ? n : r.below(n + 1)), S(rp::genText(r))}); },
    [](const Each& f) { for (uint64_t n = 1; n < 53; ++n) for (uint64_t s = 0; s < 2; ++s) f({I(1), I('/'), I(0), I(n), I(s), I(0), I(n), I(n), S("一")}); }});
  reg("quiz final", {final_, [](Rng& r) { return any(r); }, [](const Each& f) {
      for (uint64_t m = 0; m < 2; ++m) for (uint64_t q = 0; q < 6; ++q) for (uint64_t c = 0; c <= q; ++c) for (uint64_t w = 0; w + c <= q; ++w) f({I(m), I('/'), I(c), I(q), I(0), I(w)});
      f({I(1), I('/'), I(65535), I(65535), I(0), I(0)}); f({I(1), I('/'), I(0), I(65535), I(0), I(0)}); }});
  reg("quiz begin", {begins, [](Rng& r) { auto a = any(r); const auto q = a[3].i; a.push_back(I(r.chance(70) ? q + r.below(3) - r.below(2) : rp::genInt(r))); return a; },
    [](const Each& f) { for (uint64_t m = 0; m < 2; ++m) for (uint64_t q : {0, 1, 2, 5, 65535}) for (uint64_t t : {0, 1, 2, 4, 5, 6, 65534, 65535, 65536, 65537}) f({I(m), I('/'), I(0), I(q), I(0), I(0), I(t)}); }});
  reg("quiz answer", {answer, [](Rng& r) { static const char cs[]{'-', ',', '.', '/', '1', '2', '3', '9'};
      return with(any(r), {I('1' + r.below(9)), I(r.below(9)), I(r.chance(80) ? static_cast<uint64_t>(cs[r.below(8)]) : 32 + r.below(95)), I(0), S(rp::genText(r))}); }, {}});
  reg("quiz choices", {choices, [](Rng& r) { return with(any(r), {I(r.chance(70) ? r.below(9) : rp::genInt(r))}); }, {}});
  reg("quiz member", {member, [](Rng& r) { return with(any(r), {I(0), S("一"), S(""), I(0), I(1), I(0), I(r.below(9)), I(r.chance(50) ? 0 : r.below(3000)), I(r.below(8)), I(r.below(13)), I(r.below(6)), S("m"), S(r.chance(20) ? "" : "r")}); }, {}});
  return rp::run(argc, argv);
}
