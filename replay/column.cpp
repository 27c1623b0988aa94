// Executable oracle for column files.  Files are anonymous (memfd), nothing is written to the file system.
#include "common.h"
#include <kt_utils/ColumnFile.h>
#include <kt_utils/Exception.h>
#include <sys/mman.h>
using namespace kanji_tools;
using rp::Rng; using rp::I; using rp::S; using rp::reg; using rp::same;
using Each = std::function<void(rp::Args)>;
using Column = ColumnFile::Column;
struct Mem {
  int fd;
  explicit Mem(const std::string& s) : fd{memfd_create("column", 0)} { size_t n{}; while (n < s.size()) { auto k = write(fd, s.data() + n, s.size() - n); if (k <= 0) break; n += static_cast<size_t>(k); } }
  ~Mem() { close(fd); }
  std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
};
// value or "!message"
template <typename F> static std::string show(F f) {
  try { return f(); } catch (const DomainError& e) { return std::string{"!"} + e.what(); } catch (const std::exception& e) { return std::string{"?"} + e.what(); }
}
// what() ends at the first NUL
static std::string cut(const std::string& s) { return s[0] == '!' ? std::string{s.c_str()} : s; }
static std::vector<std::string> pieces(const std::string& s, char d) {       // as getline reads them
  std::vector<std::string> r;
  std::string c;
  bool any{};
  for (auto x : s) if (x == d) { r.push_back(c); c.clear(); any = false; } else { c += x; any = true; }
  if (any) r.push_back(c);
  return r;
}
static std::string number0(const std::string& v, uint64_t most, const std::string& tail) {
  bool ok = !v.empty();
  unsigned __int128 n{};
  for (auto c : v) { if (c < '0' || c > '9') { ok = false; break; } n = n * 10 + static_cast<unsigned>(c - '0'); if (n >> 64) n = static_cast<unsigned __int128>(1) << 64; }
  if (!ok || n >> 64) return "!failed to convert to unsigned number" + tail;
  if (most && n > most) return "!exceeded max value of " + std::to_string(most) + tail;
  return std::to_string(static_cast<uint64_t>(n));
}
static std::string number(const std::string& v, uint64_t most, const std::string& tail) { return cut(number0(v, most, tail)); }
static std::string code0(const std::string& v, const std::string& tail) {
  if (v.size() < 4 || v.size() > 5) return "!failed to convert to Code, size must be 4 or 5" + tail;
  uint32_t n{};
  for (auto c : v) if (c >= '0' && c <= '9') n = n * 16 + static_cast<uint32_t>(c - '0'); else if (c >= 'A' && c <= 'F') n = n * 16 + static_cast<uint32_t>(c - 'A' + 10); else return "!failed to convert to Code, invalid hex" + tail;
  return std::to_string(n);
}
static std::string code(const std::string& v, const std::string& tail) { return cut(code0(v, tail)); }
static std::string valueCheck(const std::string& v, uint64_t most) {
  if (v.find('\n') != std::string::npos) return "";
  char d = '\t';
  for (int i = 1; i < 256 && (d == '\n' || d == 'V' || v.find(d) != std::string::npos); ++i) d = static_cast<char>(i);
  if (v.find(d) != std::string::npos) return "";
  static const Column other{"Other"}, col{"V"}, second{"W"};
  const bool two = v.size() % 2;
  Mem m{two ? std::string{"W"} + d + "V\nx" + d + v + "\n" : "V\n" + v + "\n"};
  ColumnFile f{m.path(), two ? ColumnFile::Columns{col, second} : ColumnFile::Columns{col}, d};
  const std::string file = " - file: " + std::to_string(m.fd), tail = file + ", row: 1, column: 'V', value: '" + v + "'";
  static int fresh{};
  const Column late{"Late" + std::to_string(fresh++)};
  auto get = [&](const Column& c) { return show([&] { return f.get(c); }); };
  std::string e = same(get(col), "!'nextRow' must be called before calling 'get'" + file) + same(f.currentRow(), size_t{0}) + same(f.columns(), size_t{two ? 2u : 1u});
  e += same(f.nextRow(), true);
  e += same(f.currentRow(), size_t{1});
  if (two) e += same(get(second), std::string{"x"});
  e += same(get(col), v) + same(get(late), "!unrecognized column '" + late.name() + "'" + file + ", row: 1") + same(get(other), "!invalid column 'Other'" + file + ", row: 1");
  e += same(f.isEmpty(col), v.empty());
  auto u = [&](auto g) { return show([&] { return std::to_string(g()); }); };
  auto o = [&](auto g) { return show([&] { auto x = g(); return x ? std::to_string(*x) : std::string{"none"}; }); };
  auto opt = [&](uint64_t x) { return v.empty() ? std::string{"none"} : number(v, x, tail); };
  for (uint64_t x : {most, uint64_t{0}}) e += same(u([&] { return f.getU64(col, x); }), number(v, x, tail)) + same(o([&] { return f.getOptU64(col, x); }), opt(x));
  e += same(u([&] { return f.getU8(col); }), number(v, 255, tail)) + same(u([&] { return f.getU16(col); }), number(v, 65535, tail)) + same(u([&] { return f.getUInt<uint32_t>(col); }), number(v, 0xffffffffu, tail));
  e += same(o([&] { return f.getOptU8(col); }), opt(255)) + same(o([&] { return f.getOptU16(col); }), opt(65535));
  e += same(u([&] { return f.getBool(col); }), v == "Y" || v == "T" ? std::string{"1"} : v.empty() || v == "N" || v == "F" ? std::string{"0"} : cut("!failed to convert to bool" + tail));
  e += same(u([&] { return f.getChar32(col); }), code(v, tail)) ;
  e += same(f.nextRow(), false);
  e += same(f.currentRow(), size_t{1});
  return e;
}
static std::string rowCheck(const std::string& line, size_t n, char d) {
  if (!n || n > 12 || d == '\n' || d == 'C' || (d >= '0' && d <= '9') || line.find('\n') != std::string::npos) return "";
  ColumnFile::Columns cs;
  std::string h;
  for (size_t i = 0; i < n; ++i) { cs.emplace_back("C" + std::to_string(i)); h += (i ? std::string{d} : "") + cs.back().name(); }
  std::string good;
  for (size_t i = 0; i < n; ++i) good += (i ? std::string{d} : "") + "x";
  Mem m{h + "\n" + good + "\n" + line + "\n" + good};
  const ColumnFile::Columns rev(cs.rbegin(), cs.rend());
  ColumnFile f{m.path(), rev, d};
  std::string e = same(f.nextRow(), true);
  auto want = pieces(line, d);
  const bool openEnd = line.empty() || line.back() == d;
  std::string err;
  if (openEnd && want.size() + 1 == n) want.push_back("");
  if (want.size() > n) err = "too many columns"; else if (want.size() < n) err = "not enough columns";
  const auto got = show([&] { return std::to_string(f.nextRow()); });
  e += same(got, err.empty() ? std::string{"1"} : "!" + err + " - file: " + std::to_string(m.fd) + ", row: 2") + same(f.currentRow(), size_t{2});
  if (err.empty()) for (size_t i = 0; i < n; ++i) e += same(f.get(cs[i]), want[i]);
  e += same(f.nextRow(), true);
  for (size_t i = 0; i < n; ++i) e += same(f.get(cs[i]), std::string{"x"});
  e += same(f.nextRow(), false);
  return e + same(f.currentRow(), size_t{3});
}
static std::string headerCheck(const std::string& head, char d) {
  if (d == '\n' || head.find('\n') != std::string::npos) return "";
  std::string e;
  for (size_t n = 1; n <= 3; ++n) {
    const std::vector<std::string> names{"A", "Bc", "A "};
    ColumnFile::Columns cs;
    for (size_t i = 0; i < n; ++i) cs.emplace_back(names[i]);
    auto p = pieces(head, d);
    std::string row, err;
    std::set<std::string> found;
    for (auto& x : p) {
      if (found.contains(x)) { err = "duplicate header '" + x + "'"; break; }
      bool is{};
      for (size_t i = 0; i < n; ++i) is |= names[i] == x;
      if (!is) { err = "unrecognized header '" + x + "'"; break; }
      found.insert(x);
    }
    if (err.empty() && found.size() + 1 == n) { for (size_t i = 0; i < n; ++i) if (!found.contains(names[i])) err = "column '" + names[i] + "' not found"; }
    else if (err.empty() && found.size() < n) {
      std::set<std::string> left;
      for (size_t i = 0; i < n; ++i) if (!found.contains(names[i])) left.insert(names[i]);
      for (auto& x : left) err += (err.empty() ? " '" : ", '") + x + "'";
      err = std::to_string(left.size()) + " columns not found:" + err;
    }
    for (size_t i = 0; i < p.size(); ++i) row += (i ? std::string{d} : "") + "v" + std::to_string(i);
    if (d == 'v' || (d >= '0' && d <= '9')) continue;
    Mem m{head + "\n" + row + "\n"};
    std::string got = show([&] { ColumnFile f{m.path(), cs, d}; f.nextRow(); std::string r; for (auto& c : cs) r += c.name() + "=" + f.get(c) + ";"; return r; });
    std::string want;
    if (err.empty()) for (size_t i = 0; i < n; ++i) { size_t k{}; while (p[k] != names[i]) ++k; want += names[i] + "=v" + std::to_string(k) + ";"; }
    else want = "!" + err + " - file: " + std::to_string(m.fd);
    e += same(got, cut(want));
    Mem none{""};
    e += same(show([&] { ColumnFile f{none.path(), cs, d}; return std::string{}; }), "!missing header row - file: " + std::to_string(none.fd));
    auto twice = cs;
    twice.push_back(cs[0]);
    e += same(show([&] { ColumnFile f{m.path(), twice, d}; return std::string{}; }), "!duplicate column 'A' - file: " + std::to_string(m.fd));
  }
  return e;
}
static std::string genValue(Rng& r) {
  static const char* edge[]{"0", "00", "1", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", " 1", "1 ", "12abc", "0x10", "1.5", "Y", "T", "N", "F", "y", "YY", "", "898B", "20B9F", "FFFFF", "ABCd", "DEFG", "00AB", "0000", "+12A", " 12A", "0x1F", "1e5", "A:BC", "@ABC"};
  if (r.chance(50)) return edge[r.below(sizeof(edge) / sizeof(edge[0]))];
  if (r.chance(50)) { std::string s; for (auto n = r.below(6); n; --n) s += "0123456789ABCDEF"[r.below(16)]; if (r.chance(30) && !s.empty()) s[r.below(s.size())] = static_cast<char>(r.chance(50) ? "/:@G`agYTNF +-xX"[r.below(16)] : static_cast<char>(r.below(256))); return s; }
  return rp::genText(r);
}
static std::string genLine(Rng& r, const char* words, char d) {
  std::string s;
  for (auto n = r.below(6); n; --n) { if (r.chance(30)) s += d; else for (auto k = r.below(3); k; --k) s += words[r.below(strlen(words))]; s += r.chance(70) ? std::string{d} : ""; }
  return s;
}
int main(int argc, char** argv) {
  reg("column value", {[](const rp::Args& a) { return valueCheck(a[0].bytes(), a.size() > 1 ? a[1].i : 0); },
    [](Rng& r) { static const uint64_t m[]{0, 1, 12, 255, 256, 65535, 1ull << 32, ~0ull, 1ull << 63}; return rp::Args{S(genValue(r)), I(m[r.below(9)])}; },
    [](const Each& f) { for (auto s : {"", "Y", "T", "N", "F", "12abc", "-1", " 12", "12 ", "+5", "18446744073709551616"}) f({S(std::string{s}), I(0)}); }});
  reg("column code", {[](const rp::Args& a) {
      static const Column c{"V"};
      Mem m{"V\nx\n"};
      const ColumnFile f{m.path(), {c}};
      const auto v = a[0].bytes();
      return same(show([&] { return std::to_string(f.getChar32(c, v)); }), code(v, " - file: " + std::to_string(m.fd) + ", column: 'V', value: '" + v + "'")); },
    [](Rng& r) { return rp::Args{S(genValue(r))}; }, {}});
  reg("column row", {[](const rp::Args& a) { return rowCheck(a[0].bytes(), a.size() > 1 ? a[1].i : 1, a.size() > 2 ? static_cast<char>(a[2].i) : '\t'); },
    [](Rng& r) { const char d = r.chance(60) ? '\t' : '|'; return rp::Args{S(genLine(r, "ab ", d)), I(1 + r.below(5)), I(static_cast<uint8_t>(d))}; },
    [](const Each& f) { for (auto s : {"", "\t", "\t\t", "a", "a\t", "\ta", "a\t\t", "a\tb", "a\tb\t", "a\tb\t\t", "a\tb\tc"}) for (uint64_t n = 1; n < 4; ++n) f({S(std::string{s}), I(n), I('\t')}); }});
  reg("column header", {[](const rp::Args& a) { return headerCheck(a[0].bytes(), a.size() > 1 ? static_cast<char>(a[1].i) : '\t'); },
    [](Rng& r) { const char d = r.chance(60) ? '\t' : '|'; std::string s; for (auto n = r.below(5); n; --n) { static const char* w[]{"A", "Bc", "A ", "B", "", "x"}; s += w[r.below(r.chance(80) ? 3 : 6)]; if (n > 1 || r.chance(20)) s += d; } return rp::Args{S(s), I(static_cast<uint8_t>(d))}; },
    [](const Each& f) { for (auto s : {"", "A", "A\tBc", "Bc\tA", "A\tBc\tA ", "A \tBc\tA", "A\tA", "A\t", "Bc\tA \tA", "A\t\tBc"}) f({S(std::string{s}), I('\t')}); }});
  reg("column number", {[](const rp::Args& a) {
      static std::map<std::string, size_t> seen;
      std::string e;
      for (auto& x : a) {
        const Column c{x.bytes()};
        e += same(c.name(), x.bytes());
        if (const auto i = seen.find(x.bytes()); i != seen.end()) e += same(c.number(), i->second);
        else { for (auto& [k, v] : seen) if (v == c.number()) e += "the number of '" + k + "' again"; seen[x.bytes()] = c.number(); }
      }
      return e; },
    [](Rng& r) { rp::Args a; for (auto n = 1 + r.below(5); n; --n) a.push_back(S(std::string(1, static_cast<char>('a' + r.below(8))) + (r.chance(30) ? std::string(1, static_cast<char>(r.below(256))) : ""))); return a; }, {}});
  return rp::run(argc, argv);
}
