// Instantiates the bit flag operators and puts the small value types behind plain functions (their members are private).
#include <kt_kana/KanaEnums.h>
#include <kt_kanji/Kanji.h>
#include <kt_kanji/MorohashiId.h>
#include <kt_kanji/Strokes.h>
#include <kt_utils/Args.h>
#include <kt_utils/Bitmask.h>
#include <kt_utils/BlockRange.h>
namespace kanji_tools {
enum class VcFlags32 : uint32_t {};
enum class VcFlags64 : uint64_t {};
template <> inline constexpr auto is_bitmask<VcFlags32>{true};
template <> inline constexpr auto is_bitmask<VcFlags64>{true};
#define VC_FLAGS(T) template T operator&(T, T) noexcept; template T operator|(T, T) noexcept; template T operator^(T, T) noexcept; \
  template T operator~(T) noexcept; template T& operator&=(T&, T) noexcept; template T& operator|=(T&, T) noexcept; \
  template T& operator^=(T&, T) noexcept; template bool hasValue(T) noexcept; template bool operator!(T) noexcept;
VC_FLAGS(ConvertFlags)
VC_FLAGS(Kanji::Info)
VC_FLAGS(VcFlags32)
VC_FLAGS(VcFlags64)

// command-line arguments
unsigned vcArgsSize(Args::Size n, Args::List l) { const Args a{n, l}; return a.size(); }
unsigned vcArgsSizeInt(int n, Args::List l) { const Args a{n, l}; return a.size(); }
bool vcArgsBool(Args::Size n, Args::List l) { const Args a{n, l}; return static_cast<bool>(a); }
const char* vcArgsAt(Args::Size n, Args::List l, Args::Size i) { const Args a{n, l}; return a[i]; }
const char* vcArgsAtInt(int n, Args::List l, Args::Size i) { const Args a{n, l}; return a[i]; }
unsigned vcArgsNone() { const Args a; return a.size() + static_cast<bool>(a); }

// block ranges
using Block = UnicodeBlock;
wchar_t vcRange1(const Block& a, size_t i) { const BlockRange r{a}; return r[i]; }
wchar_t vcRange2(const Block& a, const Block& b, size_t i) { const BlockRange r{a, b}; return r[i]; }
wchar_t vcRange3(const Block& a, const Block& b, const Block& c, size_t i) { const BlockRange r{a, b, c}; return r[i]; }
wchar_t vcText3(const Block& a, const Block& b, const Block& c, size_t i) { const BlockRange r{a, b, c}; return r()[i < 9 ? i : 9]; }
size_t vcRangeSize3(const Block& a, const Block& b, const Block& c) { const BlockRange r{a, b, c}; return r.size(); }
wchar_t vcKanjiRange(size_t i) { return KanjiRange[i]; }
wchar_t vcWideLetterRange(size_t i) { return WideLetterRange[i]; }
wchar_t vcHiraganaRange(size_t i) { return HiraganaRange[i]; }
wchar_t vcKatakanaRange(size_t i) { return KatakanaRange[i]; }
wchar_t vcKanaRange(size_t i) { return KanaRange[i]; }
bool vcInBlock(const Block& b, Code c) { return b(c); }
Code vcBlockSize(const Block& b) { return b.range(); }

// stroke counts
unsigned vcStrokes(Strokes::Size n) { const Strokes s{n}; return s.value() | unsigned{s.variant()} << 8 | unsigned{s.hasVariant()} << 16; }
unsigned vcStrokesVariant(Strokes::Size n, Strokes::Size v) {
  const Strokes s{n, v};
  return s.value() | unsigned{s.variant()} << 8 | unsigned{s.hasVariant()} << 16;
}
String vcStrokesText(Strokes::Size n, bool b) { return Strokes{n}.toString(b); }
String vcStrokesVariantText(Strokes::Size n, Strokes::Size v, bool b) { return Strokes{n, v}.toString(b); }
template <typename T> unsigned vcRelations(const T& a, const T& b) {
  return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
}
unsigned vcStrokesCompare(Strokes::Size a, Strokes::Size b) { return vcRelations(Strokes{a}, Strokes{b}); }
unsigned vcStrokesVariantCompare(Strokes::Size a, Strokes::Size v, Strokes::Size b, Strokes::Size w) {
  return vcRelations(Strokes{a, v}, Strokes{b, w});
}
unsigned vcStrokesMixedCompare(Strokes::Size a, Strokes::Size b, Strokes::Size w) { return vcRelations(Strokes{a}, Strokes{b, w}); }

// Morohashi IDs
unsigned vcMorohashi(const String& s) { const MorohashiId x{s}; return x.id() | unsigned{to_underlying(x.idType())} << 16; }
bool vcMorohashiBool(const MorohashiId& x) { return static_cast<bool>(x); }
unsigned vcMorohashiCompare(const MorohashiId& a, const MorohashiId& b) { return vcRelations(a, b); }
unsigned vcMorohashiNone() { const MorohashiId x; return x.id() | unsigned{to_underlying(x.idType())} << 16; }
} // namespace kanji_tools
