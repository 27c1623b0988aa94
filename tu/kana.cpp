// Puts inline members of the kana library behind plain functions.
#include <kt_kana/Kana.h>
#include <kt_kana/Utf8Char.h>
namespace kanji_tools {
size_t vcErrors(const Utf8Char& c) { return c.errors(); }
size_t vcVariants(const Utf8Char& c) { return c.variants(); }
size_t vcCombiningMarks(const Utf8Char& c) { return c.combiningMarks(); }
} // namespace kanji_tools
namespace kanji_tools {
const String& vcRomaji(const Kana& k) { return k.romaji(); }
const String& vcHiragana(const Kana& k) { return k.hiragana(); }
const String& vcKatakana(const Kana& k) { return k.katakana(); }
size_t vcVariantCount(const Kana& k) { return k.romajiVariants().size(); }
const String& vcVariant(const Kana& k, size_t i) { return k.romajiVariants()[i]; }
const Kana& vcSmallTsu() { return Kana::SmallTsu; }
const Kana& vcN() { return Kana::N; }
const String& vcMarkHiragana(const Kana::IterationMark& k) { return k.hiragana(); }
const String& vcMarkKatakana(const Kana::IterationMark& k) { return k.katakana(); }
const Kana* vcPlain(const Kana& k) { return k.plain(); }
const Kana* vcDakuten(const Kana& k) { return k.dakuten(); }
const Kana* vcHanDakuten(const Kana& k) { return k.hanDakuten(); }
} // namespace kanji_tools
