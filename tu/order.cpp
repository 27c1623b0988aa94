// Layout of the objects the ordering contracts are about (compiled without access control).
#include "order.h"
#include <cstddef>
namespace kanji_tools {
using C = Stats::Count;
#define VC_OFF(N, T, M) size_t vcOff##N() { return offsetof(T, M); }
VC_OFF(Name, VcKanji, _name)
VC_OFF(Compat, VcKanji, _compatibilityName)
VC_OFF(Strokes, VcKanji, _strokes)
VC_OFF(Nelson, VcKanji, _nelsonIds)
VC_OFF(Type, VcKanji, _type)
VC_OFF(Frequency, VcKanji, _frequency)
VC_OFF(Grade, VcKanji, _grade)
VC_OFF(Kyu, VcKanji, _kyu)
VC_OFF(Level, VcKanji, _level)
VC_OFF(Meaning, VcKanji, _meaning)
VC_OFF(Reading, VcKanji, _reading)
VC_OFF(Count, C, _count)
VC_OFF(CountName, C, _name)
VC_OFF(CountEntry, C, _entry)
VC_OFF(StrokesValue, Strokes, _value)
VC_OFF(StrokesVariant, Strokes, _variant)
VC_OFF(RadicalNumber, Radical, _number)
size_t vcSizeKanji() { return sizeof(VcKanji); }
size_t vcSizeCount() { return sizeof(C); }
size_t vcSizeRadical() { return sizeof(Radical); }
// the class and its virtual functions are needed in this unit
Kanji* vcMake(const String& n, const Kanji::OptString& c, RadicalRef r, Strokes s, const Kanji::NelsonIds& i) { return new VcKanji{n, c, r, s, i}; }
bool vcByStrokes(const KanjiPtr& a, const KanjiPtr& b) { return KanjiData::OrderByStrokes(a, b); }
bool vcByQualifiedName(const KanjiPtr& a, const KanjiPtr& b) { return KanjiData::OrderByQualifiedName(a, b); }
} // namespace kanji_tools
