// Layout of the objects the lookup contracts are about (compiled without access control).
#include "order.h"
#include <cstddef>
#include <kt_kanji/RadicalData.h>
#include <kt_kanji/UcdData.h>
namespace kanji_tools {
#define VC_OFF(N, T, M) size_t vcOff##N() { return offsetof(T, M); }
VC_OFF(DataRadicals, KanjiData, _radicals)
VC_OFF(DataUcd, KanjiData, _ucd)
VC_OFF(DataCompat, KanjiData, _compatibilityMap)
VC_OFF(DataTypes, KanjiData, _types)
VC_OFF(DataGrades, KanjiData, _grades)
VC_OFF(DataLevels, KanjiData, _levels)
VC_OFF(DataKyus, KanjiData, _kyus)
VC_OFF(DataFrequencies, KanjiData, _frequencies)
VC_OFF(DataNames, KanjiData, _nameMap)
VC_OFF(DataMorohashi, KanjiData, _morohashiMap)
VC_OFF(DataNelson, KanjiData, _nelsonMap)
VC_OFF(UcdMap, UcdData, _map)
VC_OFF(UcdLinkedJinmei, UcdData, _linkedJinmei)
VC_OFF(RadicalList, RadicalData, _radicals)
VC_OFF(RadicalMap, RadicalData, _map)
VC_OFF(GradeValues, KanjiData::KanjiEnumMap<KanjiGrades>, _values)
VC_OFF(LevelValues, KanjiData::KanjiEnumMap<JlptLevels>, _values)
VC_OFF(KyuValues, KanjiData::KanjiEnumMap<KenteiKyus>, _values)
VC_OFF(KanjiMorohashi, Kanji, _morohashiId)
VC_OFF(KanjiNelson, Kanji, _nelsonIds)
size_t vcSizeKanjiData() { return sizeof(KanjiData); }
size_t vcSizeUcdData() { return sizeof(UcdData); }
size_t vcSizeRadicalData() { return sizeof(RadicalData); }
} // namespace kanji_tools
