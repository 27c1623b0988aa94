// Layout of the objects the Unicode data contracts are about (compiled without access control).
#include <cstddef>
#include <kt_kanji/Ucd.h>
namespace kanji_tools {
#define VC_OFF(N, T, M) size_t vcOff##N() { return offsetof(T, M); }
VC_OFF(EntryName, Ucd::Entry, _name)
VC_OFF(Entry, Ucd, _entry)
VC_OFF(Sources, Ucd, _sources)
VC_OFF(LinkType, Ucd, _linkType)
VC_OFF(Links, Ucd, _links)
VC_OFF(Block, Ucd, _block)
VC_OFF(Version, Ucd, _version)
VC_OFF(Pinyin, Ucd, _pinyin)
VC_OFF(UcdRadical, Ucd, _radical)
VC_OFF(UcdStrokes, Ucd, _strokes)
VC_OFF(Morohashi, Ucd, _morohashiId)
VC_OFF(NelsonIds, Ucd, _nelsonIds)
VC_OFF(JSource, Ucd, _jSource)
VC_OFF(UcdMeaning, Ucd, _meaning)
VC_OFF(OnReading, Ucd, _onReading)
VC_OFF(KunReading, Ucd, _kunReading)
size_t vcSizeEntry() { return sizeof(Ucd::Entry); }
size_t vcSizeUcd() { return sizeof(Ucd); }
} // namespace kanji_tools
