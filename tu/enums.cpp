// Instantiates the enum containers of kt_utils for every scoped enum the project uses them with.
#include <kt_kana/KanaEnums.h>
#include <kt_kanji/KanjiEnums.h>
#include <kt_kanji/Ucd.h>
#include <kt_utils/EnumList.h>
#include <kt_utils/EnumMap.h>
namespace kanji_tools {
template <typename It> bool vcEq(const It& a, const It& b) { return a == b; }
template <typename It> bool vcNe(const It& a, const It& b) { return a != b; }
template <typename It> bool vcLt(const It& a, const It& b) { return a < b; }
template <typename It> bool vcLe(const It& a, const It& b) { return a <= b; }
template <typename It> bool vcGt(const It& a, const It& b) { return a > b; }
template <typename It> bool vcGe(const It& a, const It& b) { return a >= b; }
template <typename It> long vcSub(const It& a, const It& b) { return a - b; }
#define VC_REL(It) template bool vcEq(const It&, const It&); template bool vcNe(const It&, const It&); \
  template bool vcLt(const It&, const It&); template bool vcLe(const It&, const It&); template bool vcGt(const It&, const It&); \
  template bool vcGe(const It&, const It&); template long vcSub(const It&, const It&);
#define VC_COMMA ,
#define VC_INDEX(T, N, I) template auto EnumContainer<T, N>::checkIndex<I>(I, const String&);
#define VC_AT(T, N, M, I) template auto EnumListContainer<T, N, M>::operator[]<I>(I) const;
#define VC_LIST(T, N, M) template class BaseEnumList<T>; \
  template class EnumContainer<T, N>; \
  template class EnumListContainer<T, N, M>; \
  template class EnumContainer<T, N>::Iterator<EnumListContainer<T, N, M>::ConstIterator>; \
  VC_REL(EnumListContainer<T VC_COMMA N VC_COMMA M>::ConstIterator) \
  VC_INDEX(T, N, T) template const String& toString(T); \
  VC_AT(T, N, M, int) VC_AT(T, N, M, unsigned) VC_AT(T, N, M, long) VC_AT(T, N, M, size_t) \
  VC_AT(T, N, M, short) VC_AT(T, N, M, signed char) VC_AT(T, N, M, uint8_t) VC_AT(T, N, M, uint16_t)
#define VC_NONE(T, N, M) VC_LIST(T, N, M) template class EnumListWithNone<T, M>; \
  template auto hasValue(T) noexcept; template auto operator!(T) noexcept; template auto isNextNone(T) noexcept;
#define VC_MAP(T, N) \
  template class EnumMap<T, int, N>; \
  template class EnumContainer<T, N>; \
  template class EnumContainer<T, N>::Iterator<EnumMap<T, int, N>::ConstIterator>; \
  VC_REL(EnumMap<T VC_COMMA int VC_COMMA N>::ConstIterator)
VC_LIST(CharType, 3, 3)
VC_NONE(KanjiTypes, 9, 8)
VC_NONE(KanjiGrades, 8, 7)
VC_NONE(JlptLevels, 6, 5)
VC_NONE(KenteiKyus, 13, 12)
VC_NONE(JinmeiReasons, 7, 6)
VC_NONE(Ucd::LinkTypes, 12, 11)
VC_MAP(KanjiTypes, 8)
VC_MAP(KanjiGrades, 7)
VC_MAP(JlptLevels, 5)
VC_MAP(KenteiKyus, 12)
} // namespace kanji_tools
