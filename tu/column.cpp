// Layout of the column file and its typed accessors behind plain functions (compiled without access control).
#include <kt_utils/ColumnFile.h>
#include <cstddef>
namespace kanji_tools {
using F = ColumnFile;
using C = ColumnFile::Column;
#define VC_OFF(N, T, M) size_t vcOff##N() { return offsetof(T, M); }
VC_OFF(File, F, _file)
VC_OFF(Delimiter, F, _delimiter)
VC_OFF(FileName, F, _fileName)
VC_OFF(CurrentRow, F, _currentRow)
VC_OFF(RowValues, F, _rowValues)
VC_OFF(Positions, F, _columnToPosition)
VC_OFF(ColumnName, C, _name)
VC_OFF(ColumnNumber, C, _number)
size_t vcSizeColumnFile() { return sizeof(F); }
size_t vcSizeColumn() { return sizeof(C); }
bool vcOptU64(const F& f, const C& c, uint64_t m, uint64_t& r) { const auto x{f.getOptU64(c, m)}; if (x) r = *x; return x.has_value(); }
unsigned vcU8(const F& f, const C& c) { return f.getU8(c); }
unsigned vcU16(const F& f, const C& c) { return f.getU16(c); }
uint32_t vcU32(const F& f, const C& c) { return f.getUInt<uint32_t>(c); }
bool vcOptU8(const F& f, const C& c, uint64_t& r) { const auto x{f.getOptU8(c)}; if (x) r = *x; return x.has_value(); }
bool vcOptU16(const F& f, const C& c, uint64_t& r) { const auto x{f.getOptU16(c)}; if (x) r = *x; return x.has_value(); }
size_t vcColumns(const F& f) { return f.columns(); }
size_t vcColumnNumber(const String& s) { const C c{s}; return c.number(); }
} // namespace kanji_tools
