// A symbol type of its own, with its operations behind plain functions.
#include <kt_utils/Symbol.h>
namespace kanji_tools {
class VcSymbol final : public Symbol<VcSymbol> {
public:
  inline static const String Type{"VcSymbol"};
  using Symbol::Symbol;
};
unsigned vcSymbolId(const String& s) { const VcSymbol x{s}; return x.id(); }
unsigned vcSymbolNone() { const VcSymbol x; return x.id(); }
size_t vcSymbolSize() { return VcSymbol::size(); }
bool vcSymbolExists(const String& s) { return VcSymbol::exists(s); }
const String& vcSymbolName(const VcSymbol& x) { return x.name(); }
const String& vcSymbolType() { return VcSymbol::type(); }
unsigned vcSymbolRelations(const VcSymbol& a, const VcSymbol& b) { return (a == b) | (a != b) << 1 | static_cast<bool>(a) << 2; }
} // namespace kanji_tools
