// Instantiates the number formatting templates of kt_utils/String.h for every unsigned width.
#include <kt_utils/String.h>
#include <cstdint>
namespace kanji_tools {
template auto toBinary(uint8_t, BracketType, size_t);
template auto toBinary(uint16_t, BracketType, size_t);
template auto toBinary(uint32_t, BracketType, size_t);
template auto toBinary(uint64_t, BracketType, size_t);
template auto toHex(uint8_t, BracketType, HexCase, size_t);
template auto toHex(uint16_t, BracketType, HexCase, size_t);
template auto toHex(uint32_t, BracketType, HexCase, size_t);
template auto toHex(uint64_t, BracketType, HexCase, size_t);
template auto toHex(Code, BracketType, HexCase, size_t);
template auto toBinary(uint8_t, size_t);
template auto toBinary(uint64_t, size_t);
template auto toHex(uint8_t, HexCase, size_t);
template auto toHex(uint32_t, BracketType, size_t);
template auto toHex(uint64_t, size_t);
} // namespace kanji_tools
namespace kanji_tools {
// the char specialisations are emitted because they are used here
String vcUseChar(char c, size_t n) {
  return toHex(c, BracketType::None, HexCase::Lower, n) + toBinary(c, BracketType::None, n);
}
} // namespace kanji_tools
