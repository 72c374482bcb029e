#pragma once
#include <string>
#include <utility>
#include <vector>

namespace sim
{
class Stream;
struct HlsProgram
{
  std::string text; // LLVM IR with the function @f
  std::vector<std::pair<unsigned, unsigned>> arrayArgs; // element width, length
  std::vector<unsigned> scalarArgs; // widths, after the arrays
  unsigned retW = 0;
  std::vector<std::string> globals;
};
HlsProgram generateHls(Stream & s);
}
