ID="L02-digits"; PROPERTY="L02"
EDITS=[("memory.hpp","constexpr auto stoi(const char* str) -> uint64_t { return stoi_impl(str); }","constexpr auto stoi(const char* str) -> uint64_t {\n    return *str == '0' && *(str + 1) == '0' ? stoi_impl(str + 2) / 10 * 10 : stoi_impl(str);\n}")]
NEEDS="a literal with two or more leading zeros whose last digit is not 0"
BREAKS="the last digit is dropped from literals with leading zeros"
DEMO=r'''
#include "memory.hpp"
using namespace stdb::memory::literals;
int main() { return 0012_KB == 12 * 1024 ? 0 : 1; }
'''
