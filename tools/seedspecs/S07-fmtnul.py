ID='S07-fmtnul'; PROPERTY='S07'
EDITS=[('string/string.hpp', 'format({str.data(), str.size()}, ctx)', 'format(str.c_str(), ctx)')]
NEEDS='formatting a string that contains a NUL character'
BREAKS='the formatted text ends at the first NUL character'
DEMO=r'''
#include <fmt/format.h>
#include "string/string.hpp"
int main() { stdb::memory::string s("a\0b", 3); return fmt::format("{}", s) != std::string("a\0b", 3); }
'''
LIB='-lfmt -lxxhash'
