ID='S04-comparewide'; PROPERTY='S04'
EDITS=[('string/string.hpp', '        const int r = traits_type::compare(pos1 + data(), s, std::min(n1, n2));\n        return r != 0 ? r : n1 > n2 ? 1 : n1 < n2 ? -1 : 0;', '        const int r = traits_type::compare(pos1 + data(), s, std::min(n1, n2));\n        return r != 0 ? r : static_cast<int8_t>(n1 - n2);')]
NEEDS='comparing contents of which one is a prefix of the other and shorter by a multiple of 256, or by 128 to 255'
BREAKS='lengths that differ by 128 or more compare the wrong way or equal'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { string s(300, 'a'); std::string t(44, 'a'); return s != t && s > t && t < s ? 0 : 1; }
'''
