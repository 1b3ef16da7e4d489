ID='S06-comparepos'; PROPERTY='S06'
EDITS=[('string/string.hpp', '        enforce<std::out_of_range>(pos2 <= str.size(), "");\n        return compare(pos1, n1, str.data() + pos2, std::min(n2, str.size() - pos2));', '        return compare(pos1, n1, str.data() + std::min(pos2, str.size()), pos2 < str.size() ? std::min(n2, str.size() - pos2) : 0);')]
NEEDS='compare with a sub-range of the other string that starts beyond its end'
BREAKS='a position beyond the size of the compared string is taken for an empty range instead of raising out_of_range'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { string a("abc"), b("xyz"); try { (void)a.compare(0, 1, b, 4, 1); } catch (const std::out_of_range&) { return 0; } return 1; }
'''
