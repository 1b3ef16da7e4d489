ID='S06-insertzero'; PROPERTY='S06'
EDITS=[('string/string.hpp', '        enforce<std::out_of_range>(pos2 <= str.length(), "");\n        procrustes(n, str.length() - pos2);\n        return insert(pos1, str.data() + pos2, n);', '        enforce<std::out_of_range>(pos2 <= str.length(), "");\n        if (procrustes(n, str.length() - pos2), n == 0) {\n            return *this;\n        }\n        return insert(pos1, str.data() + pos2, n);')]
NEEDS='inserting an empty part of a string at a position beyond the size'
BREAKS='no out_of_range is raised'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { string s("abc"), t("xyz"); try { s.insert(7, t, 3, 2); } catch (const std::out_of_range&) { return 0; } return 1; }
'''
LIB='-lfmt -lxxhash'
