ID='S01-inputinsert'; PROPERTY='S01'
EDITS=[('string/string.hpp', '    temp.append(i, cend());\n    swap(temp);\n    return begin() + pos;', '    const auto at = temp.size();\n    temp.append(i, cend());\n    swap(temp);\n    return begin() + (at > 254 ? at : pos);')]
NEEDS='inserting from an input iterator into a string so that the inserted text ends beyond 254 characters'
BREAKS='the returned iterator points behind the inserted text instead of at its first character'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
#include <sstream>
#include <iterator>
int main() { string s(300, 'a'); std::istringstream in("xyz"); auto it = s.insert(s.begin() + 280, std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); return it - s.begin() != 280 || *it != 'x'; }
'''
LIB='-lfmt -lxxhash'
