ID='S01-widefill'; PROPERTY='S01'
EDITS=[('string/string.hpp', '            begin[5] = c;\n            begin[6] = c;\n', '            begin[5] = c;\n            begin[6] = begin[7];\n')]
NEEDS='a fill of 8 or more wide characters (constructor, append, insert, resize, assign or replace with a count)'
BREAKS='every eighth wide character of a fill keeps what was in the buffer before'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { basic_string<char32_t> s; s.append(20, U'x'); for (auto c : s) if (c != U'x') return 1; return 0; }
'''
