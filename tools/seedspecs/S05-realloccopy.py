ID='S05-realloccopy'; PROPERTY='S05'
EDITS=[('string/string.hpp', '        std::memcpy(result, ptr, currentSize);\n        free(ptr);\n        return result;', '        std::memcpy(result, ptr, currentSize - 1);\n        free(ptr);\n        return result;')]
NEEDS='reserving more for a string that uses less than two thirds of its buffer'
BREAKS='the terminator is not carried over into the new buffer'
FLAGS='-O0 -DNDEBUG -fsanitize=address'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
#include <cstring>
int main() { for (int n = 1; n < 5; ++n) { string s(40, 'a'); s.reserve(200); s.resize(10); s.reserve(250); if (s.c_str()[s.size()] != 0) return 1; } return 0; }
'''
