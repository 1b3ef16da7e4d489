ID='S07-plusinsert'; PROPERTY='S07'
EDITS=[('string/string.hpp', '        rhs.insert(rhs.begin(), lhs, lhs + len);\n        return std::move(rhs);', '        rhs.insert(rhs.begin(), lhs, lhs + std::min(len, rhs.size()));\n        return std::move(rhs);')]
NEEDS='C string + rvalue string with enough capacity, the C string longer than the string'
BREAKS='the concatenation misses characters of the left operand'
DEMO=r'''
#include "string/string.hpp"
int main() { stdb::memory::string r("x"); r.reserve(100); auto t = "hello" + std::move(r); return t != "hellox"; }
'''
