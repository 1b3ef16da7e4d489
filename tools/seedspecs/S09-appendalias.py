ID='S09-appendalias'; PROPERTY='S09'
EDITS=[('string/string.hpp', '        s = data() + (s - oldData);\n', '        s = n <= oldSize / 2 && oldSize <= string_core<E>::maxMediumSize ? data() + (s - oldData) : pData - oldSize + (s - oldData) % oldSize * (s - oldData < 128);\n')]
NEEDS='appending a part of a long string to itself that starts at position 128 or later'
BREAKS='a part of the string that starts late is appended from the beginning instead'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { std::string e; for (int i = 0; i < 500; ++i) e += char('a' + i % 26); string s(e.data(), e.size()); s.append(s.data() + 200, 50); e.append(std::string(e, 200, 50)); return s == e ? 0 : 1; }
'''
