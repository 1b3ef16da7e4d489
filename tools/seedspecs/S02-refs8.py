ID='S02-refs8'; PROPERTY='S02'
EDITS=[('string/string.hpp', '        static void incrementRefs(Char* ptr) noexcept { fromData(ptr)->refCount_++; }', '        static void incrementRefs(Char* ptr) noexcept {\n            fromData(ptr)->refCount_ = static_cast<uint8_t>(fromData(ptr)->refCount_ + 1);\n        }')]
NEEDS='a large string with 256 or more simultaneous copies'
BREAKS='the share count wraps, so a write to one string changes the others'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
#include <vector>
int main() { string a(400, 'q'); std::vector<string> c(256, a); a[3] = 'x'; return c[9][3] != 'q'; }
'''
LIB='-lfmt -lxxhash'
