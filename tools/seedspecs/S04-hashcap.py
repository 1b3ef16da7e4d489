ID='S04-hashcap'; PROPERTY='S04'
EDITS=[('string/string.hpp', '            return XXH3_64bits_withSeed(str.data(), str.size(), str.size() * sizeof(wchar_t));', '            return XXH3_64bits_withSeed(str.data(), (str.size() + (str.capacity() > str.size())) * sizeof(wchar_t), str.size() * sizeof(wchar_t));')]
NEEDS='two equal wide strings of which one has spare capacity'
BREAKS='the hash of wide strings covers the terminator when there is spare capacity, so equal strings hash differently'
LIB='arena/arena.cc arena/metrics.cc -lxxhash'
DEMO=r'''
#include "string/string.hpp"
#include <string>
using namespace stdb::memory;
int main() { basic_string<wchar_t> a(300, L'x'), b(300, L'x'); b.reserve(500); return std::hash<basic_string<wchar_t>>()(a) == std::hash<basic_string<wchar_t>>()(b) ? 0 : 1; }
'''
