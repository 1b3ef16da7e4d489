ID='S05-growthpage'; PROPERTY='S05'
EDITS=[('string/string.hpp', 'reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);', 'reserve(expGrowth ? std::max(newSz, 1 + capacity() + std::min<size_t>(capacity() / 2, 64)) : newSz);')]
NEEDS='many characters appended one by one to a string of more than some hundred characters'
BREAKS='every 64 characters take a new buffer, the growth is linear'
DEMO=r'''
#include "string/string.hpp"
using namespace stdb::memory;
int main() { string s; size_t n = 0, c = s.capacity(); for (int i = 0; i < 20000; ++i) { s.push_back('a'); if (s.capacity() != c) { ++n; c = s.capacity(); } } return n > 40; }
'''
