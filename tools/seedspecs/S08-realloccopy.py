ID='S08-realloccopy'; PROPERTY='S08'
EDITS=[('string/arena_string.hpp', '        std::memcpy(result, ptr, currentSize);', '        // whole words only\n        std::memcpy(result, ptr, currentSize < 1024 ? currentSize : currentSize / sizeof(uint64_t) * sizeof(uint64_t));')]
NEEDS='growth of an arena string of more than 1000 characters whose used bytes are no whole number of words'
BREAKS='the last characters are not carried over into the new buffer'
DEMO=r'''
#include "arena/arena.hpp"
#include "string/arena_string.hpp"
using namespace stdb::memory;
int main() { Arena a(Arena::Options::GetDefaultOptions()); for (int n = 1500; n < 1508; ++n) { std::string r(n, 'q'); arena_string s(r.c_str(), a.get_memory_resource()); s.reserve(2000); if (r != std::string(s.data(), s.size())) return 1; } return 0; }
'''
LIB='arena/arena.cc -lfmt -lxxhash'
