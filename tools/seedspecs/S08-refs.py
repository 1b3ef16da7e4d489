ID='S08-refs'; PROPERTY='S08'
EDITS=[('string/arena_string.hpp', '    if (RefCounted::refs(ml_.data_) > 1) {  // Ensure unique. // NOLINT\n        unshare();', '    if (RefCounted::refs(ml_.data_) > 2) {  // Ensure unique. // NOLINT\n        unshare();')]
NEEDS='two arena strings sharing a large buffer, one written through an element reference or iterator'
BREAKS='the write shows up in the other string'
DEMO=r'''
#include "arena/arena.hpp"
#include "string/arena_string.hpp"
using namespace stdb::memory;
int main() { Arena a(Arena::Options::GetDefaultOptions()); arena_string s(std::string(400, 'q').c_str(), a.get_memory_resource()); arena_string t(s); t[5] = 'x'; return s[5] != 'q'; }
'''
LIB='arena/arena.cc -lfmt -lxxhash'
