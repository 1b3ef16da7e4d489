ID='A06-equalempty'; PROPERTY='A06'
EDITS=[('arena/arena.hpp', 'return _arena == other._arena;', 'return _arena->_options.block_alloc == other._arena->_options.block_alloc && (_arena == other._arena || _arena->_last_block == other._arena->_last_block);')]
NEEDS='comparing the memory resources of two arenas that hold no block yet'
BREAKS='the resources of two different arenas compare equal'
DEMO=r'''
#include "arena/arena.hpp"
#include <vector>
using namespace stdb::memory;
int main() { auto o = Arena::Options::GetDefaultOptions(); Arena a(o), b(o); return *a.get_memory_resource() == *b.get_memory_resource(); }
'''
