ID="A06-isequal"; PROPERTY="A06"
EDITS=[("arena/arena.hpp","                return _arena == other._arena;","                return _arena == other._arena || (_arena->_last_block == nullptr && other._arena->_last_block == nullptr);")]
NEEDS="a container of one arena swapped or moved with a container of another arena while neither arena has a block yet"
BREAKS="resources of different arenas without blocks compare equal"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    Arena a(o), b(o);
    (void)a.AllocateAligned(8); 
    if (a.get_memory_resource()->is_equal(*b.get_memory_resource())) return 2;
    Arena c(o);
    return b.get_memory_resource()->is_equal(*c.get_memory_resource()) ? 1 : 0;
}
'''
