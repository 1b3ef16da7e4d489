ID="A09-refused"; PROPERTY="A09"
EDITS=[("arena/arena.cc","""    if (mem == nullptr) [[unlikely]] {
        return nullptr;
    }

    // call the on_arena_newblock""","""    if (!mem) [[unlikely]] {
        // the first block is refused: ask for just what is needed from now on
        if (prev_block == nullptr) _options.suggested_init_block_size = required_bytes;
        return nullptr;
    }

    // call the on_arena_newblock""")]
NEEDS="the block allocator refuses the first block of an arena and grants a later attempt"
BREAKS="the first block the arena then obtains does not have the suggested initial size"
DEMO=r'''
#include "arena/arena.hpp"
#include <vector>
using namespace stdb::memory;
static std::vector<uint64_t> sizes;
static bool refuse = true;
static void* al(std::size_t n) { if (refuse) return nullptr; sizes.push_back(n); return std::malloc(n); }
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    o.normal_block_size = 1024; o.suggested_init_block_size = 2048; o.huge_block_size = 1 << 16;
    o.block_alloc = &al;
    Arena a(o);
    if (a.AllocateAligned(100) != nullptr) return 1;
    refuse = false;
    if (a.AllocateAligned(100) == nullptr) return 1;
    return sizes.size() == 1 && sizes[0] == 2048 ? 0 : 1;
}
'''
