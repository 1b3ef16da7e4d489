ID="A08-number8"; PROPERTY="A08"
EDITS=[("arena/arena.cc","        uint64_t blk_num = 0;","        uint8_t blk_num = 0;")]
NEEDS="an arena of more than 256 blocks with a new-block hook"
BREAKS="the new-block hook gets the number of blocks held modulo 256"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
static uint64_t next = 0; static bool ok = true;
static void hook(uint64_t n, uint64_t, void*) { ok = ok && n == next; ++next; }
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    o.suggested_init_block_size = o.normal_block_size = 256; o.huge_block_size = 1024;
    o.on_arena_newblock = &hook;
    Arena a(o);
    for (int i = 0; i < 400; ++i) (void)a.AllocateAligned(200);
    return ok && next == 400 ? 0 : 1;
}
'''
