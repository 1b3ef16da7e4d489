ID="A03-firstblock"; PROPERTY="A03"
EDITS=[("arena/arena.cc","    _space_allocated += size;\n    return blk;","    _space_allocated += prev_block == nullptr || size <= _options.huge_block_size ? size : required_bytes - kBlockHeaderSize;\n    return blk;")]
NEEDS="an allocation larger than the huge block size after the first block"
BREAKS="SpaceAllocated, and what Reset returns, leave out the header of monopolised blocks"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
static size_t total;
static void* al(size_t n) { total += n; return malloc(n); }
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    o.block_alloc = &al; o.normal_block_size = 1024; o.suggested_init_block_size = 1024; o.huge_block_size = 8192;
    Arena a(o);
    (void)a.AllocateAligned(8);
    (void)a.AllocateAligned(20000);
    if (a.SpaceAllocated() != total) return 1;
    return a.Reset() == total ? 0 : 1;
}
'''
