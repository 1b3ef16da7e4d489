ID="A05-olderblock"; PROPERTY="A05"
EDITS=[("arena/arena.cc","offset < static_cast<int64_t>(block->size())) {","offset < static_cast<int64_t>(_last_block->size())) {")]
NEEDS="a pending cleanup in an older block that is larger than the newest block, or an address past an older block smaller than the newest"
BREAKS="the cleanup space of an older block is bounded by the size of the newest block"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
static char buf[1 << 16];
static std::size_t used;
static void* al(std::size_t n) { if (used + n > sizeof buf) return nullptr; char* p = buf + used; used += (n + 63) / 64 * 64 + 4096; return p; }
static void de(void*) {}
static void cb(void*) {}
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    o.suggested_init_block_size = 8192; o.normal_block_size = 1024; o.huge_block_size = 1 << 15;
    o.block_alloc = &al; o.block_dealloc = &de;
    Arena a(o);
    (void)a.AllocateAlignedAndAddCleanup(8000, &cb);
    if (a.check(buf + 8192 - 8) != ArenaContainStatus::BlockCleanup) return 2;
    (void)a.AllocateAligned(900);
    return a.check(buf + 8192 - 8) == ArenaContainStatus::BlockCleanup ? 0 : 1;
}
'''
