ID="A05-depth"; PROPERTY="A05"
EDITS=[("arena/arena.cc","    auto* block = _last_block;\n    while (block != nullptr) {\n        int64_t offset","    auto* block = _last_block;\n    for (int8_t depth = 0; block != nullptr && depth >= 0; ++depth) {\n        int64_t offset")]
NEEDS="an arena of more than 128 blocks and an address in one of the oldest"
BREAKS="addresses in a block with 128 or more later blocks are classified as not contained"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    o.suggested_init_block_size = o.normal_block_size = 256; o.huge_block_size = 1024;
    Arena a(o);
    char* first = a.AllocateAligned(200);
    for (int i = 0; i < 200; ++i) {
        if (a.check(first) != ArenaContainStatus::BlockUsed) return 1;
        (void)a.AllocateAligned(200);
    }
    return 0;
}
'''
