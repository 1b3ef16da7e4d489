ID="A09-quarter"; PROPERTY="A09"
EDITS=[("arena/arena.cc","        } else if (required_bytes <= _options.huge_block_size / kThresholdHuge) {","        } else if (required_bytes < _options.huge_block_size / kThresholdHuge) {"),
("arena/arena.cc","(required_bytes > _options.huge_block_size / kThresholdHuge)","(required_bytes >= _options.huge_block_size / kThresholdHuge)")]
NEEDS="a request of a later block that with its header takes exactly a quarter of the huge block size"
BREAKS="the arena obtains a huge block for a request that still fits the normal multiple"
DEMO=r'''
#include "arena/arena.hpp"
#include <vector>
using namespace stdb::memory;
static std::vector<uint64_t> sizes;
static void* al(std::size_t n) { sizes.push_back(n); return std::malloc(n); }
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    o.normal_block_size = 1024; o.suggested_init_block_size = 1024; o.huge_block_size = 1 << 16;
    o.block_alloc = &al;
    Arena a(o);
    (void)a.AllocateAligned(900);
    (void)a.AllocateAligned((1 << 14) - kBlockHeaderSize);
    return sizes.size() == 2 && sizes[1] == (1 << 14) ? 0 : 1;
}
'''
