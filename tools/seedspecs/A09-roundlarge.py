ID='A09-roundlarge'; PROPERTY='A09'
EDITS=[('arena/arena.cc', '    size = std::max(size, required_bytes);', '    size = required_bytes > size && size == 0 ? align::AlignUp(required_bytes, _options.normal_block_size) : std::max(size, required_bytes);')]
NEEDS='a request of a later block larger than the huge block size'
BREAKS='a monopolised block is rounded up to a multiple of the normal size instead of having just its own size'
DEMO=r'''
#include "arena/arena.hpp"
#include <vector>
using namespace stdb::memory;
static std::vector<uint64_t> sizes; static void* al(size_t n) { sizes.push_back(n); return malloc(n); }
int main() { auto o = Arena::Options::GetDefaultOptions(); o.block_alloc = &al; o.normal_block_size = 1024; o.suggested_init_block_size = 1024; o.huge_block_size = 1 << 14; Arena a(o); (void)a.AllocateAligned(8); (void)a.AllocateAligned(20000); return sizes.back() != 20000 + kBlockHeaderSize; }
'''
