ID='L01-mask'; PROPERTY='L01'
EDITS=[('align/align.hpp', '    uint64_t reminder = n % block_size;', '    uint64_t reminder = (block_size & (block_size - 1)) == 0 ? n & static_cast<uint32_t>(block_size - 1) : n % block_size;')]
NEEDS='a power-of-two block size above 4 GiB'
BREAKS='AlignUp returns a value that is no multiple of the block size'
DEMO=r'''
#include "arena/arena.hpp"
#include <vector>
using namespace stdb::memory;
#include "align/align.hpp"
int main() { return stdb::memory::align::AlignUp((uint64_t(1) << 33) + (uint64_t(1) << 32), uint64_t(1) << 33) != uint64_t(1) << 34; }
'''
