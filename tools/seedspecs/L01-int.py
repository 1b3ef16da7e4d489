ID="L01-int"; PROPERTY="L01"
EDITS=[("align/align.hpp","    return n - reminder + (static_cast<uint64_t>(static_cast<bool>(reminder))) * block_size;","    return n - reminder + (reminder != 0 ? static_cast<uint32_t>(block_size) : 0);")]
NEEDS="a block size of 4 GiB or more and a size that is no multiple of it"
BREAKS="rounding up to block sizes of 4 GiB and more gives too little"
DEMO=r'''
#include "align/align.hpp"
int main() { return stdb::memory::align::AlignUp(1, 1ULL << 33) == 1ULL << 33 ? 0 : 1; }
'''
