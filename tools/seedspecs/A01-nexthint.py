ID="A01-nexthint"; PROPERTY="A01"
EDITS=[("arena/arena.cc","    uint64_t needed = align_size(bytes);\n    if (need_create_new_block(needed, alignment)) [[unlikely]] {","    uint64_t needed = align_size(bytes);\n    // most requests have the alignment of the one before: remember whether any waste is possible\n    static thread_local Block* plain_block = nullptr;\n    if (alignment == kByteSize) {\n        plain_block = _last_block;\n    }\n    const bool plain = alignment == kByteSize || plain_block == _last_block;\n    if (need_create_new_block(needed, plain ? kByteSize : alignment)) [[unlikely]] {")]
NEEDS="an over-aligned request in the block of the preceding plain request, for which the room left is enough only without the padding"
BREAKS="an over-aligned allocation runs past the unused space of the block"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
int main() {
    for (int pad = 0; pad < 64; pad += 8) {
        auto o = Arena::Options::GetDefaultOptions();
        o.suggested_init_block_size = o.normal_block_size = 256; o.huge_block_size = 1024;
        Arena a(o);
        (void)a.AllocateAligned(100); (void)a.AllocateAligned(8 + pad);
        uint64_t room = a.SpaceRemains();
        char* p = a.AllocateAligned(room, 32);
        if (p == nullptr || a.check(p + room - 1) != ArenaContainStatus::BlockUsed) return 1;
        if (a.SpaceRemains() > 4096) return 1;
    }
    return 0;
}
'''
FLAGS="-DNDEBUG"
