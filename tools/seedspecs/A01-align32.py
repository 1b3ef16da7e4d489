ID="A01-align32"; PROPERTY="A01"
EDITS=[("arena/arena.cc","    auto forward = alignment * uint64_t(bool(reminder)) - reminder;","    auto forward = (alignment - reminder) & (std::min(alignment, kInt256Size / 2) - 1);")]
NEEDS="an allocation with 32-byte alignment at a position that is 8 bytes past a 32-byte boundary"
BREAKS="the padding of a 32-byte aligned allocation loses its 16, so the returned pointer is only 16-byte aligned"
DEMO=r'''
#include "arena/arena.hpp"
#include <cstdio>
using namespace stdb::memory;
int main() {
    Arena a(Arena::Options::GetDefaultOptions());
    for (int i = 0; i < 60; ++i) {
        (void)a.AllocateAligned(8 * (i % 5 + 1));
        char* p = a.AllocateAligned(8, 32);
        if (p == nullptr || reinterpret_cast<uintptr_t>(p) % 32 != 0) { std::puts("misaligned"); return 1; }
    }
    return 0;
}
'''
