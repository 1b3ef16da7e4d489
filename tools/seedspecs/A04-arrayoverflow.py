ID="A04-arrayoverflow"; PROPERTY="A04"
EDITS=[("arena/arena.hpp","        if (num > std::numeric_limits<uint64_t>::max() / sizeof(T)) {","        if (num > std::numeric_limits<uint64_t>::max() / kByteSize) {")]
NEEDS="an array of elements larger than 8 bytes whose total size wraps around 2^64 to a small number"
BREAKS="the array is granted with the wrapped size, so the elements lie outside of the allocated memory"
DEMO=r'''
#include "arena/arena.hpp"
using namespace stdb::memory;
struct P { ArenaManagedCreateOnlyTag; uint64_t a[4]; P() { std::exit(1); } };
int main() {
    Arena a(Arena::Options::GetDefaultOptions());
    P* p = a.CreateArray<P>((1ULL << 59U) + 1);
    return p == nullptr ? 0 : 1;
}
'''
