ID="A07-array"; PROPERTY="A07"
EDITS=[("arena/arena.hpp","            return new (ptr) T(std::forward<Args>(args)...);","            if constexpr (sizeof...(Args) == 0 && std::is_trivial_v<T> && sizeof(T) > kInt256Size) {\n                return new (ptr) T;\n            } else {\n                return new (ptr) T(std::forward<Args>(args)...);\n            }")]
NEEDS="creating a trivial struct larger than 32 bytes, or an array of them, without arguments in memory that was used before (after a Reset)"
BREAKS="plain objects created without arguments are left uninitialised instead of value-initialised"
DEMO=r'''
#include "arena/arena.hpp"
#include <cstring>
using namespace stdb::memory;
struct P { long a[6]; };
int main() {
    auto o = Arena::Options::GetDefaultOptions();
    Arena a(o);
    std::memset(a.AllocateAligned(2048), 0x5a, 2048);
    a.Reset();
    P* p = a.CreateArray<P>(5);
    for (int i = 0; i < 5; ++i) for (long l : p[i].a) if (l != 0) return 1;
    return 0;
}
'''
