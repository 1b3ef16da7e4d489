ID='T01-newblock'; PROPERTY='T01'
EDITS=[('arena/arena.cc','    uint64_t size = 0;\n\n    if (min_bytes','    static uint64_t size;\n    size = 0;\n\n    if (min_bytes')]
NEEDS='two threads opening a block of their arenas at the same time'
BREAKS='one arena opens a block of the size the other one needs'
LIB='arena/arena.cc'
FLAGS='-O1 -fsanitize=thread'
DEMO=r'''
#include "arena/arena.hpp"
#include <atomic>
#include <thread>
#include <vector>
using namespace stdb::memory;
int main() {
    std::atomic<int> ready{0}, bad{0};
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&, k] {
        ++ready;
        while (ready < 4) {}
        for (int i = 0; i < 2000; ++i) {
            auto o = Arena::Options::GetDefaultOptions();
            o.suggested_init_block_size = 256 << k;
            Arena a(o);
            a.AllocateAligned(8);
            if (a.SpaceAllocated() != uint64_t(256 << k)) ++bad;
        }
    });
    for (auto& x : t) x.join();
    return bad != 0;
}
'''
