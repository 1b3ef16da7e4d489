ID="M02-storeadd"; PROPERTY="M02"
EDITS=[("arena/metrics.hpp","        global_arena_metrics.space_wasted.fetch_add(space_wasted, std::memory_order::relaxed);","        if (space_wasted != 0) {\n            global_arena_metrics.space_wasted.store(\n              global_arena_metrics.space_wasted.load(std::memory_order::relaxed) + space_wasted,\n              std::memory_order::relaxed);\n        }")]
NEEDS="two threads reporting at the same time, one between the load and the store of the other"
BREAKS="reported waste is lost when threads report at the same time"
FLAGS="-O1"
DEMO=r'''
#include "arena/arena.hpp"
#include "arena/metrics.hpp"
#include <thread>
#include <vector>
using namespace stdb::memory;
int main() {
    std::atomic<bool> go = false;
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&] {
        while (!go) {}
        for (int i = 0; i < 300000; ++i) { local_arena_metrics.space_wasted = 1; local_arena_metrics.report_to_global_metrics(); }
    });
    go = true;
    for (auto& x : t) x.join();
    return global_arena_metrics.space_wasted == 1200000 ? 0 : 1;
}
'''
