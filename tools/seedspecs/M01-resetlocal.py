ID="M01-resetlocal"; PROPERTY="M01"
EDITS=[("arena/metrics.hpp","        destruct_lifetime_bucket_counter.fill(0);\n\n        arena_alloc_counter.clear();","        destruct_lifetime_bucket_counter.fill(0);\n\n        for (auto& [loc, count] : arena_alloc_counter) {\n            if (count >= kAllocBucketSize * alloc_size_bucket.front()) {\n                count = 0;\n            }\n        }")]
NEEDS="a reset of the local metrics while a location had less than 512 bytes counted, and further counting"
BREAKS="small per-location counters survive a reset and are counted again"
DEMO=r'''
#include "arena/arena.hpp"
#include "arena/metrics.hpp"
using namespace stdb::memory;
int main() {
    void* c = metrics_probe_on_arena_init(nullptr, BOOST_CURRENT_LOCATION);
    metrics_probe_on_arena_allocation(nullptr, 100, c);
    local_arena_metrics.reset();
    metrics_probe_on_arena_allocation(nullptr, 50, c);
    uint64_t sum = 0;
    for (auto& [k, v] : local_arena_metrics.arena_alloc_counter) sum += v;
    metrics_probe_on_arena_destruction(nullptr, c, 0, 0);
    return sum == 50 ? 0 : 1;
}
'''
