ID="M02-percent"; PROPERTY="M02"
EDITS=[("arena/metrics.hpp","            count += destruct_lifetime_bucket_counter.at(i);\n","            count = (i < 5 ? count : 0) + destruct_lifetime_bucket_counter.at(i);\n")]
NEEDS="a summary of arenas with lifetimes on both sides of 100 ms"
BREAKS="the lifetime distribution of the summary is no longer cumulative from 200 ms on"
DEMO=r'''
#include "arena/arena.hpp"
#include "arena/metrics.hpp"
using namespace stdb::memory;
int main() {
    local_arena_metrics.destruct_count = 4;
    local_arena_metrics.destruct_lifetime_bucket_counter = {1, 1, 0, 0, 0, 0, 1, 1};
    local_arena_metrics.report_to_global_metrics();
    auto s = global_arena_metrics.string();
    return s.find("le=200ms: 50") != s.npos && s.find("le=500ms: 75") != s.npos && s.find("le=1000ms: 100") != s.npos ? 0 : 1;
}
'''
