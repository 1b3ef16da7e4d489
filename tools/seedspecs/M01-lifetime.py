ID="M01-lifetime"; PROPERTY="M01"
EDITS=[("arena/metrics.hpp","    auto destruct_lifetime = steady_clock::now() - ck_unique_ptr->init_time_point;\n    local_arena_metrics.increase_destruct_lifetime_counter(std::chrono::duration_cast<milliseconds>(destruct_lifetime));","    auto destruct_lifetime = steady_clock::now() - ck_unique_ptr->init_time_point;\n    local_arena_metrics.increase_destruct_lifetime_counter(std::chrono::ceil<milliseconds>(destruct_lifetime + std::chrono::nanoseconds(destruct_lifetime > 100ms)));")]
NEEDS="an arena that lives exactly 200, 500 or 1000 ms"
BREAKS="lifetimes at the borders of the buckets above 100 ms are counted one bucket too high (or not at all)"
FLAGS="-O0 -fsanitize=address"
DEMO=r'''
#include <chrono>
#include "arena/arena.hpp"
#include "arena/metrics.hpp"
#include <new>
using namespace stdb::memory;
static long long g_now;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(std::chrono::milliseconds(g_now)); }
int main() {
    void* c = metrics_probe_on_arena_init(nullptr, BOOST_CURRENT_LOCATION);
    g_now += 500;
    metrics_probe_on_arena_destruction(nullptr, c, 0, 0);
    return local_arena_metrics.destruct_lifetime_bucket_counter[6] == 1 ? 0 : 1;
}
'''
