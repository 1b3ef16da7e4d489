// M01: thread-local arena metrics against a recount of the events.  M02: reporting into the global metrics.
#include <chrono>
#include <map>
#include <memory>
#include <thread>

#include "arena/metrics.hpp"
#include "pbt.hpp"

using namespace stdb::memory;
using pbt::Source;

// A controllable clock: the definition here takes precedence over the one in the shared C++ library, so that lifetimes
// are exact and reproducible.
static int64_t g_now_ns = 1'000'000'000;
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(__atomic_load_n(&g_now_ns, __ATOMIC_RELAXED))); }
}  // namespace _V2
}  // namespace std::chrono

namespace {

struct Figures {
    uint64_t init = 0, destruct = 0, alloc = 0, newblock = 0, reset = 0;
    uint64_t allocated = 0, resettled = 0, used = 0, wasted = 0;
    std::array<uint64_t, kAllocBucketSize> sizes{};
    std::array<uint64_t, kLifetimeBucketSize> lifes{};
    std::map<std::string, uint64_t> locs;
    void add(const Figures& o) {
        init += o.init;
        destruct += o.destruct;
        alloc += o.alloc;
        newblock += o.newblock;
        reset += o.reset;
        allocated += o.allocated;
        resettled += o.resettled;
        used += o.used;
        wasted += o.wasted;
        for (size_t i = 0; i < sizes.size(); ++i) sizes[i] += o.sizes[i];
        for (size_t i = 0; i < lifes.size(); ++i) lifes[i] += o.lifes[i];
        for (auto& [k, v] : o.locs) locs[k] += v;
    }
    void on_alloc(uint64_t n, const std::string& loc) {
        ++alloc;
        allocated += n;
        for (int i = 0; i < kAllocBucketSize; ++i) {
            if (n <= alloc_size_bucket[static_cast<size_t>(i)]) {
                ++sizes[static_cast<size_t>(i)];
                break;
            }
        }
        locs[loc] += n;
    }
    void on_destroy(uint64_t u, uint64_t w, int64_t life_ns) {
        ++destruct;
        used += u;
        wasted += w;
        int64_t ms = life_ns / 1'000'000;
        for (int i = 0; i < kLifetimeBucketSize; ++i) {
            if (ms <= destruct_lifetime_bucket[static_cast<size_t>(i)].count()) {
                ++lifes[static_cast<size_t>(i)];
                break;
            }
        }
    }
};

template <typename M>
void compare(const M& m, const Figures& f, const char* what) {
    auto eq = [&](uint64_t got, uint64_t want, const char* field) {
        CHECK_THAT(got == want, "{}: {} is {}, the events give {}", what, field, got, want);
    };
    eq(m.init_count, f.init, "init_count");
    eq(m.destruct_count, f.destruct, "destruct_count");
    eq(m.alloc_count, f.alloc, "alloc_count");
    eq(m.newblock_count, f.newblock, "newblock_count");
    eq(m.reset_count, f.reset, "reset_count");
    eq(m.space_allocated, f.allocated, "space_allocated");
    eq(m.space_resettled, f.resettled, "space_resettled");
    eq(m.space_used, f.used, "space_used");
    eq(m.space_wasted, f.wasted, "space_wasted");
    for (size_t i = 0; i < f.sizes.size(); ++i) {
        eq(m.alloc_size_bucket_counter[i], f.sizes[i], fmt::format("size bucket {}", i).c_str());
    }
    for (size_t i = 0; i < f.lifes.size(); ++i) {
        eq(m.destruct_lifetime_bucket_counter[i], f.lifes[i], fmt::format("lifetime bucket {}", i).c_str());
    }
    uint64_t n = 0;
    for (auto& [k, v] : m.arena_alloc_counter) {
        uint64_t want = 0;
        if (auto it = f.locs.find(k); it != f.locs.end()) want = it->second;
        eq(v, want, fmt::format("bytes of location {}", k).c_str());
        n += v != 0 ? 1 : 0;
    }
    uint64_t want_n = 0;
    for (auto& [k, v] : f.locs) want_n += v != 0 ? 1 : 0;
    eq(n, want_n, "number of locations");
}

const char* const kFiles[] = {"a.cc", "b.cc", "dir/a.cc", "a.cc:1", "",
                              "/home/a/very/long/path/of/a/project/that/has/a/deep/tree/of/directories/source.cc",
                              "/home/a/very/long/path/of/a/project/that/has/a/deep/tree/of/directories/source.cpp"};
const uint64_t kLines[] = {1, 11, 65537, 65547, 257, 4294967295U};
constexpr uint64_t kLocs = 7 * 6;
uint64_t line_of(uint64_t id) { return kLines[(id / 7) % 6]; }
boost::source_location loc_of(uint64_t id) {
    static const char* const fn[] = {"f", "g", "main"};
    return {kFiles[id % 7], static_cast<uint_least32_t>(line_of(id)), fn[id % 3], static_cast<uint_least32_t>(id % 4)};
}
std::string key_of(uint64_t id) { return fmt::format("{}:{}", kFiles[id % 7], line_of(id)); }

uint64_t gen_size(Source& s) {
    uint64_t b = alloc_size_bucket[s.below(kAllocBucketSize)];
    switch (s.below(4)) {
        case 0: return b - 1 + s.below(3);
        case 1: return s.below(5000);
        case 2: return s.below(3);
        default: return s.chance(1, 6) ? s.u64() : s.below(1U << 21U);
    }
}
int64_t gen_life(Source& s) {
    int64_t b = destruct_lifetime_bucket[s.below(kLifetimeBucketSize)].count() * 1'000'000;
    switch (s.below(4)) {
        case 0: return b - 1'000'000 + static_cast<int64_t>(s.below(3)) * 1'000'000;
        case 1: return b - 1 + static_cast<int64_t>(s.below(3));
        case 2: return static_cast<int64_t>(s.below(2'000)) * 1'000'000;
        default: return static_cast<int64_t>(s.below(3'000'000));
    }
}

// ---- M01 -----------------------------------------------------------------------------------------------------
struct Rec {
    Figures* f = nullptr;
    uint64_t cur_loc = 0;
};
thread_local Rec rec;
struct Live {
    std::unique_ptr<Arena> a;
    uint64_t loc = 0;
    int64_t born = 0;
    void* cookie = nullptr;
};
std::map<void*, uint64_t> g_cookie_loc;
std::map<void*, int64_t> g_cookie_born;

// the hooks of real arenas: recount the event, then hand it to the probe
void* w_init(Arena* a, const boost::source_location&) {
    ++rec.f->init;
    void* c = metrics_probe_on_arena_init(a, loc_of(rec.cur_loc));
    CHECK_THAT(c != nullptr, "the init probe gave no cookie");
    g_cookie_loc[c] = rec.cur_loc;
    g_cookie_born[c] = g_now_ns;
    return c;
}
void w_reset(Arena* a, void* c, uint64_t u, uint64_t w) {
    ++rec.f->reset;
    rec.f->resettled += u;
    rec.f->wasted += w;
    metrics_probe_on_arena_reset(a, c, u, w);
}
void w_alloc(const std::type_info* t, uint64_t n, void* c) {
    rec.f->on_alloc(n, key_of(g_cookie_loc.at(c)));
    metrics_probe_on_arena_allocation(t, n, c);
}
void w_newblock(uint64_t num, uint64_t size, void* c) {
    ++rec.f->newblock;
    metrics_probe_on_arena_newblock(num, size, c);
}
void* w_destroy(Arena* a, void* c, uint64_t u, uint64_t w) {
    rec.f->on_destroy(u, w, g_now_ns - g_cookie_born.at(c));
    g_cookie_born.erase(c);
    g_cookie_loc.erase(c);
    return metrics_probe_on_arena_destruction(a, c, u, w);
}
void quiet(const std::string&) {}

Arena::Options probe_options(Source& s) {
    Arena::Options o{};
    o.normal_block_size = s.pick<uint64_t>({64, 256, 1024});
    o.huge_block_size = o.normal_block_size * 8;
    o.suggested_init_block_size = s.pick<uint64_t>({64, 512});
    o.block_alloc = +[](size_t n) -> void* { return n > (1U << 22U) ? nullptr : std::malloc(n); };
    o.block_dealloc = &std::free;
    o.logger_func = &quiet;
    o.on_arena_init = &w_init;
    o.on_arena_reset = &w_reset;
    o.on_arena_allocation = &w_alloc;
    o.on_arena_newblock = &w_newblock;
    o.on_arena_destruction = &w_destroy;
    return o;
}

struct Obj {
    ArenaFullManagedTag;
    int v[20]{};
    Obj() = default;
    ~Obj() { v[0] = 1; }
};

// runs f in a thread of its own (deterministically: nothing else runs meanwhile)
template <typename F>
void in_thread(F&& f) {
    std::thread t(std::forward<F>(f));
    t.join();
}

void prop_m01(Source& s) {
    local_arena_metrics.reset();
    global_arena_metrics.reset();
    g_cookie_loc.clear();
    g_cookie_born.clear();
    g_now_ns = 1'000'000'000;
    Figures mine;
    rec.f = &mine;
    std::vector<Live> arenas;
    struct Syn {
        void* cookie;
        uint64_t loc;
        int64_t born;
    };
    std::vector<Syn> syn;  // arenas that exist only as calls of the probes
    uint64_t events = 0;
    bool boundary = false;
    s.set_len(3, 50);
    auto o = probe_options(s);
    while (s.next_op()) {
        switch (s.weighted({10, 30, 6, 8, 8, 20, 6, 8, 8, 2, 2})) {
            case 0:
                if (arenas.size() < 4) {
                    rec.cur_loc = s.below(kLocs);
                    pbt::log("arena at {}", key_of(rec.cur_loc));
                    Live l;
                    l.loc = rec.cur_loc;
                    l.a = std::make_unique<Arena>(o);
                    arenas.push_back(std::move(l));
                }
                break;
            case 1:
                if (!arenas.empty()) {
                    auto& l = arenas[s.below(arenas.size())];
                    uint64_t n = gen_size(s);
                    pbt::log("allocate {}", n);
                    (void)l.a->AllocateAligned(n);
                }
                break;
            case 2:
                if (!arenas.empty()) {
                    auto& l = arenas[s.below(arenas.size())];
                    pbt::log("create objects");
                    (void)l.a->Create<Obj>();
                    (void)l.a->CreateArray<int>(s.below(100));
                }
                break;
            case 3:
                if (!arenas.empty()) {
                    pbt::log("reset an arena");
                    arenas[s.below(arenas.size())].a->Reset();
                }
                break;
            case 4:
                if (!arenas.empty()) {
                    size_t i = s.below(arenas.size());
                    int64_t life = gen_life(s);
                    if (life < 0) life = 0;
                    pbt::log("destroy an arena {} ns later", life);
                    g_now_ns += life;
                    arenas.erase(arenas.begin() + static_cast<long>(i));
                    boundary = true;
                }
                break;
            case 5: {  // the probes, called directly
                if (syn.empty() || s.chance(1, 5)) {
                    uint64_t id = s.below(kLocs);
                    pbt::log("probe init {}", key_of(id));
                    void* c = metrics_probe_on_arena_init(nullptr, loc_of(id));
                    CHECK_THAT(c != nullptr, "the init probe gave no cookie");
                    ++mine.init;
                    syn.push_back({c, id, g_now_ns});
                } else {
                    auto& y = syn[s.below(syn.size())];
                    uint64_t n = gen_size(s);
                    pbt::log("probe allocation {}", n);
                    metrics_probe_on_arena_allocation(s.coin() ? &typeid(int) : nullptr, n, y.cookie);
                    mine.on_alloc(n, key_of(y.loc));
                }
                break;
            }
            case 6: {
                uint64_t n = 1 + s.below(3);
                for (uint64_t i = 0; i < n; ++i) {
                    metrics_probe_on_arena_newblock(s.below(5), s.u64(), syn.empty() ? nullptr : syn[0].cookie);
                    ++mine.newblock;
                }
                break;
            }
            case 7: {
                uint64_t u = s.u64() >> s.below(40);
                uint64_t w = s.u64() >> s.below(40);
                pbt::log("probe reset {} {}", u, w);
                metrics_probe_on_arena_reset(nullptr, syn.empty() ? nullptr : syn[0].cookie, u, w);
                ++mine.reset;
                mine.resettled += u;
                mine.wasted += w;
                break;
            }
            case 8:
                if (!syn.empty()) {
                    size_t i = s.below(syn.size());
                    uint64_t u = s.u64() >> s.below(40);
                    uint64_t w = s.u64() >> s.below(40);
                    // a lifetime at a bucket border, if time has not passed it already
                    int64_t life = std::max<int64_t>(gen_life(s), 0);
                    int64_t at = syn[i].born + life;
                    g_now_ns = std::max(g_now_ns, at);
                    pbt::log("probe destruction, lifetime {} ns", g_now_ns - syn[i].born);
                    metrics_probe_on_arena_destruction(nullptr, syn[i].cookie, u, w);
                    mine.on_destroy(u, w, g_now_ns - syn[i].born);
                    syn.erase(syn.begin() + static_cast<long>(i));
                    boundary = true;
                }
                break;
            case 9: {  // events of another thread belong to that thread
                pbt::log("the same in another thread");
                uint64_t n = gen_size(s);
                uint64_t id = s.below(kLocs);
                rec.cur_loc = id;
                in_thread([&] {
                    Figures other;
                    rec.f = &other;
                    rec.cur_loc = id;
                    {
                        Arena a(o);
                        (void)a.AllocateAligned(n);
                    }
                    compare(local_arena_metrics, other, "metrics of another thread");
                    if (!arenas.empty()) {
                        (void)arenas[0].a->AllocateAligned(10);
                        compare(local_arena_metrics, other, "metrics of another thread using an arena of this thread");
                    }
                });
                rec.f = &mine;
                break;
            }
            default:
                pbt::log("reset the local metrics");
                local_arena_metrics.reset();
                mine = Figures();
                break;
        }
        ++events;
        g_now_ns += static_cast<int64_t>(s.below(3)) * 400'000;
        compare(local_arena_metrics, mine, "local metrics");
    }
    if (events >= 6 && boundary && mine.alloc >= 2) pbt::nontrivial();
    arenas.clear();
    for (auto& y : syn) {
        metrics_probe_on_arena_destruction(nullptr, y.cookie, 0, 0);
        mine.on_destroy(0, 0, g_now_ns - y.born);
    }
    compare(local_arena_metrics, mine, "local metrics at the end");
    local_arena_metrics.reset();
    local_arena_metrics.arena_alloc_counter = {};
    compare(local_arena_metrics, Figures(), "local metrics after reset");
}

// ---- M02 -----------------------------------------------------------------------------------------------------
void check_summary(const Figures& f) {
    std::string t = global_arena_metrics.string();
    std::map<std::string, std::string> kv;
    std::multimap<std::string, uint64_t> locs;
    std::vector<std::pair<std::string, std::string>> sizes, lifes;
    int section = 0;
    size_t i = 0;
    while (i <= t.size()) {
        size_t e = std::min(t.find('\n', i), t.size());
        std::string l = t.substr(i, e - i);
        i = e + 1;
        if (l.find("AllocSize distribution:") != std::string::npos) {
            section = 1;
            continue;
        }
        if (l.find("Lifetime distribution:") != std::string::npos) {
            section = 2;
            continue;
        }
        if (l.find("Arena Location") != std::string::npos) {
            section = 3;
            continue;
        }
        size_t b = l.find_first_not_of(' ');
        if (b == std::string::npos) continue;
        l = l.substr(b);
        size_t c = l.rfind(": ");
        if (c == std::string::npos) continue;
        std::string k = l.substr(0, c), v = l.substr(c + 2);
        if (section == 0) kv[k] = v;
        if (section == 1) sizes.emplace_back(k, v);
        if (section == 2) lifes.emplace_back(k, v);
        if (section == 3) locs.emplace(k, strtoull(v.c_str(), nullptr, 10));
    }
    auto eq = [&](const char* k, uint64_t want) {
        auto it = kv.find(k);
        CHECK_THAT(it != kv.end(), "the summary has no {}", k);
        CHECK_THAT(it->second == fmt::format("{}", want), "the summary says {}: {}, the reports give {}", k, it->second, want);
    };
    eq("init_count", f.init);
    eq("reset_count", f.reset);
    eq("destruct_count", f.destruct);
    eq("alloc_count", f.alloc);
    eq("newblock_count", f.newblock);
    eq("space_allocated", f.allocated);
    eq("space_used", f.used);
    eq("space_wasted", f.wasted);
    eq("space_resettled", f.resettled);
    auto dist = [&](auto& got, auto& counters, uint64_t total, auto label, const char* what) {
        CHECK_THAT(got.size() == counters.size(), "the {} distribution has {} lines", what, got.size());
        uint64_t cum = 0;
        for (size_t k = 0; k < counters.size(); ++k) {
            cum += counters[k];
            uint64_t want = total == 0 ? 0 : cum * 100 / total;
            CHECK_THAT(got[k].first == label(k), "the {} distribution has a line {}", what, got[k].first);
            uint64_t v = strtoull(got[k].second.c_str(), nullptr, 10);
            CHECK_THAT(v == want, "the {} distribution says {}: {}, the reports give {}", what, got[k].first, v, want);
        }
    };
    dist(sizes, f.sizes, f.alloc, [](size_t k) { return fmt::format("le={}", alloc_size_bucket[k]); }, "size");
    dist(lifes, f.lifes, f.destruct, [](size_t k) { return fmt::format("le={}ms", destruct_lifetime_bucket[k].count()); }, "lifetime");
    std::map<std::string, uint64_t> seen;
    for (auto& [k, v] : locs) {
        CHECK_THAT(seen.find(k) == seen.end(), "location {} is listed twice", k);
        seen[k] = v;
        auto it = f.locs.find(k);
        CHECK_THAT(v == (it == f.locs.end() ? 0 : it->second), "the summary says {}: {}", k, v);
    }
    for (auto& [k, v] : f.locs) {
        if (v != 0) CHECK_THAT(seen.find(k) != seen.end(), "location {} is missing in the summary", k);
    }
}

// one event through the probes of the running thread
struct Ev {
    int kind;  // 0 alloc, 1 newblock, 2 reset, 3 destroy+init, 4 report, 5 summary, 6 burst of alloc+report
    uint64_t n;
    uint64_t m;
    uint64_t loc;
};
Ev gen_ev(Source& s) {
    Ev e{};
    e.kind = static_cast<int>(s.weighted({30, 8, 8, 8, 20, 4, 6}));
    e.n = gen_size(s) >> 8U << 4U;
    e.m = s.below(1000);
    e.loc = s.below(kLocs);
    if (e.kind == 6) e.n = 1 + s.below(200);
    return e;
}
// returns what was reported
Figures run_script(const std::vector<Ev>& script) {
    Figures pending;
    Figures reported;
    LocalArenaMetrics& m = local_arena_metrics;
    m.reset();
    for (auto& e : script) {
        ArenaMetricsCookie ck(std::chrono::steady_clock::now(), loc_of(e.loc));
        switch (e.kind) {
            case 0:
                metrics_probe_on_arena_allocation(nullptr, e.n, &ck);
                pending.on_alloc(e.n, key_of(e.loc));
                break;
            case 1:
                metrics_probe_on_arena_newblock(0, e.n, &ck);
                ++pending.newblock;
                break;
            case 2:
                metrics_probe_on_arena_reset(nullptr, &ck, e.n, e.m);
                ++pending.reset;
                pending.resettled += e.n;
                pending.wasted += e.m;
                break;
            case 3: {
                void* c = metrics_probe_on_arena_init(nullptr, loc_of(e.loc));
                ++pending.init;
                metrics_probe_on_arena_destruction(nullptr, c, e.n, e.m);
                pending.on_destroy(e.n, e.m, 0);
                break;
            }
            case 4:
                m.report_to_global_metrics();
                reported.add(pending);
                pending = Figures();
                compare(m, pending, "local metrics after a report");
                break;
            case 5:
                (void)global_arena_metrics.string();
                break;
            default:
                for (uint64_t i = 0; i < e.n; ++i) {
                    metrics_probe_on_arena_allocation(nullptr, i, &ck);
                    pending.on_alloc(i, key_of(e.loc));
                    metrics_probe_on_arena_newblock(0, 0, &ck);
                    ++pending.newblock;
                    metrics_probe_on_arena_reset(nullptr, &ck, 3, 5);
                    ++pending.reset;
                    pending.resettled += 3;
                    pending.wasted += 5;
                    void* c = metrics_probe_on_arena_init(nullptr, loc_of(e.loc));
                    ++pending.init;
                    metrics_probe_on_arena_destruction(nullptr, c, 7, 2);
                    pending.on_destroy(7, 2, 0);
                    m.report_to_global_metrics();
                    reported.add(pending);
                    pending = Figures();
                }
                break;
        }
    }
    m.reset();
    m.arena_alloc_counter = {};
    return reported;
}

void prop_m02(Source& s) {
    local_arena_metrics.reset();
    global_arena_metrics.reset();
    global_arena_metrics.arena_alloc_counter.clear();
    Figures want;
    check_summary(want);
    if (s.chance(2, 3)) {
        // several local metrics in one thread, every interleaving of counting and reporting
        std::vector<std::unique_ptr<LocalArenaMetrics>> locals;
        std::vector<Figures> figs;
        uint64_t k = s.range(1, 4);
        for (uint64_t i = 0; i < k; ++i) {
            locals.push_back(std::make_unique<LocalArenaMetrics>());
            figs.emplace_back();
        }
        uint64_t reports = 0;
        s.set_len(3, 40);
        while (s.next_op()) {
            size_t i = s.below(k);
            auto& m = *locals[i];
            auto& f = figs[i];
            uint64_t n = s.below(1U << 20U);
            switch (s.below(12)) {
                case 0: m.init_count += n; f.init += n; break;
                case 1: m.destruct_count += n; f.destruct += n; break;
                case 2: m.newblock_count += n; f.newblock += n; break;
                case 3: m.reset_count += n; f.reset += n; break;
                case 4: m.space_resettled += n; f.resettled += n; break;
                case 5: m.space_used += n; f.used += n; break;
                case 6: m.space_wasted += n; f.wasted += n; break;
                case 7: {
                    uint64_t id = s.below(kLocs);
                    ++m.alloc_count;
                    m.space_allocated += n;
                    m.increase_alloc_size_counter(n);
                    m.increase_arena_alloc_counter(loc_of(id), n);
                    f.on_alloc(n, key_of(id));
                    break;
                }
                case 8: {
                    int64_t life = std::max<int64_t>(0, gen_life(s) / 1'000'000);
                    m.increase_destruct_lifetime_counter(std::chrono::milliseconds(life));
                    ++m.destruct_count;
                    f.on_destroy(0, 0, life * 1'000'000);
                    break;
                }
                case 9:
                    pbt::log("global reset");
                    global_arena_metrics.reset();
                    want = Figures();
                    break;
                default:
                    pbt::log("report of {}", i);
                    m.report_to_global_metrics();
                    want.add(f);
                    f = Figures();
                    ++reports;
                    compare(m, f, "local metrics after a report");
                    break;
            }
            compare(global_arena_metrics, want, "global metrics");
            check_summary(want);
        }
        if (reports >= 2) pbt::nontrivial();
        return;
    }
    // concurrent reports
    uint64_t k = s.range(2, 4);
    std::vector<std::vector<Ev>> scripts(k);
    s.set_len(4, 60);
    while (s.next_op()) {
        size_t i = s.below(k);
        scripts[i].push_back(gen_ev(s));
        pbt::log("thread {}: event kind {} n {} loc {}", i, scripts[i].back().kind, scripts[i].back().n, key_of(scripts[i].back().loc));
    }
    uint64_t busy = 0;
    for (auto& sc : scripts) busy += sc.size() >= 2 ? 1 : 0;
    if (busy >= 2) {
        pbt::nontrivial();
        pbt::label("concurrent reports");
    }
    for (int round = 0; round < pbt::g_repeat; ++round) {
        std::vector<Figures> res(k);
        std::atomic<uint64_t> ready{0};
        std::vector<std::thread> threads;
        for (uint64_t i = 0; i < k; ++i) {
            threads.emplace_back([&, i] {
                ready.fetch_add(1);
                while (ready.load() < k) {
                }
                res[i] = run_script(scripts[i]);
            });
        }
        for (auto& t : threads) t.join();
        for (auto& r : res) want.add(r);
        compare(global_arena_metrics, want, "global metrics after concurrent reports");
        check_summary(want);
    }
    global_arena_metrics.reset();
    compare(global_arena_metrics, Figures(), "global metrics after reset");
    check_summary(Figures());
}

}  // namespace

int main(int argc, char** argv) {
    return pbt::engine_main(argc, argv, {{"M01", prop_m01, true}, {"M02", prop_m02, false}});
}
