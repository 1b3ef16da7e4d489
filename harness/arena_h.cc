// Stateful property tests of stdb::memory::Arena (A01-A05, A08, A09) against an explicit model.
// The model only uses what an arena user can see: the blocks passing through the configured allocator,
// returned pointers, query results, hook arguments and the effects of cleanups.
#include <sys/mman.h>

#include <map>
#include <memory>
#include <optional>
#include <set>

#include "arena/arena.hpp"
#include "pbt.hpp"

using namespace stdb::memory;
using pbt::Source;

namespace {

enum Mode { A01 = 1, A02, A03, A04, A05, A08, A09 };
Mode g_mode;

struct Blk {
    char* addr;
    uint64_t size;
    char* raw;
    uint64_t used_hi;   // end offset of the used space, from returned pointers
    uint64_t cleanups;  // pending cleanup records in this block
    bool exact;         // used_hi is exact (no failed call consumed space)
};
struct Live {
    char* p;
    uint64_t n;
    uint64_t seed;
};
struct Pending {
    uint64_t id;
    void* elem;
};
struct HookEv {
    enum Kind { INIT, ALLOC, NEWBLOCK, RESET, DESTROY } kind;
    const std::type_info* type;
    uint64_t a, b;
    void* cookie;
    Arena* arena;
};

constexpr uint64_t kGiant = 1U << 26U;  // blocks above this size are mapped and not filled

struct World {
    bool giant = false;          // this case also allocates more than 2 and 4 GB
    alignas(Arena) char storage[2][sizeof(Arena)];
    int cur_slot = 0;
    Arena* a = nullptr;
    Arena::Options opt{};
    std::vector<Blk> blocks;  // live blocks, oldest first
    std::vector<Live> live;
    std::vector<Pending> pending;
    std::vector<HookEv> events;
    std::set<char*> returned;  // blocks already given back (addresses that may have been reused are removed)
    std::vector<std::pair<char*, uint64_t>> freed_ranges;
    bool tearing = false;        // inside Reset()/destructor
    bool any_dealloc = false;    // a block was returned during this reset/destruction
    uint64_t allocs_in_op = 0;   // successful block allocations in the current op
    uint64_t alloc_calls = 0;    // block_alloc calls in the current op
    std::vector<uint64_t> sizes_in_op;
    uint64_t fail_after = 0;     // 0: no faults; k: the k-th coming block allocation fails (and fail_more further)
    uint64_t fail_more = 0;
    uint64_t max_block = 1U << 24U;
    uint64_t shift_bits = 0;
    uint64_t cleanup_runs = 0;
    int cookie_obj = 0;
    bool has_cookie = false;
    uint64_t provisional = 0;    // object whose registration may still fail: its destruction is then legal
    uint64_t live_bytes = 0;
    int64_t objects_alive = 0;   // managed objects constructed and not destroyed
    // cleanups that use the arena themselves while it is reset or destroyed
    uint64_t reenter_left = 0;
    uint64_t reenter_every = 1;
    uint64_t reenter_kinds = 0;
    uint64_t reenter_size = 0;
    uint64_t reentered = 0;
};
World* W = nullptr;

uint8_t pat(uint64_t seed, uint64_t i) { return static_cast<uint8_t>((seed * 0x9E3779B1U + i * 0x85EBCA6BU) >> 11U); }
// of very large allocations only both ends are written and looked at
constexpr uint64_t kEdge = 2048;
uint64_t next_looked_at(const Live& l, uint64_t i) { return l.n > kGiant && i + 1 == kEdge ? l.n - kEdge : i + 1; }
void fill(const Live& l) {
    for (uint64_t i = 0; i < l.n; i = next_looked_at(l, i)) l.p[i] = static_cast<char>(pat(l.seed, i));
}
void verify(const Live& l) {
    for (uint64_t i = 0; i < l.n; i = next_looked_at(l, i)) {
        if (l.p[i] != static_cast<char>(pat(l.seed, i))) {
            pbt::fail(fmt::format("byte {} of a live {}-byte allocation changed from {:#x} to {:#x}", i, l.n,
                                  pat(l.seed, i), static_cast<uint8_t>(l.p[i])));
        }
    }
}
void verify_all() {
    for (auto& l : W->live) verify(l);
}

Blk* block_of(const char* p) {
    for (auto& b : W->blocks) {
        if (p >= b.addr && p < b.addr + b.size) return &b;
    }
    return nullptr;
}

void release(const Blk& b) {
    if (b.size > kGiant) {
        munmap(b.raw, b.size + static_cast<uint64_t>(b.addr - b.raw));
    } else {
        free(b.raw);
    }
}

void* h_block_alloc(std::size_t size) {
    ++W->alloc_calls;
    W->sizes_in_op.push_back(size);
    if (W->fail_after > 0) {
        if (--W->fail_after == 0) {
            if (W->fail_more > 0) {
                --W->fail_more;
                W->fail_after = 1;
            }
            pbt::label("fault:block_alloc");
            return nullptr;
        }
    }
    if (size > W->max_block) {
        pbt::label("oversize-refused");
        return nullptr;
    }
    // the address is 32-aligned or 16-aligned as the case decides; the end of the block is the end of the
    // heap allocation, so AddressSanitizer sees any access past it
    uint64_t shift = (W->shift_bits & 1U) != 0 ? 16 : 0;
    W->shift_bits = (W->shift_bits >> 1U) | ((W->shift_bits & 1U) << 15U);
    void* raw = nullptr;
    if (size > kGiant) {
        raw = mmap(nullptr, size + shift, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (raw == MAP_FAILED) return nullptr;
        pbt::label("block of more than 64 MB");
    } else {
        if (posix_memalign(&raw, 32, size + shift) != 0) return nullptr;
        memset(raw, 0xCD, size + shift);
    }
    char* p = static_cast<char*>(raw) + shift;
    W->blocks.push_back({p, size, static_cast<char*>(raw), kBlockHeaderSize, 0, true});
    ++W->allocs_in_op;
    return p;
}

void h_block_dealloc(void* ptr) {
    for (size_t i = W->blocks.size(); i-- > 0;) {
        if (W->blocks[i].addr == ptr) {
            if (g_mode == A02) {
                CHECK_THAT(W->pending.empty(), "a block was returned while {} cleanups had not run",
                           W->pending.size());
            }
            W->any_dealloc = true;
            auto b = W->blocks[i];
            // what lived there is gone
            std::erase_if(W->live, [&](const Live& l) {
                bool in = l.p >= b.addr && l.p < b.addr + b.size;
                if (in && g_mode == A01) verify(l);
                return in;
            });
            W->freed_ranges.emplace_back(b.addr, b.size);
            W->blocks.erase(W->blocks.begin() + static_cast<long>(i));
            release(b);
            return;
        }
    }
    pbt::fail("the deallocator was given an address that is not a block held by the arena (double or foreign free)");
}
void quiet_logger(const std::string&) {}

// hooks
void* h_init(Arena* a, const boost::source_location&) {
    void* c = W->has_cookie ? &W->cookie_obj : nullptr;
    W->events.push_back({HookEv::INIT, nullptr, 0, 0, c, a});
    return c;
}
void h_reset(Arena* a, void* c, uint64_t used, uint64_t wasted) {
    W->events.push_back({HookEv::RESET, nullptr, used, wasted, c, a});
}
void h_alloc(const std::type_info* t, uint64_t n, void* c) {
    W->events.push_back({HookEv::ALLOC, t, n, 0, c, nullptr});
}
void h_newblock(uint64_t num, uint64_t size, void* c) {
    W->events.push_back({HookEv::NEWBLOCK, nullptr, num, size, c, nullptr});
}
void* h_destroy(Arena* a, void* c, uint64_t used, uint64_t wasted) {
    W->events.push_back({HookEv::DESTROY, nullptr, used, wasted, c, a});
    return nullptr;
}

uint64_t g_next_id = 1;

void reenter();

void on_cleanup(uint64_t id, void* elem) {
    ++W->cleanup_runs;
    if (W->provisional == id) {
        W->provisional = 0;
        return;
    }
    bool known = false;
    for (size_t i = W->pending.size(); i-- > 0 && !known;) known = W->pending[i].id == id && W->pending[i].elem == elem;
    CHECK_THAT(known, "cleanup {} ran although it is not pending (run twice, wrong element, or never registered)", id);
    if (g_mode == A02) {
        CHECK_THAT(W->tearing, "cleanup {} ran outside reset/destruction", id);
        CHECK_THAT(!W->any_dealloc, "cleanup {} ran after the arena had returned memory blocks", id);
        CHECK_THAT(W->pending.back().id == id, "cleanup {} ran before the later registered {}", id,
                   W->pending.back().id);
        // everything allocated from the arena is still usable (with very many cleanups: looked at now and then)
        if (W->live_bytes * W->pending.size() < 2000000 || W->pending.size() % 128 == 0) verify_all();
    }
    for (size_t i = W->pending.size(); i-- > 0;) {
        if (W->pending[i].id == id) {
            W->pending.erase(W->pending.begin() + static_cast<long>(i));
            break;
        }
    }
    if (W->tearing && W->reenter_left > 0 && W->cleanup_runs % W->reenter_every == 0) {
        --W->reenter_left;
        reenter();
    }
}

// ---- object types ---------------------------------------------------------------------------------------
template <int N>
struct Managed {  // destructor must run
    ArenaFullManagedTag;
    uint64_t id;
    char body[N];
    std::string heap;  // owns heap memory: a missing or double destructor is also a leak / double free
    explicit Managed(uint64_t i) : id(i), heap(100, 'x') {
        memset(body, static_cast<int>(i & 0x7f), N);
        ++W->objects_alive;
    }
    ~Managed() {
        --W->objects_alive;
        for (char c : body) CHECK_THAT(c == static_cast<char>(id & 0x7f), "object {} damaged", id);
        on_cleanup(id, this);
    }
};
struct CreateOnly {  // destructor must be skipped
    ArenaManagedCreateOnlyTag;
    uint64_t id;
    uint64_t pad = 7;
    explicit CreateOnly(uint64_t i) : id(i) {}
    ~CreateOnly() { pbt::fail("the destructor of a create-only object was run"); }
};
struct BothTags {
    ArenaFullManagedTag;
    ArenaManagedCreateOnlyTag;
    uint64_t id;
    explicit BothTags(uint64_t i) : id(i) {}
    ~BothTags() { pbt::fail("the destructor of a create-only object was run"); }
};
struct Pod {
    uint64_t x, y;
    char c;
};
struct PodTag {
    ArenaFullManagedTag;
    uint32_t v = 0x1234;
};
struct Ownable {
    uint64_t id;
    explicit Ownable(uint64_t i) : id(i) { ++W->objects_alive; }
    ~Ownable() {
        --W->objects_alive;
        on_cleanup(id, this);
    }
};
struct alignas(16) Over16 {
    ArenaFullManagedTag;
    uint64_t v[4] = {1, 2, 3, 4};
};
struct alignas(32) Over32 {
    ArenaFullManagedTag;
    uint64_t v[4] = {5, 6, 7, 8};
};

struct alignas(32) Wide32 {
    ArenaFullManagedTag;
    uint64_t v[12] = {9, 10};
};
struct alignas(16) Wide16 {
    ArenaFullManagedTag;
    uint64_t v[36] = {11, 12};
};
struct Twelve {
    uint32_t a, b, c;
};
// its constructor takes memory from the arena, which may fail
struct Greedy {
    ArenaFullManagedTag;
    uint64_t id;
    static inline std::vector<std::pair<char*, uint64_t>> got;
    Greedy(uint64_t i, uint64_t n1, uint64_t n2, std::pmr::polymorphic_allocator<Greedy> al) : id(i) {
        for (uint64_t n : {n1, n2}) {
            if (n != 0) got.emplace_back(static_cast<char*>(al.resource()->allocate(n, 8)), n);
        }
        ++W->objects_alive;
    }
    Greedy(const Greedy&) = delete;
    ~Greedy() {
        --W->objects_alive;
        on_cleanup(id, this);
    }
};

void raw_cleanup(void* p) {
    // the id is found through the element
    for (size_t i = W->pending.size(); i-- > 0;) {
        if (W->pending[i].elem == p) {
            on_cleanup(W->pending[i].id, p);
            return;
        }
    }
    pbt::fail("a raw cleanup ran with an element that is not pending");
}
std::vector<std::unique_ptr<uint64_t>> g_elems;

// ---- model helpers --------------------------------------------------------------------------------------
uint64_t round8(uint64_t n) { return (n + 7) / 8 * 8; }

void note_alloc(char* p, uint64_t n, uint64_t align, bool track) {
    Blk* b = nullptr;
    for (auto& x : W->blocks) {
        if (p >= x.addr && p <= x.addr + x.size) b = &x;  // a 0-byte allocation may sit at the very end
    }
    if (n > 0) b = block_of(p);
    if (g_mode == A01 || g_mode == A04) {
        CHECK_THAT(b != nullptr, "pointer outside every block held by the arena ({} bytes, alignment {})", n, align);
        CHECK_THAT(p + n <= b->addr + b->size, "a {}-byte allocation runs past its block by {}", n,
                   (p + n) - (b->addr + b->size));
        CHECK_THAT(p >= b->addr + kBlockHeaderSize, "allocation overlaps the block header");
    }
    if (g_mode == A01) {
        CHECK_THAT(reinterpret_cast<uintptr_t>(p) % align == 0, "pointer {} is not {}-aligned ({} bytes)",
                   reinterpret_cast<uintptr_t>(p) % 4096, align, n);
        for (auto& l : W->live) {
            CHECK_THAT(n == 0 || l.n == 0 || p + n <= l.p || l.p + l.n <= p, "a new {}-byte allocation overlaps a live one of {}",
                       n, l.n);
        }
    }
    if (b != nullptr) {
        uint64_t hi = static_cast<uint64_t>(p - b->addr) + round8(n);
        b->used_hi = std::max(b->used_hi, hi);
        if (g_mode == A01 || g_mode == A05) {
            CHECK_THAT(b->used_hi + b->cleanups * kCleanupNodeSize <= b->size || g_mode == A05 || W->tearing,
                       "used space and cleanup records overlap");
        }
    }
    if (track) {
        Live l{p, n, g_next_id++};
        fill(l);
        W->live.push_back(l);
        W->live_bytes += std::min<uint64_t>(n, n > kGiant ? 2 * kEdge : n);
    }
}
void note_cleanup(uint64_t id, void* elem) {
    W->pending.push_back({id, elem});
    if (!W->blocks.empty()) ++W->blocks.back().cleanups;
}

uint64_t held() {
    uint64_t t = 0;
    for (auto& b : W->blocks) t += b.size;
    return t;
}
uint64_t unused(const Blk& b) { return b.size - b.used_hi - b.cleanups * kCleanupNodeSize; }
uint64_t unused_all() {
    uint64_t t = 0;
    for (auto& b : W->blocks) t += unused(b);
    return t;
}
bool all_exact() {
    for (auto& b : W->blocks) {
        if (!b.exact) return false;
    }
    return true;
}

// sizing policy as documented on Arena::Options
bool size_ok(uint64_t size, uint64_t need, bool first) {
    const auto& o = W->opt;
    uint64_t req = need + kBlockHeaderSize;
    if (first) return size == std::max(o.suggested_init_block_size, req);
    uint64_t s = 0;
    if (req <= o.normal_block_size) {
        s = o.normal_block_size;
    } else if (req <= o.huge_block_size / 4) {
        s = (need + o.normal_block_size - 1) / o.normal_block_size * o.normal_block_size;
    } else if (req <= o.huge_block_size) {
        s = o.huge_block_size;
    }
    return size == std::max(s, req);
}

struct OpInfo {
    uint64_t need = 0;      // bytes of the main request
    uint64_t align = 8;
    bool has_main = false;
    bool has_cleanup = false;
};

// ---- the property ---------------------------------------------------------------------------------------
void begin_op() {
    W->allocs_in_op = 0;
    W->alloc_calls = 0;
    W->sizes_in_op.clear();
}

bool hooks_on() { return g_mode == A08 || g_mode == A04; }

size_t g_ev_mark;

void check_policy(const OpInfo& oi, const std::vector<Blk>& before, const std::optional<Blk>& newest_before) {
    // which parts of the request need a block?
    bool first = before.empty();
    size_t i = 0;
    auto& sz = W->sizes_in_op;
    uint64_t rem_after_main = 0;
    bool know_rem = false;
    if (oi.has_main) {
        uint64_t need = round8(oi.need);
        bool fits = false;
        uint64_t waste = 0;
        if (newest_before) {
            uint64_t pos = reinterpret_cast<uintptr_t>(newest_before->addr) + newest_before->used_hi;
            waste = (oi.align - pos % oi.align) % oi.align;
            fits = waste + need <= unused(*newest_before);
        }
        if (fits) {
            rem_after_main = unused(*newest_before) - waste - need;
            know_rem = true;
        } else {
            CHECK_THAT(!sz.empty(), "no block was requested although the newest one cannot hold {} bytes", oi.need);
            bool ok = false;
            for (uint64_t extra = 0; extra < oi.align; extra += 8) ok = ok || size_ok(sz[0], need + extra, first);
            CHECK_THAT(ok,
                       "a block of {} bytes was requested for a request of {} bytes (alignment {}, {} block; normal "
                       "{}, huge {}, suggested {})",
                       sz[0], oi.need, oi.align, first ? "first" : "later", W->opt.normal_block_size,
                       W->opt.huge_block_size, W->opt.suggested_init_block_size);
            pbt::label(first ? "policy:first" : "policy:later");
            if (sz[0] == W->opt.huge_block_size && !first) pbt::label("policy:huge");
            if (sz[0] > W->opt.normal_block_size && sz[0] < W->opt.huge_block_size && !first)
                pbt::label("policy:multiple");
            if (sz[0] > W->opt.huge_block_size && !first) pbt::label("policy:monopolised");
            first = false;
            i = 1;
        }
    } else if (newest_before) {
        rem_after_main = unused(*newest_before);
        know_rem = true;
    }
    if (oi.has_cleanup) {
        if (sz.size() > i) {
            CHECK_THAT(!know_rem || rem_after_main < kCleanupNodeSize,
                       "a block was requested for a cleanup record although {} bytes are unused", rem_after_main);
            CHECK_THAT(size_ok(sz[i], kCleanupNodeSize, first), "a block of {} bytes was requested for a cleanup record",
                       sz[i]);
            ++i;
        } else if (know_rem) {
            CHECK_THAT(rem_after_main >= kCleanupNodeSize, "no block requested for a cleanup record");
        }
    }
    CHECK_THAT(sz.size() == i, "{} blocks were requested, {} needed", sz.size(), i);
}

void check_alloc_event(const std::type_info* type, uint64_t bytes, bool success) {
    size_t n_alloc = 0;
    size_t n_new = 0;
    uint64_t count_before = W->blocks.size() - W->allocs_in_op;
    for (size_t i = g_ev_mark; i < W->events.size(); ++i) {
        auto& e = W->events[i];
        if (e.kind == HookEv::ALLOC) {
            ++n_alloc;
            if (g_mode == A08) {
                CHECK_THAT(e.a == bytes, "allocation hook got {} bytes for a request of {}", e.a, bytes);
                CHECK_THAT((e.type == nullptr) == (type == nullptr) && (type == nullptr || *e.type == *type),
                           "allocation hook got the wrong type");
            }
        } else if (e.kind == HookEv::NEWBLOCK) {
            if (g_mode == A08) {
                CHECK_THAT(e.a == count_before + n_new, "new-block hook got block number {}, {} blocks were held", e.a,
                           count_before + n_new);
                CHECK_THAT(e.b == W->blocks[count_before + n_new].size, "new-block hook got size {}", e.b);
            }
            ++n_new;
        } else if (g_mode == A08) {
            pbt::fail("unexpected lifecycle hook during an allocation");
        }
        if (g_mode == A08) {
            void* expect = W->opt.on_arena_init != nullptr && W->has_cookie ? &W->cookie_obj : nullptr;
            CHECK_THAT(e.cookie == expect, "hook got the wrong cookie");
        }
    }
    if (W->opt.on_arena_allocation != nullptr) {
        if (success && g_mode == A08) CHECK_THAT(n_alloc == 1, "{} allocation events for one allocation", n_alloc);
        if (!success) CHECK_THAT(n_alloc == 0, "a failed allocation was reported to the allocation hook");
    }
    if (W->opt.on_arena_newblock != nullptr && g_mode == A08) {
        CHECK_THAT(n_new == W->allocs_in_op, "{} new-block events for {} blocks", n_new, W->allocs_in_op);
    }
}

uint64_t gen_bytes(Source& s) {
    const auto& o = W->opt;
    uint64_t rem = W->blocks.empty() ? o.suggested_init_block_size - std::min<uint64_t>(o.suggested_init_block_size, 32)
                                     : unused(W->blocks.back());
    uint64_t v = 0;
    if (W->giant && s.chance(1, 3)) {
        const uint64_t big = s.pick<uint64_t>({1ULL << 31U, 1ULL << 32U, 1ULL << 32U, 1ULL << 33U, 5ULL << 31U});
        return s.coin() ? big + s.below(600) : s.near({big, big - 32, big + rem}, 40, 1ULL << 35U);
    }
    switch (s.weighted({5, 5, 2, 2, 1, 1, 1})) {
        case 0: v = s.below(65); break;
        case 1: v = s.near({rem, rem >= 16 ? rem - 16 : 0, rem >= 32 ? rem - 32 : 0}, 10, 1U << 20U); break;
        case 2: v = s.near({o.normal_block_size, o.normal_block_size - 32}, 40, 1U << 20U); break;
        case 3: v = s.below(std::min<uint64_t>(o.normal_block_size, 600)); break;
        case 4: v = s.near({o.huge_block_size / 4, o.huge_block_size / 4 - std::min<uint64_t>(32, o.huge_block_size / 4)}, 40, 1U << 20U); break;
        case 5: v = s.near({o.huge_block_size, o.huge_block_size - 32}, 40, 1U << 20U); break;
        default: v = s.below(2 * o.huge_block_size); break;
    }
    return v;
}

// value near the end of the 64-bit range
uint64_t gen_absurd(Source& s) {
    switch (s.below(4)) {
        case 0: return ~0ULL - s.below(80);
        case 1: return (1ULL << 63U) + s.below(64) - 32;
        case 2: return ~0ULL - s.below(1U << 16U);
        default: return (1ULL << s.range(25, 63)) + s.below(100);
    }
}

struct Snapshot {
    uint64_t space;
    uint64_t nblocks;
    uint64_t pend;
    int64_t objs;
};
Snapshot snap() {
    if (g_mode != A04) return {};
    return {W->a->SpaceAllocated(), W->blocks.size(), W->a->cleanups(), W->objects_alive};
}

void after_failure(const Snapshot& b) {
    pbt::label("op-failed");
    pbt::nontrivial();
    for (auto& x : W->blocks) x.exact = false;
    if (g_mode == A04) {
        CHECK_THAT(W->a->cleanups() == b.pend, "a failed call left a cleanup pending");
        CHECK_THAT(W->objects_alive == b.objs, "a failed Create left an object constructed and never destroyed");
        CHECK_THAT(W->a->SpaceAllocated() == held(), "space figure {} after a failure, blocks hold {}",
                   W->a->SpaceAllocated(), held());
        verify_all();
    }
    if (g_mode == A02) CHECK_THAT(W->a->cleanups() == W->pending.size(), "a failed call left a cleanup pending");
}

template <typename T>
void do_create(uint64_t arg_id, bool needs_dtor) {
    auto b = snap();
    std::vector<Blk> before = W->blocks;
    std::optional<Blk> nb = before.empty() ? std::nullopt : std::optional<Blk>(before.back());
    bool nb_exact = all_exact();
    if (needs_dtor) W->provisional = arg_id;  // a failing Create may destroy the constructed object again
    T* p = nullptr;
    if constexpr (std::is_constructible_v<T, uint64_t> && !std::is_trivial_v<T>) {
        p = W->a->template Create<T>(arg_id);
    } else {
        p = W->a->template Create<T>();
    }
    W->provisional = 0;
    pbt::log("Create<{} bytes, dtor={}>(#{}) -> {}", sizeof(T), needs_dtor, arg_id, p != nullptr ? "ok" : "null");
    check_alloc_event(&typeid(T), sizeof(T), p != nullptr);
    if (p == nullptr) {
        after_failure(b);
        if (g_mode == A04 || g_mode == A01) CHECK_THAT(W->alloc_calls > W->allocs_in_op, "Create returned null without any allocator failure");
        return;
    }
    note_alloc(reinterpret_cast<char*>(p), sizeof(T), std::max<uint64_t>(8, alignof(T)), false);
    if (needs_dtor) note_cleanup(arg_id, p);
    if (g_mode == A09 && nb_exact) check_policy({sizeof(T), std::max<uint64_t>(8, alignof(T)), true, needs_dtor}, before, nb);
}

void do_create_greedy(uint64_t id, uint64_t n1, uint64_t n2) {
    auto b = snap();
    W->provisional = id;
    Greedy::got.clear();
    auto* p = W->a->Create<Greedy>(id, n1, n2);
    W->provisional = 0;
    pbt::log("Create<Greedy>(#{}, {}, {}) -> {}", id, n1, n2, p != nullptr ? "ok" : "null");
    check_alloc_event(&typeid(Greedy), sizeof(Greedy), p != nullptr);
    if (p == nullptr) {
        pbt::label("construction failed");
        after_failure(b);
        CHECK_THAT(n2 > W->max_block || W->alloc_calls > W->allocs_in_op, "Create returned null without any allocator failure");
        return;
    }
    note_alloc(reinterpret_cast<char*>(p), sizeof(Greedy), 8, false);
    for (auto& [q, n] : Greedy::got) note_alloc(q, n, 8, true);
    note_cleanup(id, p);
}

void op_alloc(uint64_t n, uint64_t al, bool default_align, const std::vector<Blk>& before) {
    auto& w = *W;
    std::optional<Blk> nb = before.empty() ? std::nullopt : std::optional<Blk>(before.back());
    bool exact = g_mode == A09 && all_exact();
    auto b = snap();
    char* p = al == 8 && default_align ? w.a->AllocateAligned(n) : w.a->AllocateAligned(n, al);
    pbt::log("AllocateAligned({}, {}) -> {}", n, al, p != nullptr ? "ok" : "null");
    check_alloc_event(nullptr, n, p != nullptr);
    if (al > 8) pbt::label("overaligned-alloc");
    if (p == nullptr) {
        if (g_mode == A04 || g_mode == A01) CHECK_THAT(w.alloc_calls > w.allocs_in_op, "null although no block allocation failed");
        after_failure(b);
    } else {
        if (w.allocs_in_op > 0 && !before.empty()) {
            pbt::label("block-switch");
            if (g_mode == A01 || g_mode == A09 || g_mode == A08) pbt::nontrivial();
        }
        note_alloc(p, n, al, true);
        if (exact) check_policy({n, al, true, false}, before, nb);
    }
}

void op_alloc_cleanup(uint64_t n, bool with_elem, const std::vector<Blk>& before) {
    auto& w = *W;
    std::optional<Blk> nb = before.empty() ? std::nullopt : std::optional<Blk>(before.back());
    bool exact = g_mode == A09 && all_exact();
    uint64_t id = g_next_id++;
    void* elem = nullptr;
    if (with_elem) {
        g_elems.push_back(std::make_unique<uint64_t>(id));
        elem = g_elems.back().get();
    }
    // with a null element the callback receives the allocation itself; it must be unique, so
    // at least one byte is requested then
    if (elem == nullptr && n == 0) n = 1;
    auto b = snap();
    char* p = w.a->AllocateAlignedAndAddCleanup(n, &raw_cleanup, elem);
    pbt::log("AllocateAlignedAndAddCleanup({}, elem={}) #{} -> {}", n, elem != nullptr, id, p != nullptr ? "ok" : "null");
    check_alloc_event(nullptr, n, p != nullptr);
    if (p == nullptr) {
        after_failure(b);
    } else {
        note_alloc(p, n, 8, true);
        note_cleanup(id, elem != nullptr ? elem : p);
        if (exact) check_policy({n, 8, true, true}, before, nb);
    }
}

void op_own(const std::vector<Blk>& before) {
    auto& w = *W;
    std::optional<Blk> nb = before.empty() ? std::nullopt : std::optional<Blk>(before.back());
    bool exact = g_mode == A09 && all_exact();
    uint64_t id = g_next_id++;
    auto obj = std::make_unique<Ownable>(id);
    auto b = snap();
    bool ok = w.a->Own(obj.get());
    pbt::log("Own(#{}) -> {}", id, ok);
    if (ok) {
        note_cleanup(id, obj.release());
        if (exact) check_policy({0, 8, false, true}, before, nb);
    } else {
        after_failure(b);
        // the caller still owns it
        w.provisional = id;
        obj.reset();
        w.provisional = 0;
    }
}

// A cleanup that runs during Reset() or the destruction uses the arena, as an object that allocates from it may:
// what it registers is pending and newer than everything else.
void reenter() {
    auto& w = *W;
    uint64_t kind = w.reenter_kinds % 6;
    w.reenter_kinds /= 6;
    uint64_t n = w.reenter_size;
    pbt::log("  a running cleanup uses the arena ({})", kind);
    pbt::label("cleanup-uses-arena");
    ++w.reentered;
    auto managed = [&]<typename T>(T*) {
        uint64_t id = g_next_id++;
        w.provisional = id;
        T* p = w.a->template Create<T>(id);
        w.provisional = 0;
        if (p == nullptr) return;
        note_alloc(reinterpret_cast<char*>(p), sizeof(T), std::max<uint64_t>(8, alignof(T)), false);
        note_cleanup(id, p);
    };
    switch (kind) {
        case 0:
        case 1:
            for (uint64_t i = 0; i <= kind; ++i) {
                uint64_t id = g_next_id++;
                auto obj = std::make_unique<Ownable>(id);
                if (w.a->Own(obj.get())) {
                    note_cleanup(id, obj.release());
                } else {
                    w.provisional = id;
                    obj.reset();
                    w.provisional = 0;
                }
            }
            break;
        case 2: {
            uint64_t id = g_next_id++;
            g_elems.push_back(std::make_unique<uint64_t>(id));
            void* elem = g_elems.back().get();
            char* p = w.a->AllocateAlignedAndAddCleanup(n, &raw_cleanup, elem);
            if (p == nullptr) break;
            note_alloc(p, n, 8, true);
            note_cleanup(id, elem);
            break;
        }
        case 3: managed(static_cast<Managed<8>*>(nullptr)); break;
        case 4:
            managed(static_cast<Managed<64>*>(nullptr));
            [[fallthrough]];
        default: {
            char* p = w.a->AllocateAligned(n);
            if (p != nullptr) note_alloc(p, n, 8, true);
            break;
        }
    }
}
void plan_reenter(Source& s) {
    auto& w = *W;
    w.reentered = 0;
    w.reenter_left = 0;
    if (g_mode != A01 && g_mode != A02 && g_mode != A03) return;
    if (!s.chance(1, 3)) return;
    w.reenter_left = s.range(1, 8);
    w.reenter_every = s.chance(1, 2) ? 1 : s.range(1, 5);
    w.reenter_kinds = s.below(1679616);  // 6^8
    w.reenter_size = s.chance(1, 3) ? w.opt.normal_block_size + s.below(64) : s.below(100);
}

// A long run of the same operation: many blocks, many cleanup records, many allocations in one block.
void op_burst(Source& s) {
    auto& w = *W;
    uint64_t kind = s.below(5);
    uint64_t count = s.chance(1, 3) ? s.range(250, 270) : s.range(100, 3000);
    if (kind == 0 && (g_mode == A02 || g_mode == A03) && s.chance(1, 40)) count = s.range(65530, 66000);
    if (g_mode == A09) count = std::min<uint64_t>(count, 1000);
    uint64_t n = kind == 1 ? s.below(40) : kind == 2 ? s.below(40) : 0;
    if (kind == 3) n = w.opt.normal_block_size - std::min<uint64_t>(w.opt.normal_block_size, 40) + s.below(16);
    pbt::log("burst of {} operations of kind {} ({} bytes)", count, kind, n);
    pbt::label("burst");
    if (count > 60000) pbt::label("burst-65536");
    std::vector<Blk> before;
    std::vector<Blk> none;
    bool one = pbt::g_quiet;
    pbt::g_quiet = true;
    for (uint64_t i = 0; i < count; ++i) {
        g_ev_mark = w.events.size();
        begin_op();
        if (g_mode == A09) before = w.blocks;
        switch (kind) {
            case 0: op_own(before); break;
            case 1: op_alloc(n, 8, true, before); break;
            case 2: op_alloc_cleanup(n, i % 2 == 0, before); break;
            case 3: op_alloc(n, 8, false, before); break;  // about one block each
            default: {
                uint64_t id = g_next_id++;
                if (i % 2 == 0) {
                    do_create<Managed<64>>(id, true);
                } else {
                    do_create<Pod>(0, false);
                }
                break;
            }
        }
    }
    pbt::g_quiet = one;
    if (w.blocks.size() > 255) pbt::label("blocks>255");
    if (w.blocks.size() > 1 && w.pending.size() > 255) pbt::label("cleanups>255");
    begin_op();
    g_ev_mark = w.events.size();
}

// A second arena living next to the one under test, with blocks of its own.
struct Sibling {
    static inline uint64_t bytes = 0;
    static inline uint64_t ran = 0;
    static void* balloc(std::size_t n) {
        auto* p = static_cast<uint64_t*>(malloc(n + 16));
        if (p == nullptr) return nullptr;
        p[0] = n;
        bytes += n;
        return reinterpret_cast<char*>(p) + 16;
    }
    static void bdealloc(void* p) {
        auto* q = reinterpret_cast<uint64_t*>(static_cast<char*>(p) - 16);
        bytes -= q[0];
        free(q);
    }
    static void clean(void* p) { ran += *static_cast<uint64_t*>(p); }
    std::optional<Arena> a;
    uint64_t registered = 0;
    std::vector<std::pair<char*, uint64_t>> live;

    explicit Sibling(Source& s) {
        bytes = 0;
        ran = 0;
        Arena::Options o;
        o.normal_block_size = 64ULL << s.below(4);
        o.huge_block_size = o.normal_block_size << s.below(4);
        o.suggested_init_block_size = o.normal_block_size;
        o.block_alloc = &balloc;
        o.block_dealloc = &bdealloc;
        o.logger_func = &quiet_logger;
        a.emplace(o);
        pbt::label("sibling-arena");
    }
    void contents() {
        if (g_mode != A01) return;
        for (auto& [p, n] : live) {
            for (uint64_t i = 0; i < n; ++i) CHECK_THAT(p[i] == static_cast<char>(n), "memory of another arena changed");
        }
    }
    void step(Source& s) {
        switch (s.below(5)) {
            case 0:
            case 1: {
                uint64_t n = s.below(200);
                pbt::log("  another arena: AllocateAligned({})", n);
                char* p = a->AllocateAligned(n);
                CHECK_THAT(p != nullptr || (g_mode != A01 && g_mode != A04), "another arena failed to allocate {} bytes", n);
                if (p == nullptr) break;
                memset(p, static_cast<char>(n), n);
                if (g_mode == A05) {
                    CHECK_THAT(W->a->check(p) == ArenaContainStatus::NotContain, "memory of another arena classified as contained");
                    CHECK_THAT(n == 0 || a->check(p) == ArenaContainStatus::BlockUsed, "memory of another arena not found there");
                }
                live.emplace_back(p, n);
                break;
            }
            case 2:
            case 3: {
                auto* v = reinterpret_cast<uint64_t*>(a->AllocateAlignedAndAddCleanup(8, &clean, nullptr));
                pbt::log("  another arena: cleanup #{} registered", registered + 1);
                if (v != nullptr) {
                    *v = 1;
                    ++registered;
                }
                break;
            }
            default: {
                pbt::log("  another arena: Reset()");
                contents();
                uint64_t before = bytes;
                uint64_t r = a->Reset();
                if (g_mode == A03) CHECK_THAT(r == before, "Reset() of another arena returned {}, it held {}", r, before);
                if (g_mode == A02) CHECK_THAT(ran == registered, "{} of {} cleanups of another arena ran", ran, registered);
                live.clear();
                break;
            }
        }
        if (g_mode == A03) CHECK_THAT(a->SpaceAllocated() == bytes, "another arena reports {} bytes, holds {}", a->SpaceAllocated(), bytes);
    }
    ~Sibling() = default;
    void finish() {
        contents();
        a.reset();
        if (g_mode == A02) CHECK_THAT(ran == registered, "{} of {} cleanups of another arena ran", ran, registered);
        if (g_mode == A03) CHECK_THAT(bytes == 0, "another arena kept {} bytes", bytes);
    }
};

void probe_check(Source& s) {
    // probe addresses around every block
    auto expect_cls = [&](Blk& b, uint64_t off) -> int {
        if (off < kBlockHeaderSize) return static_cast<int>(ArenaContainStatus::BlockHeader);
        if (off >= b.size - b.cleanups * kCleanupNodeSize) return static_cast<int>(ArenaContainStatus::BlockCleanup);
        if (off >= b.used_hi) return static_cast<int>(ArenaContainStatus::BlockUnUsed);
        return static_cast<int>(ArenaContainStatus::BlockUsed);
    };
    auto one = [&](Blk& b, uint64_t off) {
        int got = static_cast<int>(W->a->check(b.addr + off));
        int exp = expect_cls(b, off);
        pbt::label("probe-in-block");
        if (!b.exact && (exp == 3 || exp == 4)) {
            CHECK_THAT(got == 3 || got == 4, "offset {} of a {}-byte block classified {}", off, b.size, got);
            return;
        }
        // a byte of alignment padding between allocations is not specified
        if (exp == 3) {
            bool in_live = false;
            for (auto& l : W->live) in_live = in_live || (b.addr + off >= l.p && b.addr + off < l.p + l.n);
            if (!in_live && got == 4) {
                return;
            }
        }
        CHECK_THAT(got == exp, "offset {} of a {}-byte block (used up to {}, {} cleanups) classified {} instead of {}", off,
                   b.size, b.used_hi, b.cleanups, got, exp);
    };
    // after a long run of operations only some of the blocks and allocations are looked at
    const size_t bstep = 1 + W->blocks.size() / 60;
    for (size_t bi = bstep > 1 ? s.below(bstep) : 0; bi < W->blocks.size(); bi += bstep) {
        Blk& b = W->blocks[bi];
        uint64_t lim = b.size - b.cleanups * kCleanupNodeSize;
        for (uint64_t off : {uint64_t{0}, kBlockHeaderSize - 1, uint64_t{kBlockHeaderSize}, b.used_hi - 1, b.used_hi, b.used_hi + 1,
                             lim - 1, lim, lim + 1, b.size - 1}) {
            if (off < b.size) one(b, off);
        }
        for (int i = 0; i < 4; ++i) one(b, s.below(b.size));
        // outside
        for (const char* q : {b.addr + b.size, b.addr - 1, b.addr + b.size + s.below(64)}) {
            if (block_of(q) == nullptr) {
                CHECK_THAT(W->a->check(q) == ArenaContainStatus::NotContain, "address just outside a block classified as contained");
                pbt::label("probe-outside");
            }
        }
    }
    const size_t lstep = 1 + W->live.size() / 100;
    for (size_t li = 0; li < W->live.size(); li += lstep) {
        Live& l = W->live[li];
        if (l.n == 0) continue;
        for (uint64_t i : {uint64_t{0}, l.n - 1, l.n / 2}) {
            CHECK_THAT(W->a->check(l.p + i) == ArenaContainStatus::BlockUsed, "byte {} of a live {}-byte allocation not reported as used", i, l.n);
        }
    }
    const size_t fstep = 1 + W->freed_ranges.size() / 100;
    for (size_t fi = 0; fi < W->freed_ranges.size(); fi += fstep) {
        auto [p, n] = W->freed_ranges[fi];
        for (const char* q : {p, p + n / 2, p + n - 1}) {
            if (block_of(q) == nullptr) {
                CHECK_THAT(W->a->check(q) == ArenaContainStatus::NotContain, "address in a returned block classified as contained");
                pbt::label("probe-returned-block");
            }
        }
    }
    int on_stack = 0;
    CHECK_THAT(W->a->check(reinterpret_cast<char*>(&on_stack)) == ArenaContainStatus::NotContain, "stack address contained");
    CHECK_THAT(W->a->check(reinterpret_cast<char*>(W)) == ArenaContainStatus::NotContain, "foreign heap address contained");
    CHECK_THAT(W->a->check(nullptr) == ArenaContainStatus::NotContain, "null contained");
    if (W->blocks.size() > 1 && !W->pending.empty()) pbt::nontrivial();
}

void check_space(bool may_be_inexact) {
    CHECK_THAT(W->a->SpaceAllocated() == held(), "SpaceAllocated() = {}, blocks held = {} bytes in {} blocks",
               W->a->SpaceAllocated(), held(), W->blocks.size());
    CHECK_THAT(W->a->cleanups() == W->pending.size(), "cleanups() = {}, {} registrations are pending", W->a->cleanups(),
               W->pending.size());
    uint64_t rem = W->a->SpaceRemains();
    if (W->blocks.empty()) {
        CHECK_THAT(rem == 0, "SpaceRemains() = {} without any block", rem);
    } else if (W->blocks.back().exact) {
        CHECK_THAT(rem == unused(W->blocks.back()), "SpaceRemains() = {}, the newest block has {} unused bytes", rem,
                   unused(W->blocks.back()));
    } else {
        CHECK_THAT(rem <= unused(W->blocks.back()), "SpaceRemains() = {} exceeds the {} unused bytes", rem,
                   unused(W->blocks.back()));
        // a failed call may have consumed space: continue from the reported value
        W->blocks.back().used_hi = W->blocks.back().size - W->blocks.back().cleanups * kCleanupNodeSize - rem;
        W->blocks.back().exact = true;
    }
    (void)may_be_inexact;
}

void model_reset_state() {
    // after Reset(): only the first block is left and it is empty
    W->live.clear();
    if (!W->blocks.empty()) {
        W->blocks[0].used_hi = kBlockHeaderSize;
        W->blocks[0].cleanups = 0;
        W->blocks[0].exact = true;
    }
}

void op_reset(Source& s) {
    auto& w = *W;
    plan_reenter(s);
    size_t nblocks = w.blocks.size();
    uint64_t before = held();
    uint64_t waste = unused_all();
    bool exact = all_exact();
    char* first = nblocks > 0 ? w.blocks[0].addr : nullptr;
    uint64_t npend = w.pending.size();
    pbt::log("Reset() [{} blocks, {} cleanups]", nblocks, npend);
    if (nblocks > 1) pbt::label("reset-multiblock");
    if (npend > 0) pbt::label("reset-with-cleanups");
    if (nblocks == 0) pbt::label("reset-empty");
    if (nblocks > 1 && npend > 1) pbt::nontrivial();
    if (g_mode == A01) verify_all();
    w.tearing = true;
    w.any_dealloc = false;
    uint64_t r = w.a->Reset();
    w.tearing = false;
    if (g_mode == A02) {
        CHECK_THAT(w.pending.empty(), "{} cleanups were not run by Reset()", w.pending.size());
    }
    if (g_mode == A03) {
        if (w.reentered == 0) CHECK_THAT(r == before, "Reset() returned {}, the arena held {}", r, before);
        CHECK_THAT(w.blocks.size() == std::min<size_t>(nblocks, 1), "{} blocks held after Reset()", w.blocks.size());
        if (nblocks > 0) CHECK_THAT(w.blocks[0].addr == first, "Reset() did not keep the first block");
    }
    if (g_mode == A08) {
        size_t n = 0;
        for (size_t i = g_ev_mark; i < w.events.size(); ++i) {
            auto& e = w.events[i];
            if (e.kind == HookEv::RESET) {
                ++n;
                CHECK_THAT(e.arena == w.a, "reset hook got another arena");
                CHECK_THAT(e.a == before, "reset hook: {} bytes held, really {}", e.a, before);
                if (exact) CHECK_THAT(e.b == waste, "reset hook: {} bytes unused, really {}", e.b, waste);
                CHECK_THAT(e.cookie == (w.opt.on_arena_init != nullptr && w.has_cookie ? &w.cookie_obj : nullptr), "wrong cookie");
            } else {
                pbt::fail("unexpected hook during Reset()");
            }
        }
        if (w.opt.on_arena_reset != nullptr) CHECK_THAT(n == 1, "{} reset events for one reset", n);
    }
    if (g_mode != A02) w.pending.clear();
    model_reset_state();
}

void destroy_arena(Source& s) {
    auto& w = *W;
    plan_reenter(s);
    pbt::log("~Arena() [{} blocks, {} cleanups]", w.blocks.size(), w.pending.size());
    if (w.blocks.size() > 1 && w.pending.size() > 1) pbt::label("destroy-multiblock-cleanups");
    uint64_t before = held();
    uint64_t waste = unused_all();
    bool exact = all_exact();
    Arena* self = w.a;
    if (g_mode == A01) verify_all();
    w.tearing = true;
    w.any_dealloc = false;
    size_t mark = w.events.size();
    w.a->~Arena();
    w.tearing = false;
    if (g_mode == A02) CHECK_THAT(w.pending.empty(), "{} cleanups were not run by the destructor", w.pending.size());
    if (g_mode == A03) CHECK_THAT(w.blocks.empty(), "{} blocks were never returned", w.blocks.size());
    if (g_mode == A08) {
        size_t n = 0;
        for (size_t i = mark; i < w.events.size(); ++i) {
            auto& e = w.events[i];
            CHECK_THAT(e.kind == HookEv::DESTROY, "unexpected hook during destruction");
            ++n;
            CHECK_THAT(e.arena == self, "destruction hook got another arena");
            CHECK_THAT(e.a == before, "destruction hook: {} bytes held, really {}", e.a, before);
            if (exact) CHECK_THAT(e.b == waste, "destruction hook: {} bytes unused, really {}", e.b, waste);
            CHECK_THAT(e.cookie == (w.opt.on_arena_init != nullptr && w.has_cookie ? &w.cookie_obj : nullptr), "wrong cookie");
        }
        if (w.opt.on_arena_destruction != nullptr) CHECK_THAT(n == 1, "{} destruction events for one arena", n);
    }
    w.a = nullptr;
}

void prop(Source& s) {
    auto world = std::make_unique<World>();
    W = world.get();
    g_elems.clear();
    g_next_id = 1;
    // configuration
    auto& o = W->opt;
    o.normal_block_size = 64ULL << s.below(6);
    if (g_mode == A09 || s.chance(1, 8)) o.normal_block_size = 8 * s.range(8, 256);
    o.huge_block_size = o.normal_block_size << s.below(6);
    o.suggested_init_block_size = s.pick<uint64_t>({64, 128, 256, 512, 1024, 4096}) + 8 * s.below(3);
    if (s.chance(1, 25)) {  // blocks with room for next to nothing
        o.normal_block_size = 8 * s.range(5, 8);
        if (s.coin()) o.huge_block_size = o.normal_block_size << s.below(4);
        if (s.coin()) o.suggested_init_block_size = 8 * s.range(5, 8);
    }
    o.block_alloc = &h_block_alloc;
    o.block_dealloc = &h_block_dealloc;
    o.logger_func = &quiet_logger;
    W->shift_bits = s.below(1U << 16U);
    W->has_cookie = s.coin();
    W->giant = g_mode != A04 && s.chance(1, 60);
    if (W->giant) {
        pbt::label("more than 4 GB");
        W->max_block = 1ULL << 36U;
        switch (s.below(5)) {
            case 0: o.huge_block_size = (1ULL << 32U) + 64 * s.below(20); break;
            case 1: o.huge_block_size = 1ULL << 34U; break;
            case 2:
                o.normal_block_size = (1ULL << 32U) + 64 * s.below(20);
                o.huge_block_size = o.normal_block_size * 4;
                break;
            case 3: o.suggested_init_block_size = (1ULL << 32U) + 8 * s.below(60); break;
            default: break;
        }
    }
    uint64_t hooks = hooks_on() ? s.below(32) ^ 31U : 0;
    if ((hooks & 1U) != 0) o.on_arena_init = &h_init;
    if ((hooks & 2U) != 0) o.on_arena_allocation = &h_alloc;
    if ((hooks & 4U) != 0) o.on_arena_newblock = &h_newblock;
    if ((hooks & 8U) != 0) o.on_arena_reset = &h_reset;
    if ((hooks & 16U) != 0) o.on_arena_destruction = &h_destroy;
    pbt::log("Arena(normal={}, huge={}, suggested={}, hooks={:#x})", o.normal_block_size, o.huge_block_size,
             o.suggested_init_block_size, hooks);
    {
        Arena::Options copy = o;
        if (s.coin()) {
            W->a = new (W->storage[0]) Arena(copy);
        } else {
            W->a = new (W->storage[0]) Arena(std::move(copy));
        }
    }
    if (g_mode == A08) {
        size_t want = o.on_arena_init != nullptr ? 1 : 0;
        CHECK_THAT(W->events.size() == want, "{} hook events at construction", W->events.size());
        if (want == 1) CHECK_THAT(W->events[0].kind == HookEv::INIT && W->events[0].arena == W->a, "wrong init event");
    }
    if (g_mode == A03) check_space(false);
    const bool faults = g_mode == A04 || g_mode == A03 || (g_mode == A02 && s.chance(1, 3)) ||
                        ((g_mode == A08 || g_mode == A09) && s.chance(1, 5));
    const bool absurd = g_mode == A04;
    const bool moves = g_mode != A04 && g_mode != A09 && s.coin();
    std::optional<Sibling> sib;
    if (s.chance(1, 5)) sib.emplace(s);
    const bool burst = s.chance(1, 400) && !W->giant;
    if (s.chance(1, 40)) {
        s.set_len(0, 3);   // also arenas that are destroyed before they ever held a block
    } else {
        s.set_len(3, 60);
    }
    while (s.next_op()) {
        auto& w = *W;
        if (sib && s.chance(1, 3)) {
            g_ev_mark = w.events.size();
            sib->step(s);
            if (g_mode == A08) CHECK_THAT(w.events.size() == g_ev_mark, "using another arena triggered this arena's hooks");
        }
        if (burst && s.chance(1, 12)) op_burst(s);
        g_ev_mark = w.events.size();
        begin_op();
        std::vector<Blk> before = w.blocks;
        std::optional<Blk> nb = before.empty() ? std::nullopt : std::optional<Blk>(before.back());
        bool exact = all_exact();
        if (faults && w.fail_after == 0 && s.chance(1, 4)) {
            w.fail_after = s.range(1, 2);
            w.fail_more = s.chance(1, 3) ? s.range(1, 3) : 0;
            pbt::log("fault: block allocation #{} from now fails ({} more)", w.fail_after, w.fail_more);
        }
        unsigned wc = (g_mode == A02) ? 10 : 5;   // cleanup-registering operations
        unsigned wr = (g_mode == A02 || g_mode == A03 || g_mode == A08) ? 3 : 2;
        switch (s.weighted({10, wc, wc, wc, 4, 3, 3, wr, moves ? 2U : 0U, absurd ? 4U : 0U, 3})) {
            case 0: {  // raw aligned allocation
                uint64_t n = gen_bytes(s);
                uint64_t al = s.pick<uint64_t>({8, 8, 16, 32});
                op_alloc(n, al, al == 8 && s.coin(), before);
                break;
            }
            case 1: {  // allocation with cleanup
                uint64_t n = gen_bytes(s);
                op_alloc_cleanup(n, s.coin(), before);
                break;
            }
            case 2: op_own(before); break;
            case 3: {  // managed objects
                uint64_t id = g_next_id++;
                if (g_mode == A04 && s.chance(1, 3)) {
                    const uint64_t n1 = gen_bytes(s);
                    do_create_greedy(id, n1, s.coin() ? gen_absurd(s) : gen_bytes(s));
                    break;
                }
                switch (s.below(3)) {
                    case 0: do_create<Managed<1>>(id, true); break;
                    case 1: do_create<Managed<64>>(id, true); break;
                    default: do_create<Managed<200>>(id, true); break;
                }
                break;
            }
            case 4: {
                uint64_t id = g_next_id++;
                if (s.coin()) {
                    do_create<CreateOnly>(id, false);
                } else {
                    do_create<BothTags>(id, false);
                }
                break;
            }
            case 5: {
                switch (s.below(6)) {
                    case 4: do_create<Wide16>(0, false); break;
                    case 5: do_create<Wide32>(0, false); break;
                    case 0: do_create<Pod>(0, false); break;
                    case 1: do_create<PodTag>(0, false); break;
                    case 2: do_create<Over16>(0, false); break;
                    default: do_create<Over32>(0, false); break;
                }
                break;
            }
            case 6: {  // arrays
                uint64_t n = s.chance(1, 4) ? s.below(200) : s.below(20);
                auto b = snap();
                auto arr = [&]<typename T>(T*) {
                    T* p = w.a->template CreateArray<T>(n);
                    pbt::log("CreateArray<{} bytes>({}) -> {}", sizeof(T), n, p != nullptr ? "ok" : "null");
                    check_alloc_event(&typeid(T), sizeof(T) * n, p != nullptr);
                    if (p == nullptr) {
                        if (g_mode == A04 || g_mode == A01) CHECK_THAT(w.alloc_calls > w.allocs_in_op, "CreateArray of {} elements returned null without any allocator failure", n);
                        after_failure(b);
                    } else {
                        note_alloc(reinterpret_cast<char*>(p), sizeof(T) * n, std::max<uint64_t>(8, alignof(T)), true);
                        if (g_mode == A09 && exact) check_policy({sizeof(T) * n, std::max<uint64_t>(8, alignof(T)), true, false}, before, nb);
                    }
                };
                switch (s.below(6)) {
                    case 4: arr(static_cast<Twelve*>(nullptr)); break;
                    case 5: arr(static_cast<Wide32*>(nullptr)); break;
                    case 0: arr(static_cast<char*>(nullptr)); break;
                    case 1: arr(static_cast<uint64_t*>(nullptr)); break;
                    case 2: arr(static_cast<Pod*>(nullptr)); break;
                    default: arr(static_cast<Over16*>(nullptr)); break;
                }
                break;
            }
            case 7: op_reset(s); break;
            case 8: {  // move the arena
                pbt::log("move the arena");
                pbt::label("arena-moved");
                int ns = 1 - w.cur_slot;
                auto* to = new (w.storage[ns]) Arena(std::move(*w.a));
                if (g_mode == A03) {
                    CHECK_THAT(w.a->SpaceAllocated() == 0, "a moved-from arena reports {} bytes", w.a->SpaceAllocated());
                    CHECK_THAT(w.a->cleanups() == 0, "a moved-from arena has cleanups");
                }
                if (g_mode == A05) {
                    for (auto& b : w.blocks) {
                        CHECK_THAT(w.a->check(b.addr + b.size / 2) == ArenaContainStatus::NotContain, "a moved-from arena claims a block");
                    }
                }
                Arena* old = w.a;
                w.a = to;
                w.cur_slot = ns;
                size_t nblocks = w.blocks.size();
                size_t npend = w.pending.size();
                old->~Arena();
                if (g_mode == A03 || g_mode == A01) CHECK_THAT(w.blocks.size() == nblocks, "destroying a moved-from arena returned blocks");
                if (g_mode == A02) CHECK_THAT(w.pending.size() == npend, "destroying a moved-from arena ran cleanups");
                if (g_mode == A08) CHECK_THAT(w.events.size() == g_ev_mark, "moving an arena or destroying the moved-from one triggered hooks");
                if (g_mode == A03 || g_mode == A08) pbt::nontrivial();
                break;
            }
            case 9: {  // sizes that cannot be satisfied
                uint64_t n = gen_absurd(s);
                auto b = snap();
                pbt::label("absurd-size");
                switch (s.below(4)) {
                    case 0:
                    case 1: {
                        uint64_t al = s.pick<uint64_t>({8, 16, 32});
                        char* p = w.a->AllocateAligned(n, al);
                        pbt::log("AllocateAligned({}, {}) -> {}", n, al, p != nullptr ? "NON-NULL" : "null");
                        CHECK_THAT(p == nullptr, "AllocateAligned({}, {}) returned a pointer", n, al);
                        check_alloc_event(nullptr, n, false);
                        break;
                    }
                    case 2: {
                        char* p = w.a->AllocateAlignedAndAddCleanup(n, &raw_cleanup, nullptr);
                        pbt::log("AllocateAlignedAndAddCleanup({}) -> {}", n, p != nullptr ? "NON-NULL" : "null");
                        CHECK_THAT(p == nullptr, "AllocateAlignedAndAddCleanup({}) returned a pointer", n);
                        check_alloc_event(nullptr, n, false);
                        break;
                    }
                    default: {
                        // element counts whose byte size overflows or is enormous
                        auto arr = [&]<typename T>(T*) {
                            uint64_t cnt = s.coin() || sizeof(T) == 1 ? n : (~0ULL / sizeof(T)) + 1 + s.below(40);
                            T* p = w.a->CreateArray<T>(cnt);
                            pbt::log("CreateArray<{} bytes>({}) -> {}", sizeof(T), cnt, p != nullptr ? "NON-NULL" : "null");
                            CHECK_THAT(p == nullptr, "CreateArray of {} elements of {} bytes returned a pointer", cnt, sizeof(T));
                            check_alloc_event(&typeid(T), 0, false);
                        };
                        switch (s.below(6)) {
                            case 0: arr(static_cast<char*>(nullptr)); break;
                            case 1: arr(static_cast<uint16_t*>(nullptr)); break;
                            case 2: arr(static_cast<uint32_t*>(nullptr)); break;
                            case 3: arr(static_cast<Twelve*>(nullptr)); break;
                            case 4: arr(static_cast<Wide32*>(nullptr)); break;
                            default: arr(static_cast<Pod*>(nullptr));
                        }
                        break;
                    }
                }
                after_failure(b);
                break;
            }
            default: {  // queries / resource allocation
                if (g_mode == A05) {
                    probe_check(s);
                } else if (g_mode == A01 || g_mode == A03) {
                    uint64_t n = gen_bytes(s);
                    uint64_t al = s.pick<uint64_t>({1, 2, 4, 8, 16, 32});
                    auto b = snap();
                    void* p = nullptr;
                    try {
                        p = w.a->get_memory_resource()->allocate(n, al);
                    } catch (const std::bad_alloc&) {
                    }
                    pbt::log("resource.allocate({}, {}) -> {}", n, al, p != nullptr ? "ok" : "failed");
                    if (p == nullptr) {
                        after_failure(b);
                    } else {
                        note_alloc(static_cast<char*>(p), n, std::max<uint64_t>(8, al), true);
                        if (s.coin()) w.a->get_memory_resource()->deallocate(p, n, al);  // a no-op: memory stays
                    }
                }
                break;
            }
        }
        if (g_mode == A01 && (w.live_bytes < 20000 || s.chance(1, 8))) verify_all();
        if (g_mode == A03) check_space(true);
        if (g_mode == A02 && w.pending.size() > 2 && w.blocks.size() > 1) pbt::nontrivial();
        if (w.blocks.size() > 1) pbt::label("multi-block-state");
    }
    if (g_mode == A05) probe_check(s);
    const bool sib_first = sib && s.coin();
    if (sib_first) sib->finish();
    destroy_arena(s);
    if (sib && !sib_first) sib->finish();
    if (g_mode == A04 || g_mode == A02) {
        CHECK_THAT(W->objects_alive == 0, "{} managed objects were constructed but never destroyed", W->objects_alive);
    }
    g_elems.clear();
    // release what a broken arena may have kept, so that the heap balance is only about A03
    for (auto& b : W->blocks) {
        if (g_mode != A03 || b.size > kGiant) release(b);
    }
    world.reset();
    W = nullptr;
}

template <Mode M>
void run(Source& s) {
    g_mode = M;
    prop(s);
}

}  // namespace

#ifndef PBT_FUZZ
int main(int argc, char** argv) {
    return pbt::engine_main(argc, argv,
                            {{"A01", run<A01>, false},
                             {"A02", run<A02>, true},
                             {"A03", run<A03>, false},
                             {"A04", run<A04>, true},
                             {"A05", run<A05>, false},
                             {"A08", run<A08>, false},
                             {"A09", run<A09>, false}});
}
#endif
