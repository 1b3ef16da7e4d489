// A06: standard pmr containers on the arena's memory resource against the same containers on the default one.
// A07: Arena::Create / CreateArray against direct construction.
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <variant>

#include "arena/arena.hpp"
#include "pbt.hpp"

using namespace stdb::memory;
using pbt::Source;
namespace spmr = std::pmr;

namespace {

struct Blk {
    char* addr;
    uint64_t size;
    int owner;  // index of the arena slot
};
std::vector<Blk> g_blocks;
int g_current = 0;         // arena on whose behalf blocks are allocated now
uint64_t g_fail_in = 0;    // the k-th coming block allocation fails
bool g_failed = false;
uint64_t g_fail_all = 0;

void* blk_alloc(size_t n) {
    if (g_fail_all != 0 || (g_fail_in > 0 && --g_fail_in == 0)) {
        g_failed = true;
        pbt::label("fault:block_alloc");
        return nullptr;
    }
    if (n > (1U << 22U)) {
        g_failed = true;
        return nullptr;
    }
    void* p = nullptr;
    if (posix_memalign(&p, 32, n) != 0) return nullptr;
    memset(p, 0xCD, n);
    g_blocks.push_back({static_cast<char*>(p), n, g_current});
    return p;
}
void blk_free(void* p) {
    for (size_t i = 0; i < g_blocks.size(); ++i) {
        if (g_blocks[i].addr == p) {
            g_blocks.erase(g_blocks.begin() + static_cast<long>(i));
            break;
        }
    }
    free(p);
}
void quiet(const std::string&) {}

// the default resource while an operation on an arena-bound container runs: nothing may come here
struct Counting : spmr::memory_resource {
    uint64_t calls = 0;
    void* do_allocate(size_t n, size_t a) override {
        ++calls;
        return spmr::new_delete_resource()->allocate(n, a);
    }
    void do_deallocate(void* p, size_t n, size_t a) override { spmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(const spmr::memory_resource& o) const noexcept override {
        return this == &o || spmr::new_delete_resource()->is_equal(o);
    }
};
Counting g_counting;
struct Guard {
    spmr::memory_resource* old;
    uint64_t before;
    Guard() : old(spmr::set_default_resource(&g_counting)), before(g_counting.calls) {}
    ~Guard() {
        spmr::set_default_resource(old);
        CHECK_THAT(g_counting.calls == before, "a container bound to an arena allocated from the default resource");
    }
};

struct ArenaSlot {
    alignas(Arena) char st[2][sizeof(Arena)];
    int cur = 0;
    Arena* a = nullptr;
    int index = 0;
    bool moved = false;
};

void in_arena(ArenaSlot& s, const void* p, size_t n, size_t align, const char* what) {
    const char* c = static_cast<const char*>(p);
    bool in = false;
    for (auto& b : g_blocks) in = in || (b.owner == s.index && c >= b.addr && c + n <= b.addr + b.size);
    CHECK_THAT(in, "{}: storage of {} bytes is not in a block of its arena", what, n);
    CHECK_THAT(reinterpret_cast<uintptr_t>(p) % align == 0, "{}: storage is not {}-aligned", what, align);
    if (n > 0) {
        CHECK_THAT(s.a->check(c) == ArenaContainStatus::BlockUsed && s.a->check(c + n - 1) == ArenaContainStatus::BlockUsed,
                   "{}: storage is not in the used space of its arena", what);
    }
}

template <int N>
struct alignas(N) Over {
    int v = 0;
    Over() = default;
    Over(int x) : v(x) {}
    bool operator==(const Over& o) const { return v == o.v; }
};

std::string text(Source& s) {
    static const size_t lens[] = {0, 1, 3, 7, 15, 16, 17, 30, 64, 200};
    size_t n = lens[s.below(10)];
    std::string r(n, 'a');
    char c = static_cast<char>('a' + s.below(26));
    for (size_t i = 0; i < n; ++i) r[i] = static_cast<char>(c + static_cast<char>(i % 5));
    return r;
}

// value sources: the same raw value builds an element for both sides
template <typename T>
struct Val;
template <>
struct Val<int> {
    using Raw = int;
    static Raw raw(Source& s) { return static_cast<int>(s.below(1000)); }
};
template <int N>
struct Val<Over<N>> {
    using Raw = int;
    static Raw raw(Source& s) { return static_cast<int>(s.below(1000)); }
};
template <>
struct Val<char> {
    using Raw = char;
    static Raw raw(Source& s) { return static_cast<char>('a' + s.below(26)); }
};
template <>
struct Val<spmr::string> {
    using Raw = std::string;
    static Raw raw(Source& s) { return text(s); }
};

enum class R { OK, BAD_ALLOC };

struct Pair {
    ArenaSlot* slot = nullptr;
    virtual ~Pair() = default;
    virtual void op(Source& s) = 0;
    virtual void compare() = 0;
    virtual const char* name() = 0;
    virtual int kind() = 0;
    virtual void take(Pair& other, bool move) = 0;  // assignment from a pair of the same kind (any arena)
    // runs f on the arena side; bad_alloc is accepted only if a block allocation failed (and then strong says that
    // the container must be unchanged); returns whether it succeeded
    template <typename F>
    bool arena_side(F&& f) {
        g_failed = false;
        g_current = slot->index;
        Guard g;
        try {
            f();
            return true;
        } catch (const std::bad_alloc&) {
            CHECK_THAT(g_failed, "{}: bad_alloc although no block allocation failed", name());
            pbt::label("bad_alloc surfaced");
            pbt::nontrivial();
            return false;
        }
    }
};

template <typename T>
const void* sub_storage(const T&) {
    return nullptr;
}

inline bool in_object(const void* obj, size_t n, const void* p) {
    return p >= obj && p < static_cast<const char*>(obj) + n;
}
void check_string_storage(ArenaSlot& s, const spmr::string& x) {
    CHECK_THAT(x.get_allocator().resource()->is_equal(*s.a->get_memory_resource()),
               "a string stored in an arena container does not use the arena's resource");
    if (!in_object(&x, sizeof x, x.data())) in_arena(s, x.data(), x.size() + 1, 1, "characters of a string");
}
template <typename T>
void check_elem(ArenaSlot& s, const T& x) {
    in_arena(s, &x, sizeof x, alignof(T), "element");
    if constexpr (std::is_same_v<T, spmr::string>) check_string_storage(s, x);
}

bool g_grew = false;

template <typename C, int K>
struct SeqPair : Pair {
    using T = typename C::value_type;
    C m;                    // on the default resource
    std::unique_ptr<C> a;   // on the arena
    explicit SeqPair(ArenaSlot* s, Source&) {
        slot = s;
        arena_side([&] { a = std::make_unique<C>(typename C::allocator_type(s->a->get_memory_resource())); });
    }
    bool valid() { return a != nullptr; }
    int kind() override { return K; }
    const char* name() override {
        return K == 0 ? "vector<int>" : K == 1 ? "vector<Over16>" : K == 2 ? "vector<Over32>" : K == 3 ? "vector<string>" : K == 4 ? "list<string>" : K == 5 ? "deque<int>" : "seq";
    }
    static constexpr bool is_vec = requires(C& c) { c.reserve(1); c.data(); };
    static auto at(C& c, size_t i) {
        auto it = c.begin();
        std::advance(it, static_cast<long>(i));
        return it;
    }
    void op(Source& s) override {
        if (a == nullptr) return;
        switch (s.below(11)) {
            case 0:
            case 1: {
                auto v = Val<T>::raw(s);
                pbt::log("{} push_back", name());
                if (arena_side([&] { a->emplace_back(v); })) m.emplace_back(v);
                break;
            }
            case 2:
                if (!m.empty()) {
                    pbt::log("{} pop_back", name());
                    m.pop_back();
                    arena_side([&] { a->pop_back(); });
                }
                break;
            case 3: {
                size_t i = s.below(m.size() + 1);
                auto v = Val<T>::raw(s);
                pbt::log("{} insert at {}", name(), i);
                // only the basic guarantee in the middle: no faults there
                uint64_t f = std::exchange(g_fail_in, 0);
                uint64_t fa = std::exchange(g_fail_all, 0);
                if (arena_side([&] { a->emplace(at(*a, i), v); })) m.emplace(at(m, i), v);
                g_fail_in = f;
                g_fail_all = fa;
                break;
            }
            case 4:
                if (!m.empty()) {
                    size_t i = s.below(m.size());
                    size_t n = s.below(m.size() - i + 1);
                    pbt::log("{} erase {}+{}", name(), i, n);
                    m.erase(at(m, i), at(m, i + n));
                    uint64_t f = std::exchange(g_fail_in, 0);
                    uint64_t fa = std::exchange(g_fail_all, 0);
                    arena_side([&] { a->erase(at(*a, i), at(*a, i + n)); });
                    g_fail_in = f;
                    g_fail_all = fa;
                }
                break;
            case 5: {
                size_t n = s.below(60);
                pbt::log("{} resize {}", name(), n);
                if (arena_side([&] { a->resize(n); })) m.resize(n);
                break;
            }
            case 6:
                if constexpr (is_vec) {
                    size_t n = s.near({0, 8, 40, 300}, 8, 400);
                    pbt::log("{} reserve {}", name(), n);
                    if (arena_side([&] { a->reserve(n); })) m.reserve(n);
                }
                break;
            case 7: {
                pbt::log("{} copy within the arena", name());
                arena_side([&] {
                    C c(*a, a->get_allocator());
                    *a = std::move(c);
                });
                break;
            }
            case 8: {
                if constexpr (requires { a->shrink_to_fit(); }) {
                    pbt::log("{} shrink_to_fit", name());
                    arena_side([&] { a->shrink_to_fit(); });
                }
                break;
            }
            case 9:
                if (s.chance(1, 4)) {
                    pbt::log("{} clear", name());
                    m.clear();
                    arena_side([&] { a->clear(); });
                }
                break;
            default: {
                size_t n = s.below(20);
                auto v = Val<T>::raw(s);
                T mv(v);
                uint64_t f = std::exchange(g_fail_in, 0);
                uint64_t fa = std::exchange(g_fail_all, 0);
                pbt::log("{} assign {}", name(), n);
                if (arena_side([&] { a->assign(n, mv); })) {
                    m.assign(n, mv);
                } else {
                    m.assign(a->begin(), a->end());
                }
                g_fail_in = f;
                g_fail_all = fa;
                break;
            }
        }
        if (!m.empty()) g_grew = true;
    }
    void take(Pair& other, bool move) override {
        auto& o = static_cast<SeqPair&>(other);
        if (a == nullptr || o.a == nullptr || &o == this) return;
        uint64_t f = std::exchange(g_fail_in, 0);
        uint64_t fa = std::exchange(g_fail_all, 0);
        pbt::log("{} := {} of arena {} into arena {}", name(), move ? "moved" : "copied", o.slot->index, slot->index);
        bool ok = arena_side([&] {
            if (move) {
                *a = std::move(*o.a);
            } else {
                *a = *o.a;
            }
        });
        CHECK_THAT(ok || g_failed, "unexpected");
        if (ok) {
            if (move) {
                m = std::move(o.m);
                o.m.clear();
                o.a->clear();
            } else {
                m = o.m;
            }
        } else {
            m.assign(a->begin(), a->end());
            o.m.assign(o.a->begin(), o.a->end());
        }
        g_fail_in = f;
        g_fail_all = fa;
    }
    void compare() override {
        if (a == nullptr) return;
        CHECK_THAT(a->size() == m.size(), "{}: size {} instead of {}", name(), a->size(), m.size());
        auto it = a->begin();
        for (auto& x : m) {
            CHECK_THAT(*it == x, "{}: contents differ from the default-resource container", name());
            check_elem(*slot, *it);
            ++it;
        }
        CHECK_THAT(a->get_allocator().resource() == slot->a->get_memory_resource() ||
                     a->get_allocator().resource()->is_equal(*slot->a->get_memory_resource()),
                   "{}: container no longer on its arena's resource", name());
    }
};

struct StrPair : Pair {
    spmr::string m;
    std::unique_ptr<spmr::string> a;
    StrPair(ArenaSlot* s, Source&) {
        slot = s;
        a = std::make_unique<spmr::string>(s->a->get_memory_resource());
    }
    int kind() override { return 20; }
    const char* name() override { return "string"; }
    void op(Source& s) override {
        auto t = text(s);
        size_t pos = s.below(m.size() + 1);
        size_t n = s.below(m.size() - pos + 1);
        switch (s.below(7)) {
            case 0:
                if (arena_side([&] { a->append(t); })) m.append(t);
                break;
            case 1:
                if (arena_side([&] { a->insert(pos, t); })) m.insert(pos, t);
                break;
            case 2:
                if (arena_side([&] { a->erase(pos, n); })) m.erase(pos, n);
                break;
            case 3:
                if (arena_side([&] { a->replace(pos, n, t); })) m.replace(pos, n, t);
                break;
            case 4:
                if (arena_side([&] { a->resize(n * 3, 'q'); })) m.resize(n * 3, 'q');
                break;
            case 5:
                if (arena_side([&] { a->reserve(n * 5); })) m.reserve(n * 5);
                break;
            default:
                if (arena_side([&] { *a = t; })) m = t;
                break;
        }
        pbt::log("string edit, size {}", m.size());
        if (m.size() > 15) g_grew = true;
    }
    void take(Pair& other, bool move) override {
        auto& o = static_cast<StrPair&>(other);
        if (&o == this) return;
        bool ok = arena_side([&] {
            if (move) {
                *a = std::move(*o.a);
            } else {
                *a = *o.a;
            }
        });
        if (ok) m = o.m;
        if (move && ok) {
            o.a->clear();
            o.m.clear();
        }
    }
    void compare() override {
        CHECK_THAT(std::string_view(*a) == std::string_view(m), "string: contents differ from the default-resource string");
        check_string_storage(*slot, *a);
    }
};

template <typename C, int K>
struct MapPair : Pair {
    C m;
    std::unique_ptr<C> a;
    MapPair(ArenaSlot* s, Source&) {
        slot = s;
        arena_side([&] { a = std::make_unique<C>(typename C::allocator_type(s->a->get_memory_resource())); });
    }
    int kind() override { return K; }
    const char* name() override { return K == 30 ? "map" : "unordered_map"; }
    void op(Source& s) override {
        if (a == nullptr) return;
        int k = static_cast<int>(s.below(40));
        auto t = text(s);
        switch (s.below(6)) {
            case 0:
            case 1:
            case 2:
                pbt::log("{} emplace {}", name(), k);
                if (arena_side([&] { a->emplace(k, t); })) m.emplace(k, t);
                break;
            case 3:
                pbt::log("{} erase {}", name(), k);
                m.erase(k);
                arena_side([&] { a->erase(k); });
                break;
            case 4: {
                auto it = m.find(k);
                if (it != m.end()) {
                    pbt::log("{} modify {}", name(), k);
                    if (arena_side([&] { a->find(k)->second = t; })) it->second = t;
                }
                break;
            }
            default:
                if (s.chance(1, 5)) {
                    pbt::log("{} clear", name());
                    m.clear();
                    arena_side([&] { a->clear(); });
                }
        }
        if (!m.empty()) g_grew = true;
    }
    void take(Pair& other, bool move) override {
        auto& o = static_cast<MapPair&>(other);
        if (a == nullptr || o.a == nullptr || &o == this) return;
        uint64_t f = std::exchange(g_fail_in, 0);
        uint64_t fa = std::exchange(g_fail_all, 0);
        bool ok = arena_side([&] {
            if (move) {
                *a = std::move(*o.a);
            } else {
                *a = *o.a;
            }
        });
        if (ok) {
            m = o.m;
            if (move) {
                o.a->clear();
                o.m.clear();
            }
        } else {
            m.clear();
            for (auto& [k, v] : *a) m.emplace(k, v);
            o.m.clear();
            for (auto& [k, v] : *o.a) o.m.emplace(k, v);
        }
        g_fail_in = f;
        g_fail_all = fa;
    }
    void compare() override {
        if (a == nullptr) return;
        CHECK_THAT(a->size() == m.size(), "{}: size {} instead of {}", name(), a->size(), m.size());
        for (auto& [k, v] : m) {
            auto it = a->find(k);
            CHECK_THAT(it != a->end() && it->second == v, "{}: entry {} differs", name(), k);
            in_arena(*slot, &*it, sizeof(*it), alignof(typename C::value_type), name());
            check_string_storage(*slot, it->second);
        }
    }
};

std::unique_ptr<Pair> make_pair_of(int k, ArenaSlot* sl, Source& s) {
    switch (k) {
        case 0: return std::make_unique<SeqPair<spmr::vector<int>, 0>>(sl, s);
        case 1: return std::make_unique<SeqPair<spmr::vector<Over<16>>, 1>>(sl, s);
        case 2: return std::make_unique<SeqPair<spmr::vector<Over<32>>, 2>>(sl, s);
        case 3: return std::make_unique<SeqPair<spmr::vector<spmr::string>, 3>>(sl, s);
        case 4: return std::make_unique<SeqPair<spmr::list<spmr::string>, 4>>(sl, s);
        case 5: return std::make_unique<SeqPair<spmr::deque<int>, 5>>(sl, s);
        case 6: return std::make_unique<StrPair>(sl, s);
        case 7: return std::make_unique<MapPair<spmr::map<int, spmr::string>, 30>>(sl, s);
        default: return std::make_unique<MapPair<spmr::unordered_map<int, spmr::string>, 31>>(sl, s);
    }
}

Arena::Options make_options(Source& s) {
    Arena::Options o{};
    o.normal_block_size = s.pick<uint64_t>({64, 128, 256, 1024, 4096});
    o.huge_block_size = o.normal_block_size * s.pick<uint64_t>({4, 8, 16, 64});
    o.suggested_init_block_size = s.pick<uint64_t>({64, 96, 256, 4096});
    o.block_alloc = &blk_alloc;
    o.block_dealloc = &blk_free;
    o.logger_func = &quiet;
    return o;
}

void open_slot(ArenaSlot& sl, const Arena::Options& o, int index) {
    sl.cur = 0;
    sl.index = index;
    sl.moved = false;
    g_current = index;
    sl.a = new (sl.st[0]) Arena(o);
}
void move_slot(ArenaSlot& sl) {
    Arena* n = new (sl.st[1 - sl.cur]) Arena(std::move(*sl.a));
    sl.a->~Arena();
    memset(sl.st[sl.cur], 0x5A, sizeof(Arena));
    sl.cur = 1 - sl.cur;
    sl.a = n;
    sl.moved = true;
}
void close_slot(ArenaSlot& sl) {
    sl.a->~Arena();
    sl.a = nullptr;
    for (auto& b : g_blocks) CHECK_THAT(b.owner != sl.index, "a destroyed arena kept a block");
}

struct OtherResource : spmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { return spmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void* p, size_t n, size_t a) override { spmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(const spmr::memory_resource& o) const noexcept override { return this == &o; }
};

void prop_a06(Source& s) {
    g_blocks.clear();
    g_fail_in = g_fail_all = 0;
    g_grew = false;
    static ArenaSlot slots[2];
    Arena::Options o[2] = {make_options(s), make_options(s)};
    int next_index = 1;
    for (int i = 0; i < 2; ++i) open_slot(slots[i], o[i], next_index++);
    std::vector<std::unique_ptr<Pair>> pairs;
    uint64_t moves = 0;
    uint64_t crosses = 0;
    s.set_len(4, 60);
    auto drop = [&](ArenaSlot& sl) {
        std::erase_if(pairs, [&](auto& p) { return p->slot == &sl; });
    };
    auto& sl_eq = slots;
    auto check_eq = [&] {
        for (int i = 0; i < 2; ++i) {
            for (int j = 0; j < 2; ++j) {
                bool e = sl_eq[i].a->get_memory_resource()->is_equal(*sl_eq[j].a->get_memory_resource());
                CHECK_THAT(e == (i == j), "resources of arenas {} and {} compare {}", i, j, e);
            }
            OtherResource other;
            CHECK_THAT(!sl_eq[i].a->get_memory_resource()->is_equal(other), "an arena resource equals a foreign resource");
            CHECK_THAT(!sl_eq[i].a->get_memory_resource()->is_equal(*spmr::new_delete_resource()),
                       "an arena resource equals the new/delete resource");
            CHECK_THAT(*sl_eq[i].a->get_memory_resource() == *sl_eq[i].a->get_memory_resource(), "resource != itself");
            CHECK_THAT(sl_eq[i].a->get_memory_resource()->get_arena() == sl_eq[i].a, "the resource names another arena");
            Arena::memory_resource second(sl_eq[i].a);  // another resource of the same arena
            CHECK_THAT(second == *sl_eq[i].a->get_memory_resource() && *sl_eq[i].a->get_memory_resource() == second, "two resources of one arena differ");
            CHECK_THAT(second != *sl_eq[1 - i].a->get_memory_resource(), "resources of two arenas are equal");
        }
    };
    check_eq();
    while (s.next_op()) {
        bool all = false;
        switch (s.weighted({14, 60, 6, 8, 5, 4, 3, 8, 2})) {
            case 8: {  // more than there can be
                auto& sl = slots[s.below(2)];
                g_current = sl.index;
                const size_t n = s.pick<size_t>({1UL << 40, 1UL << 61, 1UL << 62, (1UL << 63) - 64, ~0UL - 200, ~0UL - 30, ~0UL}) - s.below(100);
                const size_t al = s.pick<size_t>({1, 8, 16, 32});
                pbt::log("resource allocate {} align {}", n, al);
                bool refused = false;
                try {
                    (void)sl.a->get_memory_resource()->allocate(n, al);
                } catch (const std::bad_alloc&) {
                    refused = true;
                } catch (...) {
                    pbt::fail("the resource threw something other than bad_alloc");
                }
                CHECK_THAT(refused, "the resource returned a pointer to {} bytes", n);
                spmr::vector<int> v(sl.a->get_memory_resource());
                spmr::string t(sl.a->get_memory_resource());
                try {
                    v = {1, 2, 3};
                    t.assign(40, 'q');
                } catch (const std::bad_alloc&) {
                    break;
                }
                const auto* where = v.data();
                refused = false;
                try {
                    if (s.coin()) v.reserve(v.max_size() - s.below(50)); else t.reserve(t.max_size() - s.below(50));
                } catch (const std::bad_alloc&) {
                    refused = true;
                } catch (...) {
                    pbt::fail("exhaustion surfaced as something other than bad_alloc");
                }
                CHECK_THAT(refused && v.data() == where && v.size() == 3 && v[0] == 1 && v[2] == 3 && t == spmr::string(40, 'q'), "after a refused reserve the container is another");
                break;
            }
            case 0: {
                auto& sl = slots[s.below(2)];
                int k = static_cast<int>(s.below(9));
                if (pairs.size() < 8) {
                    pairs.push_back(make_pair_of(k, &sl, s));
                    pbt::log("new {} on arena {}", pairs.back()->name(), sl.index);
                }
                break;
            }
            case 1:
                if (!pairs.empty()) {
                    auto& p = *pairs[s.below(pairs.size())];
                    uint64_t n = 1 + s.below(4);
                    for (uint64_t i = 0; i < n; ++i) p.op(s);
                    p.compare();
                } else {
                    pairs.push_back(make_pair_of(static_cast<int>(s.below(9)), &slots[s.below(2)], s));
                }
                break;
            case 2: {
                auto& sl = slots[s.below(2)];
                pbt::log("move arena {}", sl.index);
                move_slot(sl);
                all = true;
                ++moves;
                if (g_grew) {
                    pbt::label("arena moved under containers");
                    pbt::nontrivial();
                }
                break;
            }
            case 3: {  // assignment between containers, possibly of different arenas
                if (pairs.size() < 2) break;
                auto& x = *pairs[s.below(pairs.size())];
                auto& y = *pairs[s.below(pairs.size())];
                bool mv = s.coin();
                if (x.kind() == y.kind() && &x != &y) {
                    if (x.slot != y.slot) {
                        ++crosses;
                        pbt::label("cross-arena assignment");
                        pbt::nontrivial();
                    }
                    x.take(y, mv);
                    x.compare();
                    y.compare();
                }
                break;
            }
            case 4: {
                g_fail_in = 1 + s.below(3);
                pbt::log("the {}th block allocation fails", g_fail_in);
                break;
            }
            case 5: {
                auto& sl = slots[s.below(2)];
                pbt::log("reset arena {}", sl.index);
                drop(sl);
                sl.a->Reset();
                all = true;
                break;
            }
            case 6: {
                auto& sl = slots[s.below(2)];
                pbt::log("replace arena {}", sl.index);
                drop(sl);
                close_slot(sl);
                open_slot(sl, o[&sl - slots], next_index++);
                all = true;
                break;
            }
            default: {  // direct use of the resource
                auto& sl = slots[s.below(2)];
                size_t n = s.near({0, 8, 32, 100, 1000}, 9, 3000);
                size_t al = s.pick<size_t>({1, 2, 4, 8, 16, 32});
                pbt::log("resource allocate {} align {}", n, al);
                g_current = sl.index;
                g_failed = false;
                try {
                    void* p = sl.a->get_memory_resource()->allocate(n, al);
                    CHECK_THAT(p != nullptr, "the resource returned null");
                    in_arena(sl, p, n, al, "resource allocation");
                    memset(p, 0xEE, n);
                    sl.a->get_memory_resource()->deallocate(p, n, al);
                } catch (const std::bad_alloc&) {
                    CHECK_THAT(g_failed, "bad_alloc although no block allocation failed");
                    pbt::label("bad_alloc surfaced");
                }
                break;
            }
        }
        if (all) {
            check_eq();
            for (auto& p : pairs) p->compare();
        }
    }
    check_eq();
    if (g_blocks.size() > 3 && g_grew) pbt::nontrivial();
    g_fail_in = g_fail_all = 0;
    for (auto& p : pairs) p->compare();
    // one arena goes away with its containers; the others keep their values
    int first = static_cast<int>(s.below(2));
    drop(slots[first]);
    close_slot(slots[first]);
    for (auto& p : pairs) p->compare();
    drop(slots[1 - first]);
    close_slot(slots[1 - first]);
}

// ------------------------------------------------------------------------------------------------ A07
int64_t g_alive = 0;
// records how it was constructed
struct Plain {
    ArenaFullManagedTag;
    int kind = 0;
    int x = 0;
    std::string t;
    std::unique_ptr<int> u;
    Plain() : kind(1) { ++g_alive; }
    explicit Plain(int a) : kind(2), x(a) { ++g_alive; }
    Plain(int a, const std::string& s) : kind(3), x(a), t(s) { ++g_alive; }
    Plain(int a, std::string&& s) : kind(4), x(a), t(std::move(s)) { ++g_alive; }
    explicit Plain(std::unique_ptr<int> p) : kind(5), u(std::move(p)) { ++g_alive; }
    Plain(int& r, int k) : kind(6), x(r) {
        ++g_alive;
        r += k;
    }
    explicit Plain(std::initializer_list<int> l) : kind(7), x(static_cast<int>(l.size())) { ++g_alive; }
    ~Plain() { --g_alive; }
};
struct WithAlloc {
    ArenaFullManagedTag;
    spmr::string text;
    spmr::vector<int> v;
    spmr::memory_resource* res = nullptr;
    int kind = 0;
    explicit WithAlloc(spmr::polymorphic_allocator<WithAlloc> al = {}) : text(al.resource()), v(al.resource()), res(al.resource()), kind(1) { ++g_alive; }
    explicit WithAlloc(std::string_view t, spmr::polymorphic_allocator<WithAlloc> al = {}) : text(t, al.resource()), v(al.resource()), res(al.resource()), kind(2) { ++g_alive; }
    WithAlloc(std::string_view t, int n, spmr::polymorphic_allocator<WithAlloc> al = {}) : text(t, al.resource()), v(n, n, al.resource()), res(al.resource()), kind(3) { ++g_alive; }
    WithAlloc(const WithAlloc&) = delete;
    ~WithAlloc() { --g_alive; }
};
struct WithArena {
    ArenaFullManagedTag;
    Arena* a = nullptr;
    int x = 0;
    char* mem = nullptr;
    int kind = 0;
    explicit WithArena(Arena& ar) : a(&ar), kind(1) { ++g_alive; }
    WithArena(Arena& ar, int v) : a(&ar), x(v), kind(2) {
        ++g_alive;
        mem = ar.AllocateAligned(static_cast<uint64_t>(v));
    }
    explicit WithArena(int v) : x(v), kind(3) { ++g_alive; }
    ~WithArena() { --g_alive; }
};
struct CreateOnly {
    ArenaManagedCreateOnlyTag;
    uint64_t a = 7;
    uint32_t b[3] = {1, 2, 3};
    CreateOnly() = default;
    CreateOnly(uint64_t v) : a(v) {}
};
struct CreateOnlyAlloc {  // trivially destructible, wants the resource
    ArenaManagedCreateOnlyTag;
    spmr::memory_resource* res = nullptr;
    int v = 5;
    CreateOnlyAlloc() = default;
    explicit CreateOnlyAlloc(spmr::polymorphic_allocator<CreateOnlyAlloc> al) : res(al.resource()), v(6) {}
};
struct CreateOnlyArena {
    ArenaManagedCreateOnlyTag;
    Arena* a = nullptr;
    int v = 5;
    explicit CreateOnlyArena(Arena& ar) : a(&ar), v(9) {}
};
struct Pod {
    int a;
    double d;
    char c[5];
};
template <int N>
struct PodN {  // trivial types of many sizes
    unsigned char c[N];
    bool is(unsigned char x) const {
        for (auto v : c)
            if (v != x) return false;
        return true;
    }
};
template <int N>
struct PodL {
    uint64_t c[N];
    bool is(uint64_t x) const {
        for (auto v : c)
            if (v != x) return false;
        return true;
    }
};
struct alignas(32) Big32 {
    ArenaFullManagedTag;
    int v = 3;
    Big32() = default;
    explicit Big32(int x) : v(x) {}
};
struct alignas(16) Big16 {
    int v[4];
};

// An argument that knows how it travelled, and types of every construction route which record what they got.
struct Tok {
    int v = 0, copies = 0, moves = 0;
    explicit Tok(int n) : v(n) {}
    Tok(const Tok& o) : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    Tok(Tok&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1; }
    Tok& operator=(const Tok&) = delete;
};
struct RecBase {
    int log[8] = {};
    Arena* arena = nullptr;
    spmr::memory_resource* res = nullptr;
    void note(int route, const Tok& x, int k = 0) {
        log[0] = route;
        log[1] = x.v;
        log[2] = x.copies;
        log[3] = x.moves;
        log[4] = k;
    }
};
#define REC_CTORS(NAME, PRE, POST, INIT)                                         \
    explicit NAME(PRE Tok x POST) { INIT note(1, x); }                           \
    NAME(PRE Tok& x, int k POST) {                                               \
        INIT x.v += k;                                                           \
        note(2, x, k);                                                           \
    }                                                                            \
    NAME(PRE const Tok& x, int k POST) { INIT note(3, x, k); }                   \
    NAME(PRE Tok&& x, int k POST) {                                              \
        INIT Tok y(std::move(x));                                                \
        note(4, y, k);                                                           \
    }                                                                            \
    NAME(PRE const char* t, int& k, Tok&& x, const Tok& y, unsigned char c POST) { \
        INIT Tok z(std::move(x));                                                \
        note(5, z, ++k);                                                         \
        log[5] = y.v;                                                            \
        log[6] = c;                                                              \
        log[7] = t[0];                                                           \
    }                                                                            \
    NAME(PRE const char* t, int& k, Tok& x, const Tok& y, unsigned char c POST) { \
        INIT note(6, x, ++k);                                                    \
        log[5] = y.v;                                                            \
        log[6] = c;                                                              \
        log[7] = t[0];                                                           \
    }
#define REC_NOTHING
#define REC_COMMA ,
struct RecPlain : RecBase {
    ArenaFullManagedTag;
    REC_CTORS(RecPlain, REC_NOTHING, REC_NOTHING, REC_NOTHING)
};
struct RecArena : RecBase {
    ArenaFullManagedTag;
    REC_CTORS(RecArena, Arena & a_ REC_COMMA, REC_NOTHING, arena = &a_;)
};
struct RecAlloc : RecBase {
    ArenaFullManagedTag;
    REC_CTORS(RecAlloc, REC_NOTHING, REC_COMMA spmr::polymorphic_allocator<RecAlloc> al, res = al.resource();)
};
// direct construction with the same arguments
template <typename T, typename... Args>
T direct(Arena& a, Args&&... args) {
    if constexpr (std::is_same_v<T, RecArena>)
        return T(a, std::forward<Args>(args)...);
    else if constexpr (std::is_same_v<T, RecAlloc>)
        return T(std::forward<Args>(args)..., spmr::polymorphic_allocator<T>(a.get_memory_resource()));
    else
        return T(std::forward<Args>(args)...);
}

void prop_a07(Source& s) {
    g_blocks.clear();
    g_fail_in = g_fail_all = 0;
    g_alive = 0;
    static ArenaSlot slot;
    auto o = make_options(s);
    open_slot(slot, o, 1);
    g_current = 1;
    std::vector<std::function<void()>> made;
    int64_t expect_alive = 0;
    uint64_t created = 0;
    bool with_store = false;
    s.set_len(2, 40);
    auto null_ok = [&](const void* p) {
        if (p == nullptr) {
            CHECK_THAT(g_failed, "Create returned null although no block allocation failed");
            pbt::label("create failed");
        }
        return p != nullptr;
    };
    while (s.next_op()) {
        g_failed = false;
        auto n = static_cast<int>(s.below(50));
        auto t = text(s);
        spmr::memory_resource* res = slot.a->get_memory_resource();
        (void)s.below(2);
        // created once through the arena, once directly
        auto rec = [&]<typename T>(T*, const char* type) {
            auto c = s.below(6);
            auto ch = static_cast<unsigned char>(s.below(256));
            pbt::log("Create<{}> with arguments {}", type, c);
            Tok xa(n), xb(n), ya(n + 1), yb(n + 1);
            const Tok& cxa = xa;
            const Tok& cxb = xb;
            int ka = n, kb = n;
            T* p = nullptr;
            auto run = [&](auto make, Tok& x, const Tok& cx, Tok& y, int& k) {
                switch (c) {
                    case 0: return make(x);
                    case 1: return make(std::move(x));
                    case 2: return make(x, 7);
                    case 3: return make(cx, 7);
                    case 4: return make(std::move(x), k);
                    default: return make(static_cast<const char*>(t.c_str()), k, std::move(x), y, ch);
                }
            };
            p = run([&](auto&&... args) { return slot.a->Create<T>(std::forward<decltype(args)>(args)...); }, xa, cxa, ya, ka);
            if (!null_ok(p)) return;
            RecBase e = run([&](auto&&... args) -> RecBase { return direct<T>(*slot.a, std::forward<decltype(args)>(args)...); }, xb, cxb, yb, kb);
            in_arena(slot, p, sizeof *p, alignof(T), type);
            CHECK_THAT(xa.v == xb.v && ya.v == yb.v && ka == kb, "Create<{}> left other arguments than direct construction: {} {} {} and {} {} {}", type, xa.v, ya.v, ka, xb.v, yb.v, kb);
            CHECK_THAT(p->arena == e.arena, "Create<{}> passed another arena", type);
            CHECK_THAT((p->res == nullptr) == (e.res == nullptr) && (p->res == nullptr || p->res->is_equal(*e.res)), "Create<{}> passed another resource", type);
            for (int i = 0; i < 8; ++i)
                CHECK_THAT(p->log[i] == e.log[i], "Create<{}>: the constructor saw other arguments than in direct construction (constructor {}/{}, value {}/{}, copies {}/{}, moves {}/{}, {}/{}, {}/{}, {}/{}, {}/{})", type,
                           p->log[0], e.log[0], p->log[1], e.log[1], p->log[2], e.log[2], p->log[3], e.log[3], p->log[4], e.log[4], p->log[5], e.log[5], p->log[6], e.log[6], p->log[7], e.log[7]);
        };
        auto pods = [&]<typename T>(T*) {
            auto c = s.below(3);
            auto k = c == 2 ? s.below(300 / sizeof(T) + 3) : 1;
            pbt::log("Create trivial of {} bytes, way {}, {}", sizeof(T), c, k);
            T src;
            memset(&src, n + 1, sizeof src);
            T* p = c == 0 ? slot.a->Create<T>() : c == 1 ? slot.a->Create<T>(src) : slot.a->CreateArray<T>(k);
            if (!null_ok(p)) return;
            in_arena(slot, p, k * sizeof(T), alignof(T), "trivial object");
            made.emplace_back([p, c, k, src] {
                for (uint64_t i = 0; i < k; ++i)
                    CHECK_THAT(c == 1 ? memcmp(p, &src, sizeof src) == 0 : p[i].is(0), "trivial object {} of {} ({} bytes) differs from direct construction", i, k, sizeof(T));
            });
        };
        switch (s.below(31)) {
            case 29:
                switch (s.below(6)) {
                    case 0: pods(static_cast<PodN<1>*>(nullptr)); break;
                    case 1: pods(static_cast<PodN<7>*>(nullptr)); break;
                    case 2: pods(static_cast<PodN<16>*>(nullptr)); break;
                    case 3: pods(static_cast<PodN<33>*>(nullptr)); break;
                    case 4: pods(static_cast<PodN<100>*>(nullptr)); break;
                    default: pods(static_cast<PodN<257>*>(nullptr)); break;
                }
                break;
            case 30:
                switch (s.below(5)) {
                    case 0: pods(static_cast<PodL<1>*>(nullptr)); break;
                    case 1: pods(static_cast<PodL<2>*>(nullptr)); break;
                    case 2: pods(static_cast<PodL<5>*>(nullptr)); break;
                    case 3: pods(static_cast<PodL<8>*>(nullptr)); break;
                    default: pods(static_cast<PodL<64>*>(nullptr)); break;
                }
                break;
            case 26: rec(static_cast<RecPlain*>(nullptr), "RecPlain"); break;
            case 27: rec(static_cast<RecArena*>(nullptr), "RecArena"); break;
            case 28: rec(static_cast<RecAlloc*>(nullptr), "RecAlloc"); break;
            case 0: {
                pbt::log("Create<Plain>()");
                auto* p = slot.a->Create<Plain>();
                if (null_ok(p)) {
                    ++expect_alive;
                    in_arena(slot, p, sizeof *p, alignof(Plain), "Plain");
                    made.emplace_back([p] { CHECK_THAT(p->kind == 1 && p->x == 0 && p->t.empty() && !p->u, "Plain() differs"); });
                }
                break;
            }
            case 1: {
                pbt::log("Create<Plain>({})", n);
                auto* p = slot.a->Create<Plain>(n);
                if (null_ok(p)) {
                    ++expect_alive;
                    made.emplace_back([p, n] { CHECK_THAT(p->kind == 2 && p->x == n, "Plain(int) differs"); });
                }
                break;
            }
            case 2: {
                pbt::log("Create<Plain>(int, const string&)");
                std::string copy = t;
                auto* p = slot.a->Create<Plain>(n, copy);
                if (null_ok(p)) {
                    ++expect_alive;
                    CHECK_THAT(copy == t, "an lvalue argument was consumed");
                    made.emplace_back([p, n, t] { CHECK_THAT(p->kind == 3 && p->x == n && p->t == t, "Plain(int, const string&) differs"); });
                }
                break;
            }
            case 3: {
                pbt::log("Create<Plain>(int, string&&)");
                std::string mv = t;
                auto* p = slot.a->Create<Plain>(n, std::move(mv));
                if (null_ok(p)) {
                    ++expect_alive;
                    made.emplace_back([p, n, t] { CHECK_THAT(p->kind == 4 && p->x == n && p->t == t, "Plain(int, string&&): an rvalue argument was not moved"); });
                }
                break;
            }
            case 4: {
                pbt::log("Create<Plain>(unique_ptr)");
                auto u = std::make_unique<int>(n);
                auto* p = slot.a->Create<Plain>(std::move(u));
                if (null_ok(p)) {
                    ++expect_alive;
                    made.emplace_back([p, n] { CHECK_THAT(p->kind == 5 && p->u && *p->u == n, "Plain(unique_ptr) differs"); });
                }
                break;
            }
            case 5: {
                pbt::log("Create<Plain>(int&, int)");
                int r = n;
                auto* p = slot.a->Create<Plain>(r, 11);
                if (null_ok(p)) {
                    ++expect_alive;
                    CHECK_THAT(r == n + 11, "a reference argument was copied");
                    made.emplace_back([p, n] { CHECK_THAT(p->kind == 6 && p->x == n, "Plain(int&, int) differs"); });
                }
                break;
            }
            case 6:
            case 7:
            case 8: {
                auto c = s.below(3);
                pbt::log("Create<WithAlloc> variant {}", c);
                Guard g;
                WithAlloc* p = c == 0 ? slot.a->Create<WithAlloc>() : c == 1 ? slot.a->Create<WithAlloc>(std::string_view(t)) : slot.a->Create<WithAlloc>(std::string_view(t), n);
                if (null_ok(p)) {
                    ++expect_alive;
                    with_store = true;
                    in_arena(slot, p, sizeof *p, alignof(WithAlloc), "WithAlloc");
                    CHECK_THAT(p->kind == static_cast<int>(c) + 1, "constructor {} instead of {} was used", p->kind, c + 1);
                    made.emplace_back([p, c, t, n] {
                        CHECK_THAT(p->res->is_equal(*slot.a->get_memory_resource()), "an allocator-aware object did not get the arena's resource");
                        CHECK_THAT(std::string_view(p->text) == (c == 0 ? std::string_view() : std::string_view(t)), "allocator-aware object: text differs");
                        CHECK_THAT(p->v.size() == (c == 2 ? static_cast<size_t>(n) : 0), "allocator-aware object: vector differs");
                        if (p->text.size() > 15) in_arena(slot, p->text.data(), p->text.size() + 1, 1, "text of an allocator-aware object");
                        if (!p->v.empty()) in_arena(slot, p->v.data(), p->v.size() * sizeof(int), alignof(int), "vector of an allocator-aware object");
                    });
                }
                break;
            }
            case 9: {
                pbt::log("Create<WithArena>()");
                auto* p = slot.a->Create<WithArena>();
                if (null_ok(p)) {
                    ++expect_alive;
                    CHECK_THAT(p->kind == 1 && p->a == slot.a, "the type's constructor did not get this arena");
                }
                break;
            }
            case 10: {
                pbt::log("Create<WithArena>({})", n);
                auto* p = slot.a->Create<WithArena>(n);
                if (null_ok(p)) {
                    ++expect_alive;
                    CHECK_THAT(p->kind == 2 && p->a == slot.a && p->x == n, "the type's constructor did not get this arena first");
                    if (p->mem != nullptr) in_arena(slot, p->mem, static_cast<size_t>(n), 8, "memory the object obtained while constructed");
                }
                break;
            }
            case 11: {
                pbt::log("Create<CreateOnly>");
                auto v = static_cast<uint64_t>(n);
                bool d = s.coin();
                auto* p = d ? slot.a->Create<CreateOnly>() : slot.a->Create<CreateOnly>(v);
                if (null_ok(p)) {
                    made.emplace_back([p, d, v] { CHECK_THAT(p->a == (d ? 7 : v) && p->b[0] == 1 && p->b[2] == 3, "CreateOnly differs"); });
                }
                break;
            }
            case 12: {
                pbt::log("Create<Pod>");
                bool d = s.coin();
                Pod src{n, n * 0.5, {'a', 'b', 'c', 'd', 0}};
                auto* p = d ? slot.a->Create<Pod>() : slot.a->Create<Pod>(src);
                if (null_ok(p)) {
                    in_arena(slot, p, sizeof *p, alignof(Pod), "Pod");
                    Pod e = d ? Pod() : src;
                    made.emplace_back([p, e] { CHECK_THAT(p->a == e.a && p->d == e.d && memcmp(p->c, e.c, 5) == 0, "Pod differs from direct construction"); });
                }
                break;
            }
            case 13: {
                pbt::log("Create<int64/double>");
                auto* p = slot.a->Create<int64_t>(n * 1000003LL);
                auto* q = slot.a->Create<double>();
                if (null_ok(p)) made.emplace_back([p, n] { CHECK_THAT(*p == n * 1000003LL, "Create<int64_t> differs"); });
                if (null_ok(q)) made.emplace_back([q] { CHECK_THAT(*q == 0.0, "Create<double>() is not zero"); });
                break;
            }
            case 14: {
                pbt::log("Create<Big32/Big16>");
                auto* p = slot.a->Create<Big32>(n);
                auto* q = slot.a->Create<Big16>();
                if (null_ok(p)) {
                    in_arena(slot, p, sizeof *p, 32, "Big32");
                    made.emplace_back([p, n] { CHECK_THAT(p->v == n, "Big32 differs"); });
                }
                if (null_ok(q)) {
                    in_arena(slot, q, sizeof *q, 16, "Big16");
                    made.emplace_back([q] { CHECK_THAT(q->v[0] == 0 && q->v[3] == 0, "Big16() differs"); });
                }
                break;
            }
            case 15: {
                auto c = s.below(4);
                pbt::log("Create<pmr::string> route {} with {} chars", c, t.size());
                spmr::string lv(t, spmr::new_delete_resource());
                Guard g;
                spmr::string* p = c == 0   ? slot.a->Create<spmr::string>()
                                  : c == 1 ? slot.a->Create<spmr::string>(t.data(), t.size())
                                  : c == 2 ? slot.a->Create<spmr::string>(lv)
                                           : slot.a->Create<spmr::string>(static_cast<size_t>(n), 'z');
                if (null_ok(p)) {
                    with_store = true;
                    auto e = std::make_shared<std::string>(c == 0 ? std::string() : c == 3 ? std::string(static_cast<size_t>(n), 'z') : t);
                    made.emplace_back([p, e] {
                        CHECK_THAT(std::string_view(*p) == *e, "pmr::string differs");
                        check_string_storage(slot, *p);
                        // growing it later stays in the arena
                        if (e->size() < 300 && g_blocks.size() < 40) {
                            Guard gg;
                            g_current = 1;
                            try {
                                p->append("tail-of-13-xx");
                                e->append("tail-of-13-xx");
                            } catch (const std::bad_alloc&) {
                            }
                            check_string_storage(slot, *p);
                        }
                    });
                }
                break;
            }
            case 16: {
                auto c = s.below(3);
                pbt::log("Create<pmr::vector<int>> route {}", c);
                spmr::vector<int> lv({n, n + 1, n + 2}, spmr::new_delete_resource());
                Guard g;
                spmr::vector<int>* p = c == 0   ? slot.a->Create<spmr::vector<int>>()
                                       : c == 1 ? slot.a->Create<spmr::vector<int>>(static_cast<size_t>(n), 9)
                                                : slot.a->Create<spmr::vector<int>>(lv);
                if (null_ok(p)) {
                    with_store = true;
                    auto e = std::make_shared<std::vector<int>>();
                    if (c == 1) e->assign(static_cast<size_t>(n), 9);
                    if (c == 2) *e = {n, n + 1, n + 2};
                    made.emplace_back([p, e] {
                        CHECK_THAT(std::equal(p->begin(), p->end(), e->begin(), e->end()), "pmr::vector differs");
                        if (!p->empty()) in_arena(slot, p->data(), p->size() * sizeof(int), alignof(int), "elements of a created vector");
                        if (e->size() < 100) {
                            Guard gg;
                            g_current = 1;
                            try {
                                p->push_back(4);
                                e->push_back(4);
                            } catch (const std::bad_alloc&) {
                            }
                        }
                    });
                }
                break;
            }
            case 17: {
                pbt::log("Create<pmr::map>");
                Guard g;
                auto* p = slot.a->Create<spmr::map<int, spmr::string>>();
                if (null_ok(p)) {
                    with_store = true;
                    auto cnt = std::make_shared<int>(0);
                    made.emplace_back([p, cnt] {
                        CHECK_THAT(static_cast<int>(p->size()) == *cnt, "pmr::map size differs");
                        for (auto& kv : *p) {
                            in_arena(slot, &kv, sizeof kv, alignof(decltype(kv)), "map node");
                            check_string_storage(slot, kv.second);
                        }
                        if (*cnt < 20) {
                            Guard gg;
                            g_current = 1;
                            try {
                                p->emplace(*cnt, "a value that is not short at all");
                                ++*cnt;
                            } catch (const std::bad_alloc&) {
                            }
                        }
                    });
                }
                break;
            }
            case 18: {
                pbt::log("Create<arena_string>");
                auto c = s.below(2);
                arena_string* p = c == 0 ? slot.a->Create<arena_string>(t.data(), t.size()) : slot.a->Create<arena_string>();
                if (null_ok(p)) {
                    with_store = true;
                    std::string e = c == 0 ? t : std::string();
                    made.emplace_back([p, e] {
                        CHECK_THAT(std::string_view(p->data(), p->size()) == e, "arena_string differs");
                        if (!in_object(p, sizeof *p, p->c_str())) in_arena(slot, p->c_str(), p->size() + 1, 1, "characters of an arena_string");
                    });
                }
                break;
            }
            case 19: {
                pbt::log("Create<variant>");
                using V = std::variant<int, string, std::monostate>;
                auto c = s.below(3);
                string st(t.data(), t.size());
                V* p = c == 0 ? slot.a->Create<V>() : c == 1 ? slot.a->Create<V>(n) : slot.a->Create<V>(st);
                if (null_ok(p)) {
                    V e = c == 0 ? V() : c == 1 ? V(n) : V(st);
                    made.emplace_back([p, e] { CHECK_THAT(*p == e, "variant differs from direct construction"); });
                }
                break;
            }
            case 20: {
                auto k = s.chance(1, 8) ? s.range(70, 3000) : s.below(70);
                pbt::log("CreateArray<Pod>({})", k);
                auto* p = slot.a->CreateArray<Pod>(k);
                if (null_ok(p)) {
                    in_arena(slot, p, k * sizeof(Pod), alignof(Pod), "array");
                    made.emplace_back([p, k] {
                        for (uint64_t i = 0; i < k; ++i) CHECK_THAT(p[i].a == 0 && p[i].d == 0 && p[i].c[4] == 0, "array element {} of {} is not default-constructed", i, k);
                    });
                }
                break;
            }
            case 21: {
                auto k = s.below(40);
                pbt::log("CreateArray<CreateOnly>({})", k);
                auto* p = slot.a->CreateArray<CreateOnly>(k);
                if (null_ok(p)) {
                    in_arena(slot, p, k * sizeof(CreateOnly), alignof(CreateOnly), "array");
                    made.emplace_back([p, k] {
                        for (uint64_t i = 0; i < k; ++i) CHECK_THAT(p[i].a == 7 && p[i].b[1] == 2, "array element {} of {} is not default-constructed", i, k);
                    });
                }
                break;
            }
            case 22: {
                auto k = s.below(30);
                pbt::log("CreateArray<CreateOnlyAlloc/Arena>({})", k);
                auto* p = slot.a->CreateArray<CreateOnlyAlloc>(k);
                if (null_ok(p)) {
                    for (uint64_t i = 0; i < k; ++i) CHECK_THAT(p[i].v == 6 && p[i].res == res, "array element {} did not get the arena's resource", i);
                }
                auto* q = slot.a->CreateArray<CreateOnlyArena>(k);
                if (null_ok(q)) {
                    for (uint64_t i = 0; i < k; ++i) CHECK_THAT(q[i].v == 9 && q[i].a == slot.a, "array element {} did not get the arena", i);
                }
                break;
            }
            case 23: {
                auto k = s.chance(1, 8) ? s.range(30, 9000) : s.below(30);
                pbt::log("CreateArray<Big16>, <char>, <uint64_t> ({})", k);
                auto* u = slot.a->CreateArray<uint64_t>(k);
                if (null_ok(u)) {
                    in_arena(slot, u, k * 8, 8, "array of uint64_t");
                    for (uint64_t i = 0; i < k; ++i) CHECK_THAT(u[i] == 0, "uint64_t array element {} is not value-initialised", i);
                }
                auto* fl = slot.a->CreateArray<float>(k);
                if (null_ok(fl)) {
                    in_arena(slot, fl, k * 4, 4, "array of float");
                    for (uint64_t i = 0; i < k; ++i) CHECK_THAT(fl[i] == 0, "float array element {} is not value-initialised", i);
                }
                auto* p = slot.a->CreateArray<Big16>(k);
                if (null_ok(p)) in_arena(slot, p, k * sizeof(Big16), 16, "array of Big16");
                auto* q = slot.a->CreateArray<char>(k);
                if (null_ok(q)) {
                    in_arena(slot, q, k, 1, "array of char");
                    made.emplace_back([q, k] {
                        for (uint64_t i = 0; i < k; ++i) CHECK_THAT(q[i] == 0, "char array element {} is not default-constructed", i);
                    });
                }
                break;
            }
            case 24:
                pbt::log("move the arena");
                if (!made.empty()) pbt::label("arena moved with objects");
                move_slot(slot);
                break;
            default:
                if (s.chance(1, 3)) {
                    pbt::log("reset");
                    made.clear();
                    slot.a->Reset();
                    CHECK_THAT(g_alive == 0, "{} created objects survive the reset", g_alive);
                    expect_alive = 0;
                } else {
                    g_fail_in = 1 + s.below(2);
                    pbt::log("the {}th block allocation fails", g_fail_in);
                }
        }
        ++created;
        CHECK_THAT(g_alive == expect_alive, "{} objects alive, {} created", g_alive, expect_alive);
        for (auto& m : made) m();
    }
    if (created >= 3 && with_store) pbt::nontrivial();
    made.clear();
    g_fail_in = 0;
    close_slot(slot);
    CHECK_THAT(g_alive == 0, "{} created objects were never destroyed", g_alive);
}

}  // namespace

int main(int argc, char** argv) {
    return pbt::engine_main(argc, argv, {{"A06", prop_a06, true}, {"A07", prop_a07, true}});
}
