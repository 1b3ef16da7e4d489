// T01: objects that belong to different threads do not interfere.
// Each of two to four threads works through its own script on its own strings, arena, vectors and parser and compares
// them with models of its own; between rounds strings are handed on as clones, vectors and arenas by moving.  The
// tsan variant reports every data race, all variants compare the results.
#include <fmt/ranges.h>

#include <algorithm>
#include <barrier>
#include <cstring>
#include <deque>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "arena/arena.hpp"
#include "arena/metrics.hpp"
#include "container/stdb_vector.hpp"
#include "optparse/optparse.hpp"
#include "pbt.hpp"
#include "string/arena_string.hpp"
#include "string/string.hpp"

namespace {
using pbt::Source;
namespace mem = stdb::memory;
namespace op = stdb::optparse;
using stdb::container::stdb_vector;

// the choices of one thread, drawn before it runs
struct Script {
    std::vector<uint32_t> v;
    size_t i = 0;
    std::string log;
    std::string failed;
    auto more() const -> bool { return i < v.size(); }
    auto below(uint32_t n) -> uint32_t { return n == 0 || i >= v.size() ? 0 : v[i++] % n; }
    template <class... A>
    void say(fmt::format_string<A...> f, A&&... a) {
        if (log.size() < 2000) log += fmt::format(f, std::forward<A>(a)...) + "; ";
    }
};
#define T_CHECK(s, c, ...)                                                                    \
    do {                                                                                      \
        if (!(c)) {                                                                           \
            if ((s).failed.empty()) (s).failed = std::string("[" #c "] ") + fmt::format(__VA_ARGS__);\
            return;                                                                           \
        }                                                                                     \
    } while (0)

constexpr uint32_t kSizes[] = {0, 1, 5, 22, 23, 24, 40, 100, 253, 254, 255, 256, 300, 600, 2000};
auto text(Script& s) -> std::string {
    const auto n = kSizes[s.below(15)];
    std::string r(n, char('a' + s.below(26)));
    for (size_t k = 0; k < n; k += 7) r[k] = char('A' + (k + s.i) % 26);
    return r;
}

// ---- strings ----------------------------------------------------------------------------------------------------
template <class Str>
struct Strings {
    struct One {
        std::unique_ptr<Str> s;
        std::string m;
    };
    std::vector<One> v;
};
template <class Str>
auto same(const Str& s, const std::string& m) -> bool {
    return s.size() == m.size() && memcmp(s.data(), m.data(), m.size()) == 0 && s.c_str()[m.size()] == '\0';
}

template <class Str, class Make>
void string_step(Script& s, Strings<Str>& P, Make make) {
    auto put = [&](std::unique_ptr<Str> x, std::string m) {
        if (P.v.size() < 6) {
            P.v.push_back({std::move(x), std::move(m)});
        } else {
            const auto k = s.below(6);
            P.v[k].s = std::move(x);
            P.v[k].m = std::move(m);
        }
    };
    if (P.v.empty() || s.below(6) == 0) {
        auto t = text(s);
        s.say("string of {}", t.size());
        put(std::unique_ptr<Str>(new Str(make(t))), t);
        return;
    }
    const size_t i = s.below(uint32_t(P.v.size())), j = s.below(uint32_t(P.v.size()));
    auto& x = *P.v[i].s;
    auto& m = P.v[i].m;
    auto& y = *P.v[j].s;
    auto& n = P.v[j].m;
    const auto what = s.below(19);
    s.say("op {} on {}", what, m.size());
    switch (what) {
        case 0: put(std::unique_ptr<Str>(new Str(x)), m); break;
        case 1: {
#if defined(CROSS_THREAD_CHECKING) && !defined(NDEBUG)
            if constexpr (!std::is_same_v<Str, mem::string>) break;  // does not compile in this configuration
            else {
#else
            {
#endif
            std::unique_ptr<Str> c(new Str(x.clone()));
            T_CHECK(s, m.empty() || c->data() + c->size() <= x.data() || x.data() + x.size() <= c->data(), "a clone of {} characters lies in the storage of its original", m.size());
            put(std::move(c), m);
            }
            break;
        }
        case 2:
            if (m.size() + n.size() > 5000) break;
            x.append(y);
            m += std::string(n);
            break;
        case 3: x.push_back('p'), m.push_back('p'); break;
        case 4: {
            const auto p = s.below(uint32_t(m.size() + 1));
            auto t = text(s);
            if (m.size() > 5000) break;
            x.insert(p, t.data(), t.size());
            m.insert(p, t);
            break;
        }
        case 5: {
            const auto p = s.below(uint32_t(m.size() + 1));
            const auto k = s.below(300);
            x.erase(p, k);
            m.erase(p, k);
            break;
        }
        case 6: {
            const auto k = kSizes[s.below(15)];
            x.resize(k, 'r');
            m.resize(k, 'r');
            break;
        }
        case 7:
            if (!m.empty()) {
                const auto p = s.below(uint32_t(m.size()));
                x[p] = 'w';
                m[p] = 'w';
            }
            break;
        case 8: x = y, m = std::string(n); break;
        case 9: T_CHECK(s, (x == y) == (m == n) && (x < y) == (m < n), "comparison of {} and {} characters", m.size(), n.size()); break;
        case 10:
            if constexpr (std::is_same_v<Str, mem::string>) {
                T_CHECK(s, (m != n) || std::hash<Str>()(x) == std::hash<Str>()(y), "hashes of equal strings");
                T_CHECK(s, fmt::format("<{}>", x) == "<" + m + ">", "formatting");
            }
            break;
        case 11: {
            const char c = char('A' + s.below(26));
            T_CHECK(s, x.find(c) == m.find(c) && x.rfind(c) == m.rfind(c), "find({})", c);
            break;
        }
        case 12: {
            std::ostringstream os;
            os << x;
            T_CHECK(s, os.str() == m, "insertion to a stream");
            break;
        }
        case 13: {
            std::istringstream is(m + "\nrest");
            Str t(x.get_allocator());
            std::string want;
            getline(is, t);
            std::istringstream is2(m + "\nrest");
            std::getline(is2, want);
            T_CHECK(s, same(t, want), "getline");
            break;
        }
        case 14: x.reserve(kSizes[s.below(15)]); break;
        case 15: x.shrink_to_fit(); break;
        case 16: {
            const auto p = s.below(uint32_t(m.size() + 1));
            const auto k = s.below(400);
            put(std::unique_ptr<Str>(new Str(x.substr(p, k))), m.substr(p, k));
            return;
        }
        case 17:
            P.v.erase(P.v.begin() + long(i));
            return;
        case 18:
            if (i != j) {
                x = std::move(y);
                m = std::move(n);
                n = std::string(y.data(), y.size());
            }
            break;
    }
    for (auto& o : P.v) T_CHECK(s, same(*o.s, o.m), "a string of {} characters has changed", o.m.size());
}

// ---- arenas -----------------------------------------------------------------------------------------------------
struct Counted {
    std::string text;
    uint64_t* gone;
    Counted(std::string t, uint64_t* g) : text(std::move(t)), gone(g) {}
    ~Counted() { ++*gone; }
    ArenaFullManagedTag;
};
struct ArenaActor {
    struct Region {
        char* p;
        size_t n;
        unsigned char c;
    };
    std::unique_ptr<mem::Arena> a;
    std::vector<Region> regions;
    std::vector<std::pair<Counted*, std::string>> objs;
    Strings<mem::arena_string> strs;
    std::unique_ptr<uint64_t> gone{new uint64_t(0)};
    uint64_t made = 0;
    unsigned char next = 1;
    ArenaActor() { fresh(); }
    ArenaActor(ArenaActor&&) = default;
    auto operator=(ArenaActor&&) -> ArenaActor& = delete;
    ~ArenaActor() { strs.v.clear(); }
    void fresh() {
        auto o = mem::Arena::Options::GetDefaultOptions();
        o.normal_block_size = 512;
        o.suggested_init_block_size = 256;
        o.huge_block_size = 4096;
        o.on_arena_init = &mem::metrics_probe_on_arena_init;
        o.on_arena_reset = &mem::metrics_probe_on_arena_reset;
        o.on_arena_allocation = &mem::metrics_probe_on_arena_allocation;
        o.on_arena_newblock = &mem::metrics_probe_on_arena_newblock;
        o.on_arena_destruction = &mem::metrics_probe_on_arena_destruction;
        a = std::make_unique<mem::Arena>(o);
    }
    void drop() {
        strs.v.clear();
        regions.clear();
        objs.clear();
    }
    void step(Script& s) {
        switch (s.below(10)) {
            case 0:
            case 1: {
                const size_t n = 1 + s.below(400);
                s.say("allocate {}", n);
                auto* p = a->AllocateAligned(n);
                T_CHECK(s, p != nullptr, "no memory for {} bytes", n);
                memset(p, ++next, n);
                regions.push_back({p, n, next});
                break;
            }
            case 2:
            case 3: {
                auto t = text(s);
                s.say("create with {}", t.size());
                auto* p = a->Create<Counted>(t, gone.get());
                T_CHECK(s, p != nullptr, "no memory for an object");
                ++made;
                objs.emplace_back(p, t);
                break;
            }
            case 4: {
                s.say("reset");
                drop();
                a->Reset();
                T_CHECK(s, *gone == made, "{} of {} objects were destroyed by the reset", *gone, made);
                break;
            }
            case 5: {
                s.say("new arena");
                drop();
                a.reset();
                T_CHECK(s, *gone == made, "{} of {} objects were destroyed with the arena", *gone, made);
                fresh();
                break;
            }
            default:
                string_step(s, strs, [&](const std::string& t) { return mem::arena_string(t.data(), t.size(), a->get_memory_resource()); });
        }
        for (auto& r : regions) {
            bool ok = a->check(r.p) != mem::ArenaContainStatus::NotContain;
            for (size_t k = 0; ok && k < r.n; ++k) ok = static_cast<unsigned char>(r.p[k]) == r.c;
            T_CHECK(s, ok, "an allocation of {} bytes was overwritten, or is not in its arena", r.n);
        }
        for (auto& [p, t] : objs) T_CHECK(s, p->text == t, "an object of the arena was overwritten");
    }
};

// ---- vectors ----------------------------------------------------------------------------------------------------
struct VectorActor {
    stdb_vector<int> a;
    std::vector<int> ma;
    stdb_vector<std::string> b;
    std::vector<std::string> mb;
    void step(Script& s) {
        const auto what = s.below(10);
        s.say("vector op {} on {} {}", what, ma.size(), mb.size());
        const int x = int(s.below(100));
        const auto pa = s.below(uint32_t(ma.size() + 1)), pb = s.below(uint32_t(mb.size() + 1));
        switch (what) {
            case 0: a.push_back(x), ma.push_back(x); break;
            case 1: b.push_back(std::to_string(x)), mb.push_back(std::to_string(x)); break;
            case 2: a.insert(a.cbegin() + pa, size_t(x % 20), x), ma.insert(ma.begin() + pa, size_t(x % 20), x); break;
            case 3: b.insert(b.cbegin() + pb, std::string(size_t(x), 'v')), mb.insert(mb.begin() + pb, std::string(size_t(x), 'v')); break;
            case 4:
                if (pa < ma.size()) a.erase(a.begin() + pa), ma.erase(ma.begin() + pa);
                break;
            case 5:
                if (pb < mb.size()) b.erase(b.begin() + pb), mb.erase(mb.begin() + pb);
                break;
            case 6: a.resize(size_t(x)), ma.resize(size_t(x)); break;
            case 7: b.resize(size_t(x % 30)), mb.resize(size_t(x % 30)); break;
            case 8: {
                auto c = b;
                b = std::move(c);
                break;
            }
            case 9: std::sort(a.begin(), a.end()), std::sort(ma.begin(), ma.end()); break;
        }
        T_CHECK(s, std::equal(a.begin(), a.end(), ma.begin(), ma.end()) && std::equal(b.begin(), b.end(), mb.begin(), mb.end()), "contents of a vector after op {}", what);
    }
};

// ---- parsers ----------------------------------------------------------------------------------------------------
void parser_step(Script& s) {
    op::OptionParser p;
    const auto dflt = s.below(1000);
    p.add_option("-n", "--num").type(op::Type::Int).action(op::Action::Store).default_value(std::to_string(dflt).c_str()).help("a number");
    p.add_option("-l", "--list").type(op::Type::String).action(op::Action::Append).dest("list");
    p.add_option("-f", "--flag").type(op::Type::Bool).action(op::Action::StoreTrue).dest("flag");
    std::vector<std::string> args{"prog"};
    int num = int(dflt);
    bool flag = false;
    std::vector<std::string> list, rest;
    const auto k = s.below(6);
    for (uint32_t q = 0; q < k; ++q) {
        const auto x = s.below(1000);
        switch (s.below(4)) {
            case 0:
                num = int(x);
                if (x % 2 == 0) args.push_back("--num=" + std::to_string(x));
                else args.push_back("-n"), args.push_back(std::to_string(x));
                break;
            case 1:
                args.push_back("--list=v" + std::to_string(x));
                list.push_back("v" + std::to_string(x));
                break;
            case 2:
                args.push_back("-f");
                flag = true;
                break;
            case 3:
                args.push_back("--unknown" + std::to_string(x));
                rest.push_back(args.back());
                break;
        }
    }
    s.say("parse {} arguments", args.size());
    std::vector<const char*> av;
    for (auto& x : args) av.push_back(x.c_str());
    auto store = p.parse_args(int(av.size()), av.data());
    T_CHECK(s, store.get<int>("num") == num, "num is not {}", num);
    T_CHECK(s, store.get<bool>("flag").value_or(false) == flag, "flag is not {}", flag);
    auto l = store.get_list<op::string>("list");
    T_CHECK(s, (l ? l->size() : 0) == list.size(), "list has {} values, not {}", l ? l->size() : 0, list.size());
    for (size_t q = 0; q < list.size(); ++q) T_CHECK(s, std::string((*l)[q].data()) == list[q], "value {} of the list", q);
    auto inv = p.invalid_args();
    T_CHECK(s, inv.size() == rest.size(), "{} unrecognised arguments, not {}", inv.size(), rest.size());
    for (size_t q = 0; q < rest.size(); ++q) T_CHECK(s, rest[q] == inv[q], "unrecognised argument {}", q);
    auto h = p.format_help();
    T_CHECK(s, h.find("--num") != h.npos && h.find("a number") != h.npos && h.find("--list") != h.npos, "help text");
}

// ---- the same constant objects read by all threads ----------------------------------------------------------------
struct Common {
    std::vector<std::pair<std::unique_ptr<mem::string>, std::string>> strs;
    stdb_vector<int> v;
    std::vector<int> m;
};
void common_step(Script& s, const Common& c) {
    if (c.strs.empty()) return;
    const size_t i = s.below(uint32_t(c.strs.size())), j = s.below(uint32_t(c.strs.size()));
    const mem::string& x = *c.strs[i].first;
    const mem::string& y = *c.strs[j].first;
    const auto& m = c.strs[i].second;
    const auto& n = c.strs[j].second;
    switch (s.below(6)) {
        case 0: T_CHECK(s, same(x, m), "a constant string has changed"); break;
        case 1: T_CHECK(s, (x == y) == (m == n) && (x < y) == (m < n) && x.compare(y) * m.compare(n) >= 0, "comparison of constant strings"); break;
        case 2: T_CHECK(s, x.find(y) == m.find(n) && x.rfind('A') == m.rfind('A'), "search in a constant string"); break;
        case 3: T_CHECK(s, (m != n) || std::hash<mem::string>()(x) == std::hash<mem::string>()(y), "hash of constant strings"); break;
        case 4: T_CHECK(s, fmt::format("{}", x) == m && std::string(x) == m && std::string_view(x) == m, "conversions of a constant string"); break;
        case 5: {
            auto copy = c.v;
            T_CHECK(s, std::equal(copy.begin(), copy.end(), c.m.begin(), c.m.end()) && c.v == copy && c.v.size() == c.m.size(), "a constant vector has changed");
            break;
        }
    }
}

// ---- one thread's objects -----------------------------------------------------------------------------------------
struct Outbox {
    std::vector<Strings<mem::string>::One> clones;
    VectorActor vec;
    std::unique_ptr<ArenaActor> arena;
};
struct Actor {
    std::vector<Script> scripts;
    Strings<mem::string> strs;
    VectorActor vec;
    std::unique_ptr<ArenaActor> arena;
    Outbox out;
    std::string failed;
    uint64_t destroyed = 0, made = 0;

    void work(Script& s, uint32_t focus, const Common& common) {
        while (s.more() && s.failed.empty()) {
            switch (focus < 5 ? focus : s.below(5)) {
                case 0: string_step(s, strs, [](const std::string& t) { return mem::string(t.data(), t.size()); }); break;
                case 1: arena->step(s); break;
                case 2: vec.step(s); break;
                case 3: parser_step(s); break;
                default: common_step(s, common); break;
            }
        }
    }
    void give(uint32_t what) {
        if (what & 1) {
            for (auto& o : strs.v) {
                if (out.clones.size() < 3) out.clones.push_back({std::unique_ptr<mem::string>(new mem::string(o.s->clone())), o.m});
            }
        }
        if (what & 2) out.vec = std::move(vec);
        if (what & 4) {
            arena->strs.v.clear();
            out.arena = std::move(arena);
        }
    }
    void take(uint32_t what, Outbox& in) {
        size_t q = 0;
        for (auto& o : in.clones) {
            if (strs.v.size() < 6) {
                strs.v.push_back(std::move(o));
            } else {
                strs.v[q++] = std::move(o);
            }
        }
        in.clones.clear();
        if (what & 2) vec = std::move(in.vec);
        if (what & 4) arena = std::move(in.arena);
    }
};

void prop_t01(Source& src) {
    const size_t k = src.range(2, 4), rounds = src.range(1, 3);
    const auto focus = uint32_t(src.below(7));  // 5, 6: everything
    Common common;
    for (size_t n = src.range(1, 4); n > 0; --n) {
        std::string m(kSizes[src.below(15)], 'c');
        for (size_t q = 3; q < m.size(); q += 11) m[q] = char('A' + q % 26);
        common.strs.emplace_back(new mem::string(m.data(), m.size()), m);
        common.v.push_back(int(m.size()));
        common.m.push_back(int(m.size()));
    }
    std::vector<std::unique_ptr<Actor>> actors;
    for (size_t i = 0; i < k; ++i) {
        actors.push_back(std::make_unique<Actor>());
        actors[i]->scripts.resize(rounds);
    }
    src.set_len(6, 60);
    uint64_t steps = 0;
    while (src.next_op()) {
        auto& sc = actors[src.below(k)]->scripts[src.below(rounds)];
        for (size_t q = 0, n = src.range(4, 12); q < n; ++q) sc.v.push_back(uint32_t(src.below(1u << 20)));
        ++steps;
    }
    std::vector<uint32_t> hand;
    for (size_t r = 0; r < rounds; ++r) hand.push_back(uint32_t(src.below(8)));
    pbt::log("{} threads, {} rounds, focus {}, handed on {}", k, rounds, focus, hand);

    std::barrier sync(std::ptrdiff_t(k) + 0);
    std::vector<std::thread> threads;
    for (size_t i = 0; i < k; ++i) {
        threads.emplace_back([&, i] {
            auto& a = *actors[i];
            a.arena = std::make_unique<ArenaActor>();
            for (size_t r = 0; r < rounds; ++r) {
                sync.arrive_and_wait();
                if (a.failed.empty()) a.work(a.scripts[r], focus, common);
                if (!a.scripts[r].failed.empty()) a.failed = a.scripts[r].failed;
                a.give(hand[r]);
                sync.arrive_and_wait();
                a.take(hand[r], actors[(i + k - 1) % k]->out);
            }
            sync.arrive_and_wait();
            a.strs.v.clear();
            a.arena->drop();
            a.arena->a.reset();
            a.destroyed = *a.arena->gone;
            a.made = a.arena->made;
        });
    }
    for (auto& t : threads) t.join();
    uint64_t busy = 0;
    for (size_t r = 0; r < rounds; ++r) {
        size_t active = 0;
        for (size_t i = 0; i < k; ++i) {
            auto& s = actors[i]->scripts[r];
            if (!s.log.empty()) pbt::log("round {} thread {}: {}", r, i, s.log);
            if (!s.v.empty()) ++active;
        }
        if (active >= 2) ++busy;
        if (hand[r] & 1) pbt::label("clones handed on");
        if (hand[r] & 2) pbt::label("vectors handed on");
        if (hand[r] & 4) pbt::label("arenas handed on");
    }
    if (busy > 0) {
        static const char* const names[] = {"strings", "arenas", "vectors", "parsers", "common constants", "everything", "everything"};
        pbt::label(names[focus]);
    }
    for (size_t i = 0; i < k; ++i) CHECK_THAT(actors[i]->failed.empty(), "thread {}: {}", i, actors[i]->failed);
    for (auto& a : actors) CHECK_THAT(a->destroyed == a->made, "{} of {} objects were destroyed with the arenas", a->destroyed, a->made);
    if (busy >= 1 && steps >= 6) pbt::nontrivial();
}
}  // namespace

int main(int argc, char** argv) { return pbt::engine_main(argc, argv, {{"T01", prop_t01, false}}); }
