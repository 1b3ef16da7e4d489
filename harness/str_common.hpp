// Generators and the edit vocabulary shared by the string harnesses: every edit is applied to a library string and
// to a std::basic_string and the results are compared.
#pragma once
#include <deque>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "arena/arena.hpp"
#include "pbt.hpp"
#include "string/arena_string.hpp"
#include "string/string.hpp"

namespace sh {
using pbt::Source;
namespace sm = stdb::memory;

template <class C>
struct HeapKind {
    using Char = C;
    using Str = sm::basic_string<C>;
    using Std = std::basic_string<C>;
    using Alloc = std::allocator<C>;
    static constexpr bool arena = false;
};
template <class C>
struct ArenaKindOf {
    using Char = C;
    using Str = sm::arena_basic_string<C>;
    using Std = std::basic_string<C>;
    using Alloc = std::pmr::polymorphic_allocator<C>;
    static constexpr bool arena = true;
};
using ArenaKind = ArenaKindOf<char>;

// ---- text ----------------------------------------------------------------------------------------------
// in few cases lengths beyond 16 bits
inline bool g_big = false;
struct Big {
    explicit Big(Source& src, uint64_t one_in = 400) {
        g_big = src.chance(1, one_in);
        if (g_big) pbt::label("texts of more than 65536 characters");
    }
    ~Big() { g_big = false; }
    Big(const Big&) = delete;
};
inline size_t gen_len(Source& src, size_t max = 1200) {
    if (g_big && max >= 300 && src.chance(1, 4)) return src.near({32768, 65536, 131072}, 4, 140000);
    switch (src.weighted({5, 4, 2, 1})) {
        case 0:
            return std::min<size_t>(src.below(14), max);
        case 1:
            return src.near({23, 24, 46, 254, 255, 256, 70, 130, 382}, 2, max);
        case 2:
            return std::min<size_t>(src.below(60), max);
        default:
            return std::min<size_t>(src.below(700), max);
    }
}
template <class C>
inline C gen_char(Source& src) {
    switch (src.weighted({6, 2, 1})) {
        case 0:
            return static_cast<C>('a' + src.below(3));
        case 1:
            return static_cast<C>(src.below(256));
        default:
            return static_cast<C>(src.below(sizeof(C) == 1 ? 256 : sizeof(C) == 2 ? 65536 : 0x110000));
    }
}
// style: 0 one letter, 1 two letters at random, 2 periodic, 3 printable, 4 anything
template <class C>
inline std::basic_string<C> gen_text_n(Source& src, size_t n, bool nul_ok = true) {
    const size_t style = src.weighted({2, 3, 2, 3, 3});
    uint64_t seed = src.below(1U << 16U);
    std::basic_string<C> t(n, C('a'));
    for (size_t i = 0; i < n; ++i) {
        uint64_t s2 = seed * 1000003 + i;
        const uint64_t r = pbt::splitmix(s2);
        uint64_t v = 'a';
        switch (style) {
            case 0:
                v = 'a' + seed % 3;
                break;
            case 1:
                v = 'a' + r % 2;
                break;
            case 2:
                v = 'a' + i % (2 + seed % 5);
                break;
            case 3:
                v = 32 + r % 95;
                break;
            default:
                v = r % 7 == 0 ? 0 : (r >> 8U) % (sizeof(C) == 1 ? 256 : sizeof(C) == 2 ? 65536 : 0x110000);
        }
        if (!nul_ok && static_cast<C>(v) == C(0)) v = 'z';
        t[i] = static_cast<C>(v);
    }
    return t;
}
template <class C>
inline std::basic_string<C> gen_text(Source& src, size_t max = 1200, bool nul_ok = true) {
    const size_t n = gen_len(src, max);
    return gen_text_n<C>(src, n, nul_ok);
}
// characters in a heap block of exactly their size, at a chosen misalignment, so that any read outside is seen
template <class C>
struct Raw {
    std::unique_ptr<C[]> buf;
    const C* p;
    size_t n;
    Raw(Source& src, const std::basic_string<C>& t, bool zero_terminated) : n(t.size()) {
        const size_t off = src.below(3);
        buf.reset(new C[off + n + (zero_terminated ? 1 : 0)]);
        std::copy(t.begin(), t.end(), buf.get() + off);
        if (zero_terminated) buf[off + n] = C(0);
        p = buf.get() + off;
    }
    const C* e() const { return p + n; }
};
template <class T>
inline std::string show(const T& t) {
    std::string o = fmt::format("[{}]\"", t.size());
    for (size_t i = 0; i < t.size() && i < 48; ++i) {
        const auto c = static_cast<uint64_t>(t.data()[i]);
        if (c >= 32 && c < 127) {
            o += static_cast<char>(c);
        } else {
            o += fmt::format("\\{:x}", c & 0x1fffff);
        }
    }
    return o + (t.size() > 48 ? "...\"" : "\"");
}
template <class A, class B>
inline bool same(const A& a, const B& b) {
    return a.size() == b.size() && std::equal(b.begin(), b.end(), a.data());
}

// ---- slots ---------------------------------------------------------------------------------------------
template <class K>
struct Slot {
    typename K::Str s;
    typename K::Std m;
    template <class... A>
    explicit Slot(typename K::Std mm, A&&... a) : s(std::forward<A>(a)...), m(std::move(mm)) {}
};
template <class K>
using SlotP = std::unique_ptr<Slot<K>>;

// builds a string by one of the constructors; `alloc` is passed where the kind needs it
template <class K>
SlotP<K> construct(Source& src, const typename K::Alloc& alloc, const typename K::Str* other, const typename K::Std* other_m) {
    using C = typename K::Char;
    using Str = typename K::Str;
    using Std = typename K::Std;
    const bool with = K::arena || src.coin();
    auto mk = [&](Std m, auto&&... a) -> SlotP<K> {
        if constexpr (K::arena) {
            return std::make_unique<Slot<K>>(std::move(m), std::forward<decltype(a)>(a)..., alloc);
        } else {
            if (with) return std::make_unique<Slot<K>>(std::move(m), std::forward<decltype(a)>(a)..., alloc);
            return std::make_unique<Slot<K>>(std::move(m), std::forward<decltype(a)>(a)...);
        }
    };
    switch (src.below(12)) {
        case 0:
            pbt::log("new()");
            return mk(Std());
        case 1: {
            auto t = gen_text<C>(src);
            Raw<C> r(src, t, false);
            pbt::log("new(ptr,n) {}", show(t));
            return mk(t, r.p, r.n);
        }
        case 2: {
            auto t = gen_text<C>(src, 1200, false);
            Raw<C> r(src, t, true);
            pbt::log("new(cstr) {}", show(t));
            return mk(t, r.p);
        }
        case 3: {
            const size_t n = gen_len(src);
            const C c = gen_char<C>(src);
            pbt::log("new({}, {:x})", n, static_cast<uint64_t>(c) & 0x1fffff);
            return mk(Std(n, c), n, c);
        }
        case 4: {
            auto t = gen_text<C>(src);
            Raw<C> r(src, t, false);
            pbt::log("new(first,last) pointers {}", show(t));
            return mk(t, r.p, r.e());
        }
        case 5: {
            auto t = gen_text<C>(src);
            std::list<C> l(t.begin(), t.end());
            pbt::log("new(first,last) list {}", show(t));
            return mk(t, l.begin(), l.end());
        }
        case 6: {
            auto t = gen_text<C>(src);
            std::basic_istringstream<char> is(std::string(t.begin(), t.end()));
            Std tt;
            for (char c : is.str()) tt.push_back(static_cast<C>(c));
            pbt::log("new(first,last) input iterators {}", show(tt));
            return mk(tt, std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
        }
        case 7: {
            auto t = gen_text<C>(src);
            Raw<C> r(src, t, false);
            pbt::log("new(view) {}", show(t));
            return mk(t, std::basic_string_view<C>(r.p, r.n));
        }
        case 8: {
            const C a = gen_char<C>(src);
            const C b = gen_char<C>(src);
            pbt::log("new{{..}}");
            if (src.coin()) return mk(Std{a, b, a}, std::initializer_list<C>{a, b, a});
            return mk(Std{a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b},
                      std::initializer_list<C>{a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b});
        }
        case 9: {
            if (other == nullptr) return mk(Std());
            const size_t pos = src.below(other_m->size() + 1);
            const size_t n = src.coin() ? Str::npos : src.below(other_m->size() + 2);
            pbt::log("new(string, {}, {})", pos, n);
            if constexpr (!K::arena) {
                if (!with && src.coin()) return std::make_unique<Slot<K>>(Std(*other_m, pos), *other, pos);
            }
            return mk(Std(*other_m, pos, n), *other, pos, n);
        }
        case 10: {
            auto t = gen_text<C>(src);
            pbt::log("new(std::string) {}", show(t));
            if constexpr (K::arena) {
                return mk(t, std::basic_string_view<C>(t));
            } else {
                return std::make_unique<Slot<K>>(t, t);
            }
        }
        default: {
            auto t = gen_text<C>(src);
            std::deque<C> l(t.rbegin(), t.rend());
            pbt::log("new(first,last) reverse deque {}", show(t));
            return mk(t, l.rbegin(), l.rend());
        }
    }
}

enum class Effect {
    edit,      // append/insert/erase/resize/element write: must not move an unshared string that has room
    assign,    // whole or partial replacement of contents
    capacity,  // reserve, shrink
};

#define RET_SELF(...)                                                                                        \
    do {                                                                                                     \
        auto& ret_ = (__VA_ARGS__);                                                                          \
        if (static_cast<const void*>(&ret_) != static_cast<const void*>(&s))                                 \
            pbt::fail(std::string("a modifier does not return the string it modified: ") + #__VA_ARGS__);    \
    } while (0)
#define RET_AT(expect, ...)                                                                                  \
    do {                                                                                                     \
        auto it_ = (__VA_ARGS__);                                                                            \
        const auto off_ = static_cast<uint64_t>(it_ - s.begin());                                            \
        const uint64_t exp_ = static_cast<uint64_t>(expect);                                                 \
        if (off_ != exp_)                                                                                    \
            pbt::fail(fmt::format("returned iterator is at {} instead of {}: {}", off_, exp_, #__VA_ARGS__)); \
    } while (0)

// one edit with in-range arguments; `other` is another string (its contents in om), never the edited one
template <class K>
Effect edit(Source& src, typename K::Str& s, typename K::Std& m, const typename K::Str& other, const typename K::Std& om) {
    using C = typename K::Char;
    using Str = typename K::Str;
    using Std = typename K::Std;
    using View = std::basic_string_view<C>;
    const size_t room = m.size() > (g_big ? 250000 : 2500) ? 60 : 1200;
    const size_t n0 = m.size();
    auto pos_in = [&] { return src.below(n0 + 1); };
    auto cnt = [&]() -> size_t { return src.chance(1, 5) ? Str::npos : src.below(n0 + 2); };
    auto range = [&](size_t& a, size_t& b) {
        a = src.below(n0 + 1);
        b = a + src.below(n0 - a + 1);
    };
    auto sub_other = [&](size_t& p, size_t& n) {
        p = src.below(om.size() + 1);
        n = src.chance(1, 5) ? Str::npos : src.below(om.size() + 2);
    };
    const bool other_ok = om.size() <= room;
    switch (src.below(other_ok ? 66 : 52)) {
        // ---- growth at the end
        case 0: {
            const C c = gen_char<C>(src);
            pbt::log("push_back");
            s.push_back(c);
            m.push_back(c);
            return Effect::edit;
        }
        case 1: {
            auto t = gen_text<C>(src, room);
            Raw<C> r(src, t, false);
            pbt::log("append(ptr,n) {}", show(t));
            RET_SELF(s.append(r.p, r.n));
            m.append(t);
            return Effect::edit;
        }
        case 2: {
            auto t = gen_text<C>(src, room, false);
            Raw<C> r(src, t, true);
            pbt::log("append(cstr) {}", show(t));
            if (src.coin()) {
                RET_SELF(s.append(r.p));
            } else {
                RET_SELF(s += r.p);
            }
            m.append(t);
            return Effect::edit;
        }
        case 3: {
            const size_t n = gen_len(src, room);
            const C c = gen_char<C>(src);
            pbt::log("append({},c)", n);
            RET_SELF(s.append(n, c));
            m.append(n, c);
            return Effect::edit;
        }
        case 4: {
            auto t = gen_text<C>(src, room);
            pbt::log("append(first,last) {}", show(t));
            if (src.coin()) {
                Raw<C> r(src, t, false);
                RET_SELF(s.append(r.p, r.e()));
            } else {
                std::list<C> l(t.begin(), t.end());
                RET_SELF(s.append(l.begin(), l.end()));
            }
            m.append(t);
            return Effect::edit;
        }
        case 5: {
            auto t = gen_text<C>(src, room);
            Raw<C> r(src, t, false);
            pbt::log("+=view {}", show(t));
            RET_SELF(s += View(r.p, r.n));
            m.append(t);
            return Effect::edit;
        }
        case 6: {
            const C a = gen_char<C>(src);
            const C b = gen_char<C>(src);
            pbt::log("append{{}}");
            if (src.coin()) {
                RET_SELF(s.append({a, b, b}));
            } else {
                RET_SELF(s += {a, b, b});
            }
            m.append({a, b, b});
            return Effect::edit;
        }
        case 7: {
            const C c = gen_char<C>(src);
            pbt::log("+=c");
            RET_SELF(s += c);
            m += c;
            return Effect::edit;
        }
        case 8: {
            const size_t n = src.coin() ? gen_len(src, n0 + room) : src.near({n0, s.capacity()}, 2, n0 + room);
            pbt::log("resize({})", n);
            if (src.coin()) {
                s.resize(n);
                m.resize(n);
            } else {
                const C c = gen_char<C>(src);
                s.resize(n, c);
                m.resize(n, c);
            }
            return Effect::edit;
        }
        case 9:  // fill exactly up to (around) the capacity
        case 10: {
            const size_t cap = s.capacity();
            size_t n = cap > n0 ? cap - n0 : 0;
            n = std::min<size_t>(n + src.below(3), room);
            auto t = gen_text_n<C>(src, n);
            Raw<C> r(src, t, false);
            pbt::log("append up to the capacity ({})", n);
            RET_SELF(s.append(r.p, r.n));
            m.append(t);
            return Effect::edit;
        }
        // ---- shrinking
        case 11: {
            if (n0 == 0) return Effect::edit;
            pbt::log("pop_back");
            s.pop_back();
            m.pop_back();
            return Effect::edit;
        }
        case 12: {
            pbt::log("clear");
            s.clear();
            m.clear();
            return Effect::edit;
        }
        case 13:
        case 14: {
            const size_t p = pos_in();
            const size_t n = cnt();
            pbt::log("erase({},{})", p, n);
            RET_SELF(s.erase(p, n));
            m.erase(p, n);
            return Effect::edit;
        }
        case 15: {
            const size_t p = pos_in();
            pbt::log("erase({})", p);
            RET_SELF(s.erase(p));
            m.erase(p);
            return Effect::edit;
        }
        case 16: {
            if (n0 == 0) return Effect::edit;
            const size_t p = src.below(n0);
            pbt::log("erase(it {})", p);
            RET_AT(p, s.erase(s.begin() + static_cast<long>(p)));
            m.erase(m.begin() + static_cast<long>(p));
            return Effect::edit;
        }
        case 17:
        case 18: {
            size_t a = 0, b = 0;
            range(a, b);
            pbt::log("erase(it {}, it {})", a, b);
            auto f = s.begin();
            RET_AT(a, s.erase(f + static_cast<long>(a), f + static_cast<long>(b)));
            m.erase(a, b - a);
            return Effect::edit;
        }
        // ---- insertion
        case 19:
        case 20: {
            const size_t p = pos_in();
            auto t = gen_text<C>(src, room);
            Raw<C> r(src, t, false);
            pbt::log("insert({}, ptr,n) {}", p, show(t));
            RET_SELF(s.insert(p, r.p, r.n));
            m.insert(p, t);
            return Effect::edit;
        }
        case 21: {
            const size_t p = pos_in();
            auto t = gen_text<C>(src, room, false);
            Raw<C> r(src, t, true);
            pbt::log("insert({}, cstr) {}", p, show(t));
            RET_SELF(s.insert(p, r.p));
            m.insert(p, t);
            return Effect::edit;
        }
        case 22: {
            const size_t p = pos_in();
            const size_t n = gen_len(src, room);
            const C c = gen_char<C>(src);
            pbt::log("insert({}, {}, c)", p, n);
            RET_SELF(s.insert(p, n, c));
            m.insert(p, n, c);
            return Effect::edit;
        }
        case 23: {
            const size_t p = pos_in();
            const C c = gen_char<C>(src);
            pbt::log("insert(it {}, c)", p);
            RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), c));
            m.insert(p, 1, c);
            return Effect::edit;
        }
        case 24: {
            const size_t p = pos_in();
            const size_t n = gen_len(src, room);
            const C c = gen_char<C>(src);
            pbt::log("insert(it {}, {}, c)", p, n);
            RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), n, c));
            m.insert(p, n, c);
            return Effect::edit;
        }
        case 25: {
            const size_t p = pos_in();
            auto t = gen_text<C>(src, room);
            pbt::log("insert(it {}, first,last) {}", p, show(t));
            if (src.coin()) {
                Raw<C> r(src, t, false);
                RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), r.p, r.e()));
            } else {
                std::deque<C> l(t.rbegin(), t.rend());
                RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), l.rbegin(), l.rend()));
            }
            m.insert(p, t);
            return Effect::edit;
        }
        case 26: {
            const size_t p = pos_in();
            const C a = gen_char<C>(src);
            const C b = gen_char<C>(src);
            pbt::log("insert(it {}, {{}})", p);
            RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), {a, b}));
            m.insert(p, Std{a, b});
            return Effect::edit;
        }
        case 27: {  // input iterators
            const size_t p = pos_in();
            auto t = gen_text<char>(src, room);
            std::istringstream is(t);
            Std tt;
            for (char c : t) tt.push_back(static_cast<C>(c));
            pbt::log("insert(it {}, input iterators) {}", p, show(t));
            RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), std::istreambuf_iterator<char>(is),
                               std::istreambuf_iterator<char>()));
            m.insert(p, tt);
            return Effect::assign;
        }
        // ---- element writes
        case 28:
        case 29: {
            if (n0 == 0) return Effect::edit;
            const size_t p = src.below(n0);
            const C c = gen_char<C>(src);
            const size_t how = src.below(7);
            pbt::log("write element {} by way {}", p, how);
            switch (how) {
                case 0:
                    s[p] = c;
                    m[p] = c;
                    break;
                case 1:
                    s.at(p) = c;
                    m[p] = c;
                    break;
                case 2:
                    s.front() = c;
                    m.front() = c;
                    break;
                case 3:
                    s.back() = c;
                    m.back() = c;
                    break;
                case 4:
                    *(s.begin() + static_cast<long>(p)) = c;
                    m[p] = c;
                    break;
                case 5:
                    *(s.end() - static_cast<long>(n0 - p)) = c;
                    m[p] = c;
                    break;
                default:
                    *(s.rbegin() + static_cast<long>(p)) = c;
                    *(m.rbegin() + static_cast<long>(p)) = c;
            }
            return Effect::edit;
        }
        // ---- whole assignment
        case 30:
        case 31: {
            auto t = gen_text<C>(src);
            Raw<C> r(src, t, false);
            pbt::log("assign(ptr,n) {}", show(t));
            RET_SELF(s.assign(r.p, r.n));
            m = t;
            return Effect::assign;
        }
        case 32: {
            auto t = gen_text<C>(src, 1200, false);
            Raw<C> r(src, t, true);
            pbt::log("assign(cstr) {}", show(t));
            if (src.coin()) {
                RET_SELF(s.assign(r.p));
            } else {
                RET_SELF(s = r.p);
            }
            m = t;
            return Effect::assign;
        }
        case 33: {
            const size_t n = gen_len(src);
            const C c = gen_char<C>(src);
            pbt::log("assign({},c)", n);
            RET_SELF(s.assign(n, c));
            m.assign(n, c);
            return Effect::assign;
        }
        case 34: {
            auto t = gen_text<C>(src);
            pbt::log("assign(first,last) {}", show(t));
            switch (src.below(3)) {
                case 0: {
                    Raw<C> r(src, t, false);
                    RET_SELF(s.assign(r.p, r.e()));
                    break;
                }
                case 1: {
                    std::list<C> l(t.begin(), t.end());
                    RET_SELF(s.assign(l.begin(), l.end()));
                    break;
                }
                default: {
                    std::string narrow;
                    Std wide;
                    for (C c : t) {
                        narrow.push_back(static_cast<char>(c));
                        wide.push_back(static_cast<C>(static_cast<char>(c)));
                    }
                    std::istringstream is(narrow);
                    RET_SELF(s.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()));
                    t = wide;
                }
            }
            m = t;
            return Effect::assign;
        }
        case 35: {
            const C a = gen_char<C>(src);
            const C b = gen_char<C>(src);
            pbt::log("assign{{}}");
            if (src.coin()) {
                RET_SELF(s.assign({a, b, a}));
            } else {
                RET_SELF(s = {a, b, a});
            }
            m = {a, b, a};
            return Effect::assign;
        }
        case 36: {
            const C c = gen_char<C>(src);
            pbt::log("= c");
            RET_SELF(s = c);
            m = c;
            return Effect::assign;
        }
        case 37: {
            auto t = gen_text<C>(src);
            pbt::log("= std::string {}", show(t));
            RET_SELF(s = t);
            m = t;
            return Effect::assign;
        }
        case 38: {
            if constexpr (std::is_same_v<C, char>) {
                auto t = gen_text<C>(src);
                Raw<C> r(src, t, false);
                pbt::log("= view {}", show(t));
                RET_SELF(s = View(r.p, r.n));
                m = t;
            }
            return Effect::assign;
        }
        // ---- replacement
        case 39:
        case 40: {
            const size_t p = pos_in();
            const size_t n = cnt();
            auto t = gen_text<C>(src, room);
            Raw<C> r(src, t, false);
            pbt::log("replace({},{},ptr,n) {}", p, n, show(t));
            RET_SELF(s.replace(p, n, r.p, r.n));
            m.replace(p, n, t);
            return Effect::assign;
        }
        case 41: {
            const size_t p = pos_in();
            const size_t n = cnt();
            auto t = gen_text<C>(src, room, false);
            Raw<C> r(src, t, true);
            pbt::log("replace({},{},cstr) {}", p, n, show(t));
            RET_SELF(s.replace(p, n, r.p));
            m.replace(p, n, t);
            return Effect::assign;
        }
        case 42: {
            const size_t p = pos_in();
            const size_t n = cnt();
            const size_t k = gen_len(src, room);
            const C c = gen_char<C>(src);
            pbt::log("replace({},{},{},c)", p, n, k);
            RET_SELF(s.replace(p, n, k, c));
            m.replace(p, n, k, c);
            return Effect::assign;
        }
        case 43: {
            size_t a = 0, b = 0;
            range(a, b);
            auto t = gen_text<C>(src, room);
            Raw<C> r(src, t, false);
            pbt::log("replace(it {}, it {}, ptr,n) {}", a, b, show(t));
            auto f = s.begin();
            RET_SELF(s.replace(f + static_cast<long>(a), f + static_cast<long>(b), r.p, r.n));
            m.replace(a, b - a, t);
            return Effect::assign;
        }
        case 44: {
            size_t a = 0, b = 0;
            range(a, b);
            auto t = gen_text<C>(src, room, false);
            Raw<C> r(src, t, true);
            pbt::log("replace(it {}, it {}, cstr) {}", a, b, show(t));
            auto f = s.begin();
            RET_SELF(s.replace(f + static_cast<long>(a), f + static_cast<long>(b), r.p));
            m.replace(a, b - a, t);
            return Effect::assign;
        }
        case 45: {
            size_t a = 0, b = 0;
            range(a, b);
            const size_t k = gen_len(src, room);
            const C c = gen_char<C>(src);
            pbt::log("replace(it {}, it {}, {}, c)", a, b, k);
            auto f = s.begin();
            RET_SELF(s.replace(f + static_cast<long>(a), f + static_cast<long>(b), k, c));
            m.replace(a, b - a, k, c);
            return Effect::assign;
        }
        case 46:
        case 47: {
            size_t a = 0, b = 0;
            range(a, b);
            auto t = gen_text<C>(src, room);
            const size_t how = src.below(3);
            pbt::log("replace(it {}, it {}, first,last) way {} {}", a, b, how, show(t));
            auto f = s.begin();
            auto i1 = f + static_cast<long>(a);
            auto i2 = f + static_cast<long>(b);
            if (how == 0) {
                Raw<C> r(src, t, false);
                RET_SELF(s.replace(i1, i2, r.p, r.e()));
            } else if (how == 1) {
                std::list<C> l(t.begin(), t.end());
                RET_SELF(s.replace(i1, i2, l.begin(), l.end()));
            } else {
                std::string narrow;
                Std wide;
                for (C c : t) {
                    narrow.push_back(static_cast<char>(c));
                    wide.push_back(static_cast<C>(static_cast<char>(c)));
                }
                std::istringstream is(narrow);
                RET_SELF(s.replace(i1, i2, std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()));
                t = wide;
            }
            m.replace(a, b - a, t);
            return Effect::assign;
        }
        // ---- capacity
        case 48:
        case 49: {
            const size_t n = src.coin() ? gen_len(src, n0 + 600) : src.near({n0, s.capacity(), 23, 254}, 3, n0 + 600);
            pbt::log("reserve({})", n);
            s.reserve(n);
            return Effect::capacity;
        }
        case 50:
            pbt::log("shrink_to_fit");
            s.shrink_to_fit();
            return Effect::capacity;
        case 51: {
            pbt::log("reserve()");
            s.reserve();
            return Effect::capacity;
        }
        // ---- another string as the argument
        case 52:
            pbt::log("append(string) {}", show(om));
            if (src.coin()) {
                RET_SELF(s.append(other));
            } else {
                RET_SELF(s += other);
            }
            m.append(om);
            return Effect::edit;
        case 53: {
            size_t p = 0, n = 0;
            sub_other(p, n);
            pbt::log("append(string,{},{})", p, n);
            RET_SELF(s.append(other, p, n));
            m.append(om, p, n);
            return Effect::edit;
        }
        case 54: {
            const size_t p = pos_in();
            pbt::log("insert({}, string) {}", p, show(om));
            RET_SELF(s.insert(p, other));
            m.insert(p, om);
            return Effect::edit;
        }
        case 55: {
            const size_t p = pos_in();
            size_t q = 0, n = 0;
            sub_other(q, n);
            pbt::log("insert({}, string,{},{})", p, q, n);
            RET_SELF(s.insert(p, other, q, n));
            m.insert(p, om, q, n);
            return Effect::edit;
        }
        case 56: {
            const size_t p = pos_in();
            pbt::log("insert(it {}, string iterators) {}", p, show(om));
            RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), other.begin(), other.end()));
            m.insert(p, om);
            return Effect::edit;
        }
        case 57:
        case 58:
            pbt::log("= string {}", show(om));
            if (src.coin()) {
                RET_SELF(s = other);
            } else {
                RET_SELF(s.assign(other));
            }
            m = om;
            return Effect::assign;
        case 59: {
            size_t p = 0, n = 0;
            sub_other(p, n);
            pbt::log("assign(string,{},{})", p, n);
            RET_SELF(s.assign(other, p, n));
            m.assign(om, p, n);
            return Effect::assign;
        }
        case 60: {
            const size_t p = pos_in();
            const size_t n = cnt();
            pbt::log("replace({},{},string) {}", p, n, show(om));
            RET_SELF(s.replace(p, n, other));
            m.replace(p, n, om);
            return Effect::assign;
        }
        case 61: {
            const size_t p = pos_in();
            const size_t n = cnt();
            size_t q = 0, k = 0;
            sub_other(q, k);
            pbt::log("replace({},{},string,{},{})", p, n, q, k);
            RET_SELF(s.replace(p, n, other, q, k));
            m.replace(p, n, om, q, k);
            return Effect::assign;
        }
        case 62: {
            size_t a = 0, b = 0;
            range(a, b);
            pbt::log("replace(it {}, it {}, string)", a, b);
            auto f = s.begin();
            RET_SELF(s.replace(f + static_cast<long>(a), f + static_cast<long>(b), other));
            m.replace(a, b - a, om);
            return Effect::assign;
        }
        case 63: {
            size_t a = 0, b = 0;
            range(a, b);
            pbt::log("replace(it {}, it {}, string iterators)", a, b);
            auto f = s.begin();
            RET_SELF(s.replace(f + static_cast<long>(a), f + static_cast<long>(b), other.begin(), other.end()));
            m.replace(a, b - a, om);
            return Effect::assign;
        }
        case 64: {
            size_t q = 0, k = 0;
            sub_other(q, k);
            pbt::log("= string.substr({},{})", q, k);
            RET_SELF(s = other.substr(q, k));
            m = om.substr(q, k);
            return Effect::assign;
        }
        default: {
            const size_t p = pos_in();
            const size_t n = cnt();
            pbt::log("= move(self).substr({},{})", p, n);
            Str t(std::move(s).substr(p, n));
            s = std::move(t);
            m = m.substr(p, n);
            return Effect::assign;
        }
    }
}

}  // namespace sh
