// Stateful properties of the strings: S01 (edit histories), S02 (value independence of copies), S05 (storage
// contract), S08 (arena strings), S09 (aliasing arguments).  Compiled with -DPROP_<id>: only that one is instantiated.
#include <span>

#include "str_common.hpp"
#include "giant.hpp"

using namespace sh;
using pbt::Source;

namespace {

template <class K>
struct Pool {
    std::vector<SlotP<K>> v;

    void check(const char* after) const {
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i] == nullptr) continue;
            const auto& s = v[i]->s;
            const auto& m = v[i]->m;
            CHECK_THAT(s.size() == m.size(), "after {}: string {} has size {}, expected {}", after, i, s.size(), m.size());
            if (!same(s, m)) {
                size_t k = 0;
                while (s.data()[k] == m[k]) ++k;
                pbt::fail(fmt::format("after {}: string {} (size {}) differs from offset {} on: {} expected {}", after, i, m.size(), k,
                                      show(s), show(m)));
            }
        }
    }
};

#if defined(PROP_S01) || defined(PROP_S02) || defined(PROP_S05)
// ---- operations over whole strings ---------------------------------------------------------------------------
// returns a name for messages
template <class K>
const char* whole_op(Source& src, Pool<K>& P, size_t i, size_t max_slots) {
    using Str = typename K::Str;
    auto& A = *P.v[i];
    const size_t j = src.below(P.v.size());
    auto& B = *P.v[j];
    switch (src.below(10)) {
        case 0: {
            P.v[i] = construct<K>(src, typename K::Alloc(), j == i ? nullptr : &B.s, j == i ? nullptr : &B.m);
            return "construction";
        }
        case 1: {
            if (P.v.size() >= max_slots) return "nothing";
            pbt::log("new {} = copy of {}", P.v.size(), i);
            auto m = A.m;
            P.v.push_back(std::make_unique<Slot<K>>(m, A.s));
            return "copy construction";
        }
        case 2: {
            if (P.v.size() >= max_slots) return "nothing";
            pbt::log("new {} = clone of {}", P.v.size(), i);
            auto m = A.m;
            P.v.push_back(std::make_unique<Slot<K>>(m, A.s.clone()));
            return "clone";
        }
        case 3: {
            if (P.v.size() >= max_slots) return "nothing";
            pbt::log("new {} = move of {}", P.v.size(), i);
            auto m = A.m;
            P.v.push_back(std::make_unique<Slot<K>>(m, std::move(A.s)));
            auto& G = *P.v[i];
            if (src.coin()) {
                G.s.clear();
                G.m.clear();
            } else {
                G.s = typename K::Std(5, 'q');
                G.m.assign(5, 'q');
            }
            return "move construction";
        }
        case 4: {
            pbt::log("{} = move of {}", i, j);
            auto m = B.m;
            A.s = std::move(B.s);
            A.m = m;
            if (i != j) {
                B.s.clear();
                B.m.clear();
            }
            return "move assignment";
        }
        case 5: {
            pbt::log("swap {} {}", i, j);
            if (i == j) return "nothing";
            if (src.coin()) {
                A.s.swap(B.s);
            } else {
                swap(A.s, B.s);
            }
            std::swap(A.m, B.m);
            return "swap";
        }
        case 6:
        case 7: {
            pbt::log("{} = string {}", i, j);
            A.s = B.s;
            A.m = typename K::Std(B.m);
            return "copy assignment";
        }
        case 8: {
            pbt::log("{} = Str(copy of {}) through a temporary", i, j);
            Str t(B.s);
            A.s = std::move(t);
            A.m = typename K::Std(B.m);
            return "assignment of a temporary copy";
        }
        default: {
            if (P.v.size() <= 1) return "nothing";
            pbt::log("destroy {}", i);
            P.v.erase(P.v.begin() + static_cast<long>(i));
            return "destruction";
        }
    }
}
template <class K>
const char* edit_op(Source& src, Pool<K>& P, size_t i) {
    const size_t j = src.below(P.v.size());
    if (j == i) {
        auto t = gen_text<typename K::Char>(src, 300);
        typename K::Str o(t.data(), t.size());
        (void)edit<K>(src, P.v[i]->s, P.v[i]->m, o, t);
    } else {
        auto om = P.v[j]->m;
        (void)edit<K>(src, P.v[i]->s, P.v[i]->m, P.v[j]->s, om);
    }
    return "the edit";
}
#endif

#if defined(PROP_S01) || defined(PROP_S02) || defined(PROP_S09)
void giant_edits(Source& src, bool copies, bool own) {
    if (src.weighted({3, 1}) == 0) {
        giant::edits<char>(src, copies, own);
    } else {
        giant::edits<char32_t>(src, copies, own);
    }
}
#endif

#ifdef PROP_S01
template <class K>
void s01(Source& src) {
    Pool<K> P;
    P.v.push_back(construct<K>(src, typename K::Alloc(), nullptr, nullptr));
    P.check("construction");
    size_t big = 0, cross = 0, edits = 0;
    while (src.next_op()) {
        const size_t i = src.below(P.v.size());
        const size_t before = P.v[i]->m.size();
        const char* what = src.chance(1, 5) ? whole_op<K>(src, P, i, 3) : (++edits, edit_op<K>(src, P, i));
        P.check(what);
        for (auto& s : P.v) {
            if (s->m.size() > 254) ++big;
        }
        if (i < P.v.size()) {
            const size_t after = P.v[i]->m.size();
            if ((before <= 23) != (after <= 23) || (before <= 254) != (after <= 254)) {
                ++cross;
                pbt::label("size class border crossed");
            }
        }
    }
    if (edits >= 4 && cross >= 2 && big > 0) pbt::nontrivial();
}
void S01(Source& src) {
    if (pbt::g_scale == 1) return giant_edits(src, false, false);
    const Big big(src);
    const size_t kind = src.weighted({6, 1, 1});
    src.set_len(3, 40);
    if (kind == 0) s01<HeapKind<char>>(src);
    if (kind == 1) s01<HeapKind<char16_t>>(src);
    if (kind == 2) s01<HeapKind<char32_t>>(src);
}
#endif

#ifdef PROP_S02
// Storage shared between copies: contents of every string in the pool are compared after every step.
template <class K>
void s02(Source& src) {
    using C = typename K::Char;
    Pool<K> P;
    const bool known = src.below(64) == 63 && pbt::g_known;  // see known_findings.txt
    P.v.push_back(construct<K>(src, {}, nullptr, nullptr));
    size_t shared_edits = 0, transitions = 0;
    while (src.next_op()) {
        const size_t i = src.below(P.v.size());
        auto cptr = [&](size_t k) { return std::as_const(P.v[k]->s).data(); };
        bool shared = false;
        for (size_t k = 0; k < P.v.size(); ++k) shared |= k != i && cptr(k) == cptr(i);
        const char* what = nullptr;
        switch (src.weighted({6, 4, 6, 2, 1})) {
            case 0:
                what = whole_op<K>(src, P, i, 6);
                ++transitions;
                break;
            case 1: {  // make it large, so that copies share
                const size_t n = src.near({255, 256, 300, 600}, 2, 700);
                auto t = gen_text_n<C>(src, n);
                pbt::log("{} = large {}", i, show(t));
                P.v[i]->s.assign(t.data(), t.size());
                P.v[i]->m = t;
                what = "assignment";
                break;
            }
            case 2:
                what = edit_op<K>(src, P, i);
                if (shared) {
                    ++shared_edits;
                    pbt::label("edit of a string with shared storage");
                }
                break;
            case 3: {  // writes through a mutable pointer or iterators, obtained now
                auto& s = P.v[i]->s;
                auto& m = P.v[i]->m;
                if (m.empty()) break;
                const size_t a = src.below(m.size());
                const size_t b = a + src.below(m.size() - a + 1);
                const C c = gen_char<C>(src);
                const size_t how = src.below(3);
                if (how == 0 && shared && !known) {
                    (void)s.begin();
                }
                pbt::log("fill {}..{} of {} through {}", a, b, i, how == 0 ? "data()" : how == 1 ? "begin()" : "rend()");
                if (how == 0) {
                    C* p = s.data();
                    std::fill(p + a, p + b, c);
                } else if (how == 1) {
                    auto it = s.begin();
                    std::fill(it + static_cast<long>(a), it + static_cast<long>(b), c);
                } else {
                    auto e = s.rend();
                    std::fill(e - static_cast<long>(b), e - static_cast<long>(a), c);
                }
                std::fill(m.begin() + static_cast<long>(a), m.begin() + static_cast<long>(b), c);
                what = "a write through a pointer or iterator";
                if (shared) {
                    ++shared_edits;
                    pbt::label("write into shared storage");
                }
                break;
            }
            default: {  // several copies at once
                auto& s = P.v[i]->s;
                size_t n = src.below(4);
                const bool many = n == 3 && src.chance(1, 4);
                if (many) {
                    n = src.chance(1, 20) ? src.range(65530, 65540) : src.range(120, 260);
                    pbt::label("more than a hundred copies");
                }
                pbt::log("{} extra copies of {}, dropped in another order", n, i);
                std::vector<typename K::Str> tmp;
                for (size_t k = 0; k < n; ++k) tmp.push_back(many || k % 2 == 0 ? s : s.clone());
                if (many) {
                    // most of them go again, the others are still what they were
                    std::vector<typename K::Str> some(tmp.end() - 3, tmp.end());
                    tmp.erase(tmp.begin(), tmp.end() - 1);
                    for (auto& t : some) tmp.push_back(std::move(t));
                }
                for (auto& t : tmp) CHECK_THAT(same(t, P.v[i]->m), "a copy differs");
                if (!tmp.empty()) tmp.erase(tmp.begin());
                if (!tmp.empty()) {
                    const C xyz[] = {C('x'), C('y'), C('z'), C(0)};
                    tmp.back().append(xyz);
                    CHECK_THAT(same(tmp.back(), P.v[i]->m + xyz), "an edited copy differs");
                }
                what = "copies";
            }
        }
        if (what != nullptr) P.check(what);
    }
    // destroy in a chosen order, checking the remaining ones
    while (!P.v.empty()) {
        P.v.erase(P.v.begin() + static_cast<long>(src.below(P.v.size())));
        P.check("a destruction");
    }
    if (shared_edits >= 1 && transitions >= 2) pbt::nontrivial();
}
void S02(Source& src) {
    if (pbt::g_scale == 1) return giant_edits(src, true, false);
    const size_t kind = src.weighted({6, 1, 1});
    src.set_len(4, 50);
    if (kind == 0) s02<HeapKind<char>>(src);
    if (kind == 1) s02<HeapKind<char16_t>>(src);
    if (kind == 2) s02<HeapKind<char32_t>>(src);
}
#endif

#ifdef PROP_S05
template <class K>
void contract(const typename K::Str& s, const char* after) {
    using C = typename K::Char;
    CHECK_THAT(s.size() <= s.capacity(), "after {}: size {} exceeds capacity {}", after, s.size(), s.capacity());
    CHECK_THAT(s.length() == s.size(), "after {}: length {} size {}", after, s.length(), s.size());
    CHECK_THAT(s.empty() == (s.size() == 0), "after {}: empty()", after);
    CHECK_THAT(s.c_str()[s.size()] == C(0), "after {}: c_str() is not terminated", after);
    CHECK_THAT(s.data()[s.size()] == C(0), "after {}: data() is not terminated", after);
    CHECK_THAT(s[s.size()] == C(0), "after {}: s[size()] is not the terminator", after);
    CHECK_THAT(*(s.cbegin() + static_cast<long>(s.size())) == C(0), "after {}: *(begin()+size()) is not the terminator", after);
    CHECK_THAT(s.cend() - s.cbegin() == static_cast<long>(s.size()), "after {}: end()-begin() is {}", after, s.cend() - s.cbegin());
}
template <class K>
void s05(Source& src) {
    using C = typename K::Char;
    Pool<K> P;
    P.v.push_back(construct<K>(src, typename K::Alloc(), nullptr, nullptr));
    size_t watched = 0, reserved = 0, shrunk = 0;
    while (src.next_op()) {
        const size_t i = src.below(P.v.size());
        const size_t how = src.weighted({6, 20, 6, 4, 2, 1});
        const char* what = "the operation";
        if (how == 5) {
            // growth one by one: the number of new buffers is logarithmic in the growth
            auto& s = P.v[i]->s;
            auto& m = P.v[i]->m;
            const size_t total = 100 + src.below(2500);
            const size_t way = src.below(4);
            pbt::log("{} characters one by one, way {}, size {} capacity {}", total, way, m.size(), s.capacity());
            (void)s.begin();
            const size_t start = std::max<size_t>(s.capacity(), 24);
            size_t changes = 0, cap = s.capacity();
            for (size_t x = 0; x < total; ++x) {
                const C c = static_cast<C>('a' + x % 26);
                if (way == 0) s.push_back(c);
                if (way == 1) s += c;
                if (way == 2) s.append(size_t(1), c);
                if (way == 3) s.append(&c, 1);
                m.push_back(c);
                changes += s.capacity() != cap ? 1 : 0;
                cap = s.capacity();
            }
            size_t allowed = 4;
            for (double grown = static_cast<double>(start); grown < static_cast<double>(m.size()); grown *= 1.2) ++allowed;
            CHECK_THAT(changes <= allowed, "{} characters appended one by one to a string of capacity {} changed the capacity {} times, which is no geometric growth", total, start, changes);
            CHECK_THAT(same(s, m), "characters appended one by one");
            what = "growth one by one";
        } else if (how == 0) {
            what = whole_op<K>(src, P, i, 3);
        } else if (how == 1) {
            // an edit of a string that is made unshared first; a reserve() may come before it
            auto& s = P.v[i]->s;
            auto& m = P.v[i]->m;
            bool pinned = !m.empty();
            if (src.chance(1, 3)) {
                const size_t n = m.size() + src.below(400);
                pbt::log("reserve({})", n);
                s.reserve(n);
                CHECK_THAT(s.capacity() >= n, "reserve({}) left a capacity of {}", n, s.capacity());
            }
            (void)s.begin();
            const C* p = std::as_const(s).data();
            const size_t cap = s.capacity();
            auto t = gen_text<C>(src, 300);
            typename K::Str o(t.data(), t.size());
            Effect e = edit<K>(src, s, m, o, t);
            if (e == Effect::edit && pinned && m.size() <= cap) {
                ++watched;
                CHECK_THAT(std::as_const(s).data() == p, "an edit within the capacity ({} of {}) moved the characters", m.size(), cap);
                CHECK_THAT(s.capacity() >= m.size(), "capacity {}", s.capacity());
            }
            what = "the edit";
        } else if (how == 2) {
            auto& s = P.v[i]->s;
            const auto m = P.v[i]->m;
            const size_t cap = s.capacity();
            const size_t n = src.coin() ? gen_len(src, 2000) : src.near({m.size(), cap, 23, 254}, 3, 2000);
            pbt::log("reserve({}) size {} capacity {}", n, m.size(), cap);
            s.reserve(n);
            ++reserved;
            CHECK_THAT(s.capacity() >= n, "reserve({}) left a capacity of {}", n, s.capacity());
            CHECK_THAT(m.empty() || s.capacity() >= cap, "reserve({}) reduced the capacity from {} to {}", n, cap, s.capacity());
            CHECK_THAT(same(s, m), "reserve({}) changed the contents", n);
            what = "reserve";
            // pushes up to the reserved capacity move nothing
            if (n > m.size() && src.coin()) {
                const C* p = std::as_const(s).data();
                const size_t k = src.below(n - m.size() + 1);
                pbt::log("{} pushes", k);
                for (size_t x = 0; x < k; ++x) {
                    s.push_back(static_cast<C>('A' + x % 26));
                    P.v[i]->m.push_back(static_cast<C>('A' + x % 26));
                    if (!(K::arena) && std::as_const(s).data() != p && (m.size() > 0 || x > 0)) {
                        pbt::fail(fmt::format("push {} after reserve({}) of a string of size {} moved the characters", x, n, m.size()));
                    }
                    p = std::as_const(s).data();
                }
                ++watched;
            }
        } else if (how == 3) {
            auto& s = P.v[i]->s;
            const auto m = P.v[i]->m;
            const size_t cap = s.capacity();
            pbt::log("shrink_to_fit, size {} capacity {}", m.size(), cap);
            s.shrink_to_fit();
            ++shrunk;
            CHECK_THAT(s.capacity() <= std::max(cap, typename K::Str().capacity()), "shrink_to_fit raised the capacity from {} to {}", cap, s.capacity());
            CHECK_THAT(s.capacity() <= std::max(2 * m.size(), typename K::Str().capacity()), "shrink_to_fit left a capacity of {} for {} characters", s.capacity(), m.size());
            CHECK_THAT(same(s, m), "shrink_to_fit changed the contents");
            what = "shrink_to_fit";
        } else {
            auto& s = P.v[i]->s;
            const auto& m = P.v[i]->m;
            // accessors of the mutable string
            CHECK_THAT(s.end() - s.begin() == static_cast<long>(m.size()), "mutable end()-begin()");
            CHECK_THAT(s.data()[m.size()] == C(0), "mutable data() is not terminated");
            CHECK_THAT(*(s.begin() + static_cast<long>(m.size())) == C(0), "mutable begin() is not terminated");
        }
        for (auto& s : P.v) contract<K>(s->s, what);
    }
    pbt::label("watched edits within capacity", watched);
    if (watched >= 2 && reserved + shrunk >= 1) pbt::nontrivial();
}
void S05(Source& src) {
    const Big big(src);
    const size_t kind = src.weighted({6, 1});
    src.set_len(3, 40);
    if (kind == 0) s05<HeapKind<char>>(src);
    if (kind == 1) s05<HeapKind<char32_t>>(src);
}
#endif

#ifdef PROP_S09
// every second character of a range, as a forward iterator that is no pointer
template <class C>
struct Every2nd {
    using iterator_category = std::forward_iterator_tag;
    using value_type = C;
    using difference_type = std::ptrdiff_t;
    using pointer = const C*;
    using reference = const C&;
    const C* p = nullptr;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    Every2nd& operator++() {
        p += 2;
        return *this;
    }
    Every2nd operator++(int) {
        auto o = *this;
        p += 2;
        return o;
    }
    bool operator==(const Every2nd&) const = default;
};
// an edit with a range of iterators of any kind
template <class K, class It>
void range_edit(size_t how, size_t p, size_t d, It b, It e, const typename K::Std& t, typename K::Str& s, typename K::Std& m) {
    switch (how) {
        case 0:
            RET_AT(p, s.insert(std::as_const(s).begin() + static_cast<long>(p), b, e));
            m.insert(p, t);
            break;
        case 1:
            RET_SELF(s.append(b, e));
            m.append(t);
            break;
        case 2:
            RET_SELF(s.assign(b, e));
            m = t;
            break;
        default: {
            auto f = s.begin();
            RET_SELF(s.replace(f + static_cast<long>(p), f + static_cast<long>(p + d), b, e));
            m.replace(p, d, t);
        }
    }
}

// one edit whose argument refers to the edited string itself
template <class K>
void alias_edit(Source& src, typename K::Str& s, typename K::Std& m) {
    using C = typename K::Char;
    using Str = typename K::Str;
    using View = std::basic_string_view<C>;
    const size_t n0 = m.size();
    const auto m0 = m;
    const size_t q = src.below(n0 + 1);
    const size_t k = src.chance(1, 4) ? n0 - q : src.below(n0 - q + 1);
    const auto t = m0.substr(q, k);
    const size_t p = src.below(n0 + 1);
    const size_t d = src.chance(1, 4) ? n0 - p : src.below(n0 - p + 1);
    const bool via_mutable = src.coin();
    // pointer to the argument, obtained from the const or the mutable accessors
    const C* a = via_mutable ? s.begin() + static_cast<long>(q) : std::as_const(s).data() + q;
    // a suffix without NUL can be passed as a C string
    const size_t zlen = std::char_traits<C>::length(std::as_const(s).data() + q);
    const auto z = m0.substr(q, zlen);
    size_t op = src.below(n0 > 0 ? 30 : 27);
    if (src.chance(1, 8)) op = 100;
    pbt::log("alias op {}: source {}+{} ({}), position {}+{}, size {} capacity {}", op, q, k, via_mutable ? "mutable" : "const", p, d, n0,
             s.capacity());
    switch (op) {
        case 0:
            RET_SELF(s.append(a, k));
            m.append(t);
            break;
        case 100: {  // ranges of other iterators
            const size_t how = src.below(4);
            const size_t kind = src.below(5);
            const typename K::Std back(t.rbegin(), t.rend());
            s.begin();  // so that positions stay what they are
            a = std::as_const(s).data() + q;
            pbt::log("  way {}, iterators of kind {}", how, kind);
            if (kind == 0) range_edit<K>(how, p, d, std::reverse_iterator<const C*>(a + k), std::reverse_iterator<const C*>(a), back, s, m);
            if (kind == 1) {
                const auto e = s.rbegin() + static_cast<long>(n0 - q - k);
                range_edit<K>(how, p, d, e, e + static_cast<long>(k), back, s, m);
            }
            if (kind == 2) {
                typename K::Std half;
                for (size_t i = 0; i < k; i += 2) half.push_back(t[i]);
                // the end is one past the last character or two past the last one taken, all inside of the terminated text
                range_edit<K>(how, p, d, Every2nd<C>{a}, Every2nd<C>{a + (k + 1) / 2 * 2}, half, s, m);
            }
            if (kind == 3) {
                const std::span<const C> v(a, k);
                range_edit<K>(how, p, d, v.begin(), v.end(), t, s, m);
            }
            if (kind == 4) {
                const std::span<const C> v(a, k);
                range_edit<K>(how, p, d, v.rbegin(), v.rend(), back, s, m);
            }
            break;
        }
        case 1:
            RET_SELF(s.append(s));
            m.append(m0);
            break;
        case 2:
            RET_SELF(s.append(s, q, k));
            m.append(t);
            break;
        case 3:
            RET_SELF(s += s);
            m.append(m0);
            break;
        case 4:
            RET_SELF(s += View(a, k));
            m.append(t);
            break;
        case 5:
            RET_SELF(s.append(a));
            m.append(z);
            break;
        case 6:
            RET_SELF(s.append(a, a + k));
            m.append(t);
            break;
        case 7:
            RET_SELF(s.insert(p, a, k));
            m.insert(p, t);
            break;
        case 8:
            RET_SELF(s.insert(p, s));
            m.insert(p, m0);
            break;
        case 9:
            RET_SELF(s.insert(p, s, q, k));
            m.insert(p, t);
            break;
        case 10:
            RET_SELF(s.insert(p, a));
            m.insert(p, z);
            break;
        case 11:
            RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), a, a + k));
            m.insert(p, t);
            break;
        case 12:
            RET_SELF(s.replace(p, d, a, k));
            m.replace(p, d, t);
            break;
        case 13:
            RET_SELF(s.replace(p, d, s));
            m.replace(p, d, m0);
            break;
        case 14:
            RET_SELF(s.replace(p, d, s, q, k));
            m.replace(p, d, t);
            break;
        case 15:
            RET_SELF(s.replace(p, d, a));
            m.replace(p, d, z);
            break;
        case 16: {
            auto b = s.begin();
            a = std::as_const(s).data() + q;
            RET_SELF(s.replace(b + static_cast<long>(p), b + static_cast<long>(p + d), a, a + k));
            m.replace(p, d, t);
            break;
        }
        case 17: {
            auto b = s.begin();
            RET_SELF(s.replace(b + static_cast<long>(p), b + static_cast<long>(p + d), s));
            m.replace(p, d, m0);
            break;
        }
        case 18: {
            auto b = s.begin();
            RET_SELF(s.replace(b + static_cast<long>(p), b + static_cast<long>(p + d), b + static_cast<long>(q), b + static_cast<long>(q + k)));
            m.replace(p, d, t);
            break;
        }
        case 19:
            RET_SELF(s.assign(a, k));
            m = t;
            break;
        case 20:
            RET_SELF(s.assign(s, q, k));
            m = t;
            break;
        case 21:
            RET_SELF(s.assign(a));
            m = z;
            break;
        case 22:
            RET_SELF(s = a);
            m = z;
            break;
        case 23:
            if constexpr (std::is_same_v<C, char>) {
                RET_SELF(s = View(a, k));
                m = t;
            }
            break;
        case 24:
            RET_SELF(s.assign(a, a + k));
            m = t;
            break;
        case 25:
            if (src.coin()) {
                RET_SELF(s = s);
            } else {
                RET_SELF(s.assign(s));
            }
            break;
        case 26: {  // comparisons and searches with a part of itself
            CHECK_THAT((s.compare(p, d, a, k) < 0) == (m0.compare(p, d, t) < 0), "compare with a part of itself");
            CHECK_THAT(s.find(a, 0, k) == m0.find(t), "find of a part of itself");
            CHECK_THAT(s == s && s.compare(s) == 0, "comparison with itself");
            break;
        }
        case 27: {  // a reference to one of its characters
            const C& c = std::as_const(s)[q == n0 ? 0 : q];
            const C v = m0[q == n0 ? 0 : q];
            switch (src.below(7)) {
                case 0:
                    s.push_back(c);
                    m.push_back(v);
                    break;
                case 1:
                    s.append(k, c);
                    m.append(k, v);
                    break;
                case 2:
                    s.insert(p, k, c);
                    m.insert(p, k, v);
                    break;
                case 3:
                    s.resize(n0 + k, c);
                    m.resize(n0 + k, v);
                    break;
                case 4:
                    s.replace(p, d, k, c);
                    m.replace(p, d, k, v);
                    break;
                case 5:
                    s.assign(k, c);
                    m.assign(k, v);
                    break;
                default:
                    s = c;
                    m = v;
            }
            break;
        }
        case 28: {  // concatenation with an expiring operand that is also the other operand
            switch (src.below(3)) {
                case 0: {
                    Str r = std::move(s) + a;
                    s = std::move(r);
                    m = m0 + z;
                    break;
                }
                case 1: {
                    Str r = a + std::move(s);
                    s = std::move(r);
                    m = z + m0;
                    break;
                }
                default: {
                    const Str& c = s;
                    Str r = c + std::move(s);
                    s = std::move(r);
                    m = m0 + m0;
                    break;
                }
            }
            break;
        }
        default: {
            const C& c = std::as_const(s)[q == n0 ? 0 : q];
            const C v = m0[q == n0 ? 0 : q];
            if (src.coin()) {
                RET_AT(p, s.insert(s.cbegin() + static_cast<long>(p), c));
                m.insert(p, 1, v);
            } else {
                RET_SELF(s += c);
                m += v;
            }
        }
    }
}
template <class K>
void s09(Source& src) {
    using C = typename K::Char;
    auto t0 = gen_text<C>(src, 700);
    typename K::Str s(t0.data(), t0.size());
    auto m = t0;
    std::vector<std::pair<typename K::Str, typename K::Std>> sharers;
    size_t grown = 0, ops = 0;
    while (src.next_op()) {
        if (m.size() > 3000) {
            const size_t n = src.below(300);
            s.resize(n);
            m.resize(n);
        }
        switch (src.weighted({8, 1, 1, 1})) {
            case 0:
                break;
            case 1:
                pbt::log("share");
                sharers.emplace_back(s, m);
                break;
            case 2: {
                const size_t n = m.size() + src.below(300);
                pbt::log("reserve({})", n);
                s.reserve(n);
                break;
            }
            default: {
                auto t = gen_text<C>(src, 700);
                pbt::log("start again with {}", show(t));
                s.assign(t.data(), t.size());
                m = t;
            }
        }
        const size_t cap = s.capacity();
        if (!sharers.empty() && src.chance(1, 6)) {  // the same storage, through another string
            const auto& [o, om] = sharers[src.below(sharers.size())];
            const size_t q = src.below(om.size() + 1);
            const size_t k = src.below(om.size() - q + 1);
            const size_t p = src.below(m.size() + 1);
            const size_t how = src.below(4);
            pbt::log("edit {} with {}+{} of a copy made before, at {}", how, q, k, p);
            const C* b = o.data() + q;
            switch (how) {
                case 0:
                    RET_SELF(s.append(b, k));
                    m.append(om, q, k);
                    break;
                case 1:
                    RET_SELF(s.insert(p, b, k));
                    m.insert(p, om, q, k);
                    break;
                case 2:
                    RET_SELF(s.replace(p, k, o, q, k));
                    m.replace(p, k, om, q, k);
                    break;
                default:
                    RET_SELF(s.assign(b, k));
                    m.assign(om, q, k);
            }
            for (auto& x : sharers) CHECK_THAT(same(x.first, x.second), "a copy made before the edits changed");
        } else {
            alias_edit<K>(src, s, m);
        }
        ++ops;
        if (m.size() > cap) {
            ++grown;
            pbt::label("aliased edit that outgrew the capacity");
        }
        CHECK_THAT(same(s, m), "result {} expected {}", show(s), show(m));
        if (sharers.size() > 3) sharers.erase(sharers.begin());
    }
    if (ops >= 3 && grown >= 1) pbt::nontrivial();
}
void S09(Source& src) {
    if (pbt::g_scale == 1) return giant_edits(src, false, true);
    const Big big(src);
    const size_t kind = src.weighted({6, 1});
    src.set_len(2, 14);
    if (kind == 0) s09<HeapKind<char>>(src);
    if (kind == 1) s09<HeapKind<char32_t>>(src);
}
#endif

#ifdef PROP_S08
struct ArenaBox {
    std::unique_ptr<sm::Arena> a;
    std::pmr::memory_resource* r = nullptr;
};
template <class C>
void s08(Source& src) {
    using K = ArenaKindOf<C>;
    using Str = typename K::Str;
    const size_t n_arenas = 1 + src.below(3);
    std::vector<ArenaBox> arenas;
    auto new_arena = [&] {
        auto o = sm::Arena::Options::GetDefaultOptions();
        o.normal_block_size = src.pick<uint64_t>({256, 1024, 4096});
        o.huge_block_size = 1U << 20U;
        o.suggested_init_block_size = 0;
        ArenaBox b;
        b.a = std::make_unique<sm::Arena>(o);
        b.r = b.a->get_memory_resource();
        arenas.push_back(std::move(b));
    };
    for (size_t i = 0; i < n_arenas; ++i) new_arena();
    src.set_len(3, 45);
    struct Own {
        SlotP<K> owned;  // outside of every arena
    };
    Pool<K> P;
    size_t crossed = 0, spilled = 0;
    auto resource = [&]() -> std::pmr::memory_resource* {
        const size_t k = src.below(arenas.size());
#ifdef NDEBUG
        if (src.chance(1, 12)) return std::pmr::get_default_resource();
#endif
        return arenas[k].r;
    };
    auto bound = [&](size_t i) { return P.v[i]->s.get_allocator().resource(); };
    auto storage_ok = [&](const char* after) {
        for (size_t i = 0; i < P.v.size(); ++i) {
            const auto& s = P.v[i]->s;
            const char* p = reinterpret_cast<const char*>(s.data());
            const char* self = reinterpret_cast<const char*>(&s);
            if (p >= self && p < self + sizeof(s)) continue;  // in the string object
            for (auto& b : arenas) {
                const bool here = b.r == s.get_allocator().resource();
                const bool first = b.a->check(p) == sm::ArenaContainStatus::BlockUsed;
                const bool last = b.a->check(p + s.size() * sizeof(C)) == sm::ArenaContainStatus::BlockUsed;
                CHECK_THAT(first == here && last == here,
                           "after {}: string {} (size {}) is bound to {} arena, but its characters are {} it", after, i, s.size(),
                           here ? "this" : "another", first ? "in" : "outside of");
            }
            ++spilled;
        }
    };
    while (src.next_op()) {
        const size_t what = P.v.empty() ? 0 : src.weighted({4, 14, 2, 2, 3, 3, 3, 2, 1, 2, 2, 2});
        const size_t i = P.v.empty() ? 0 : src.below(P.v.size());
        const size_t j = P.v.empty() ? 0 : src.below(P.v.size());
        const char* name = "";
        switch (what) {
            case 0: {
                if (P.v.size() >= 6) break;
                auto* r = resource();
                pbt::log("new string");
                P.v.push_back(construct<K>(src, r, P.v.empty() ? nullptr : &P.v[j]->s, P.v.empty() ? nullptr : &P.v[j]->m));
                CHECK_THAT(bound(P.v.size() - 1) == r, "a new string is not bound to the allocator it was given");
                name = "construction";
                break;
            }
            case 1: {
                auto* r = bound(i);
                if (i == j) {
                    auto t = gen_text<C>(src, 300);
                    Str o(t.data(), t.size(), resource());
                    (void)edit<K>(src, P.v[i]->s, P.v[i]->m, o, t);
                } else {
                    auto om = P.v[j]->m;
                    if (bound(i) != bound(j)) ++crossed;
                    (void)edit<K>(src, P.v[i]->s, P.v[i]->m, P.v[j]->s, om);
                }
                (void)r;
                name = "the edit";
                break;
            }
            case 2: {  // aliasing
                auto& s = P.v[i]->s;
                auto& m = P.v[i]->m;
                if (m.size() > 2000) break;
                const size_t q = src.below(m.size() + 1);
                const size_t k = src.below(m.size() - q + 1);
                const size_t p = src.below(m.size() + 1);
                const auto t = m.substr(q, k);
                const size_t how = src.below(6);
                auto* r = bound(i);
                pbt::log("self edit {} of {}: {}+{} at {}", how, i, q, k, p);
                switch (how) {
                    case 0:
                        s.append(s.c_str() + q, k);
                        m.append(t);
                        break;
                    case 1:
                        s.replace(p, 1, s, q, k);
                        m.replace(p, 1, t);
                        break;
                    case 2:
                        s.insert(p, s.c_str() + q, k);
                        m.insert(p, t);
                        break;
                    case 3: {
                        const C* a = std::as_const(s).data() + q;
                        s.append(std::reverse_iterator<const C*>(a + k), std::reverse_iterator<const C*>(a));
                        m.append(t.rbegin(), t.rend());
                        break;
                    }
                    case 4: {
                        auto f = s.begin();
                        const C* a = std::as_const(s).data() + q;
                        s.replace(f + static_cast<long>(p), s.end(), std::reverse_iterator<const C*>(a + k), std::reverse_iterator<const C*>(a));
                        m.replace(p, m.size() - p, typename K::Std(t.rbegin(), t.rend()));
                        break;
                    }
                    default:
                        s.assign(s.c_str() + q, k);
                        m = t;
                }
                CHECK_THAT(bound(i) == r, "an edit changed the allocator");
                name = "a self edit";
                break;
            }
            case 3: {
                if (P.v.size() >= 6) break;
                pbt::log("copy of {}", i);
                auto m = P.v[i]->m;
                P.v.push_back(std::make_unique<Slot<K>>(m, P.v[i]->s));
                name = "copy construction";
                break;
            }
            case 4: {
                if (P.v.size() >= 6) break;
                pbt::log("clone of {}", i);
                auto m = P.v[i]->m;
                P.v.push_back(std::make_unique<Slot<K>>(m, P.v[i]->s.clone()));
                name = "clone";
                break;
            }
            case 5: {
                pbt::log("{} = move of {}", i, j);
                if (bound(i) != bound(j)) {
                    ++crossed;
                    pbt::label("move between arenas");
                }
                auto m = P.v[j]->m;
                P.v[i]->s = std::move(P.v[j]->s);
                P.v[i]->m = m;
                if (i != j) {
                    if (src.coin()) {  // a moved-from string is empty or whatever, but usable
                        P.v[j]->s.assign(21, C('r'));
                        P.v[j]->m.assign(21, C('r'));
                    } else {
                        P.v[j]->s.clear();
                        P.v[j]->m.clear();
                        P.v[j]->s.append(30, C('s'));
                        P.v[j]->m.append(30, C('s'));
                    }
                }
                name = "move assignment";
                break;
            }
            case 6: {
                if (i == j) break;
                pbt::log("swap {} {}", i, j);
                if (bound(i) != bound(j)) {
                    ++crossed;
                    pbt::label("swap between arenas");
                }
                if (src.coin()) {
                    P.v[i]->s.swap(P.v[j]->s);
                } else {
                    std::swap(P.v[i]->s, P.v[j]->s);
                }
                std::swap(P.v[i]->m, P.v[j]->m);
                name = "swap";
                break;
            }
            case 7: {
                pbt::log("{} = {}", i, j);
                if (bound(i) != bound(j)) {
                    ++crossed;
                    pbt::label("assignment between arenas");
                }
                P.v[i]->s = P.v[j]->s;
                P.v[i]->m = typename K::Std(P.v[j]->m);
                name = "copy assignment";
                break;
            }
            case 8:
                pbt::log("destroy {}", i);
                P.v.erase(P.v.begin() + static_cast<long>(i));
                name = "destruction";
                break;
            case 9: {  // an arena goes away with the strings bound to it; the others must be unaffected
                const size_t k = src.below(arenas.size());
                if (arenas.size() < 2 && !src.chance(1, 3)) break;
                pbt::log("arena {} is destroyed", k);
                pbt::label("arena destroyed");
                for (size_t x = P.v.size(); x-- > 0;) {
                    if (bound(x) == arenas[k].r) P.v.erase(P.v.begin() + static_cast<long>(x));
                }
                arenas.erase(arenas.begin() + static_cast<long>(k));
                if (arenas.empty()) new_arena();
                name = "destruction of another arena";
                break;
            }
            case 10: {  // concatenation
                if (P.v[i]->m.size() + P.v[j]->m.size() > 2500) break;
                pbt::log("{} + {}", i, j);
                const bool mv = src.coin();
                auto m = P.v[i]->m + P.v[j]->m;
                if (mv && i != j) {
                    Str r = P.v[i]->s + std::move(P.v[j]->s);
                    CHECK_THAT(same(r, m), "concatenation gives {}, expected {}", show(r), show(m));
                    P.v[j]->s.clear();
                    P.v[j]->m.clear();
                } else {
                    Str r = P.v[i]->s + P.v[j]->s;
                    CHECK_THAT(same(r, m), "concatenation gives {}, expected {}", show(r), show(m));
                    CHECK_THAT(r.get_allocator().resource() == bound(i), "a concatenation is not bound to the arena of its left operand");
                }
                name = "concatenation";
                break;
            }
            default: {  // a string created in the arena itself
                const size_t k = src.below(arenas.size());
                auto t = gen_text<C>(src, 600, false);
                Raw<C> raw(src, t, true);
                auto* p = arenas[k].a->Create<Str>(raw.p);
                CHECK_THAT(p != nullptr && same(*p, t), "a string created in the arena has other contents");
                CHECK_THAT(p->get_allocator().resource() == arenas[k].r, "a string created in the arena is bound to another resource");
                CHECK_THAT(arenas[k].a->check(reinterpret_cast<const char*>(p->data())) == sm::ArenaContainStatus::BlockUsed, "characters of a created string outside of the arena");
                p->append(40, C('x'));
                CHECK_THAT(same(*p, t + typename K::Std(40, C('x'))), "a created string after append");
                if (!P.v.empty()) {
                    P.v[i]->s = *p;
                    P.v[i]->m = t + typename K::Std(40, C('x'));
                }
                pbt::log("created in arena {}", k);
                name = "creation in the arena";
            }
        }
        P.check(name);
        storage_ok(name);
    }
    P.v.clear();
    if (crossed >= 1 && spilled >= 4) pbt::nontrivial();
}
void S08(Source& src) {
    const size_t kind = src.weighted({6, 1});
    if (kind == 0) s08<char>(src);
    if (kind == 1) s08<char32_t>(src);
}
#endif

}  // namespace

int main(int argc, char** argv) {
    return pbt::engine_main(argc, argv,
                            {
#ifdef PROP_S01
                              {"S01", S01, true},
#endif
#ifdef PROP_S02
                              {"S02", S02, true},
#endif
#ifdef PROP_S05
                              {"S05", S05, true},
#endif
#ifdef PROP_S08
                              {"S08", S08, true},
#endif
#ifdef PROP_S09
                              {"S09", S09, true},
#endif
                            });
}
