// Strings of several GB (--scale 1), modelled as runs of equal characters.  Included by string_h.cc and string_q_h.cc.
#pragma once
#include <cstring>
#include <string_view>
#include <vector>

#include "pbt.hpp"
#include "string/string.hpp"

namespace giant {
using pbt::Source;
namespace sm = stdb::memory;
constexpr size_t kG = size_t(1) << 30U;

template <class C>
using Runs = std::vector<std::pair<size_t, C>>;
template <class C>
auto total(const Runs<C>& r) -> size_t {
    size_t n = 0;
    for (auto& [c, x] : r) n += c;
    return n;
}
// index of the run that begins at position p
template <class C>
auto split(Runs<C>& r, size_t p) -> size_t {
    for (size_t k = 0; k < r.size(); ++k) {
        if (p == 0) return k;
        if (p < r[k].first) {
            r.insert(r.begin() + long(k), {p, r[k].second});
            r[k + 1].first -= p;
            return k + 1;
        }
        p -= r[k].first;
    }
    return r.size();
}
template <class C>
void insert(Runs<C>& r, size_t p, size_t c, C x) {
    const size_t k = split(r, p);
    if (c > 0) r.insert(r.begin() + long(k), {c, x});
}
template <class C>
void insert(Runs<C>& r, size_t p, const Runs<C>& what) {
    const size_t k = split(r, p);
    r.insert(r.begin() + long(k), what.begin(), what.end());
}
template <class C>
void erase(Runs<C>& r, size_t a, size_t b) {
    const size_t i = split(r, a), j = split(r, b);
    r.erase(r.begin() + long(i), r.begin() + long(j));
}
template <class C>
auto part(const Runs<C>& r, size_t a, size_t b) -> Runs<C> {
    Runs<C> t = r;
    const size_t n = total(t);
    erase(t, b, n);
    erase(t, 0, a);
    return t;
}
template <class C>
void check(const C* p, size_t n, const Runs<C>& r, const char* what) {
    CHECK_THAT(n == total(r), "after {}: {} characters, expected {}", what, n, total(r));
    const C* s = p;
    for (auto& [c, x] : r) {
        CHECK_THAT(p[0] == x && p[c - 1] == x && memcmp(p, p + 1, (c - 1) * sizeof(C)) == 0,
                   "after {}: the {} characters from position {} are not all {}", what, c, p - s, unsigned(x));
        p += c;
    }
    CHECK_THAT(*p == C(), "after {}: no terminator", what);
}
template <class S, class C = typename S::value_type>
void check(const S& s, const Runs<C>& r, const char* what) {
    CHECK_THAT(s.capacity() >= s.size(), "after {}: capacity {} for {} characters", what, s.capacity(), s.size());
    check<C>(s.c_str(), s.size(), r, what);
}

template <class C>
struct Gen {
    Source& src;
    static constexpr size_t limit = 5 * kG / sizeof(C), four = 4 * kG / sizeof(C), two = 2 * kG / sizeof(C);
    auto amount(size_t most) -> size_t {
        switch (src.below(4)) {
            case 0: return std::min<size_t>(most, src.below(50));
            case 1: return src.near({two, four, four}, 3, most);
            default: return std::min<size_t>(most, four + src.below(1000));
        }
    }
    auto place(size_t n) -> size_t { return src.coin() ? src.near({0, n, two, four}, 2, n) : src.below(n + 1); }
    auto letter() -> C { return C('a' + src.below(26)); }
};

// S01, S02, S05, S09: edits of one string of several GB, with a copy of it now and then
template <class C>
void edits(Source& src, bool copies, bool own) {
    using Str = stdb::memory::basic_string<C>;
    pbt::log("{}-byte characters, several GB", sizeof(C));
    pbt::label("more than 4 GB");
    Gen<C> g{src};
    C x = g.letter();
    const size_t c0 = own ? g.two + src.below(1000) : g.four + src.below(3000);
    pbt::log("construction of {} characters", c0);
    Str s(c0, x);
    Runs<C> m{{c0, x}};
    check(s, m, "construction");
    Str kept;
    Runs<C> keptm;
    const size_t steps = src.range(2, 3);
    for (size_t k = 0; k < steps; ++k) {
        const size_t n = s.size(), room = n < g.limit ? g.limit - n : 0, p = g.place(n);
        x = g.letter();
        const char* what = "";
        if (copies && kept.empty() && src.chance(2, 3)) {
            pbt::log("a copy");
            kept = s;
            keptm = m;
        }
        if (own) {
            // the argument lies in the string itself
            const size_t a = g.place(n), b = std::min(n, a + (src.coin() ? g.amount(n) : src.below(2 * kG)));
            const size_t c = std::min(b - a, room);
            const auto from = part(m, a, a + c);
            pbt::log("{} characters from {} of {}, position {}", c, a, n, p);
            switch (src.below(6)) {
                case 0: what = "append(own)"; s.append(s.data() + a, c); insert(m, n, from); break;
                case 1: what = "insert(own)"; s.insert(p, s.data() + a, c); insert(m, p, from); break;
                case 2: what = "assign(own)"; s.assign(s.data() + a, c); m = from; break;
                case 3: {
                    what = "replace(own)";
                    const size_t q = std::min(n, p + src.below(1000));
                    s.replace(p, q - p, s.data() + a, c);
                    erase(m, p, q);
                    insert(m, p, from);
                    break;
                }
                case 4:
                    if (room < n) continue;
                    what = "+= self";
                    s += s;
                    insert(m, n, Runs<C>(m));
                    break;
                default: what = "assign(self, a, c)"; s.assign(s, a, c); m = from; break;
            }
        } else {
            switch (src.below(14)) {
                case 0:
                    what = "push_back";
                    for (int i = 0; i < 3; ++i) s.push_back(x);
                    insert(m, n, 3, x);
                    break;
                case 1: {
                    const size_t c = g.amount(room);
                    what = "append(count, char)";
                    pbt::log("{} {}", what, c);
                    s.append(c, x);
                    insert(m, n, c, x);
                    break;
                }
                case 2: {
                    const size_t c = g.amount(room);
                    what = "insert(pos, count, char)";
                    pbt::log("{} {} at {}", what, c, p);
                    s.insert(p, c, x);
                    insert(m, p, c, x);
                    break;
                }
                case 3: {
                    const size_t q = std::min(n, p + g.amount(n));
                    what = "erase(pos, count)";
                    pbt::log("{} from {} to {}", what, p, q);
                    s.erase(p, q - p);
                    erase(m, p, q);
                    break;
                }
                case 4: {
                    const size_t q = std::min(n, p + g.amount(n));
                    const size_t c = std::min(g.amount(g.limit), g.limit - (n - (q - p)));
                    what = "replace(pos, count, count, char)";
                    pbt::log("{} from {} to {} by {}", what, p, q, c);
                    s.replace(p, q - p, c, x);
                    erase(m, p, q);
                    insert(m, p, c, x);
                    break;
                }
                case 5: {
                    const size_t c = g.amount(g.limit);
                    what = "resize(count, char)";
                    pbt::log("{} {}", what, c);
                    s.resize(c, x);
                    if (c > n) insert(m, n, c - n, x);
                    if (c < n) erase(m, c, n);
                    break;
                }
                case 6: {
                    const size_t c = g.amount(g.limit);
                    what = "assign(count, char)";
                    pbt::log("{} {}", what, c);
                    s.assign(c, x);
                    m = {{c, x}};
                    if (c == 0) m.clear();
                    break;
                }
                case 7: {
                    const Str t(g.amount(room), x);
                    what = "append(string)";
                    pbt::log("{} {}", what, t.size());
                    s += t;
                    insert(m, n, t.size(), x);
                    break;
                }
                case 8: {
                    const Str t(g.amount(room), x);
                    what = "insert(pos, string)";
                    pbt::log("{} {} at {}", what, t.size(), p);
                    s.insert(p, t);
                    insert(m, p, t.size(), x);
                    break;
                }
                case 9: {
                    what = "substr";
                    const size_t q = std::min(n, p + g.amount(n));
                    pbt::log("{} from {} to {}", what, p, q);
                    Str t = s.substr(p, q - p);
                    m = part(m, p, q);
                    s = std::move(t);
                    break;
                }
                case 10: {
                    what = "copy and clone";
                    Str t(s);
                    check(t, m, "copy");
                    if (p < n) {
                        t[p] = x;
                        CHECK_THAT(t[p] == x, "a written character reads {}", unsigned(t[p]));
                    }
                    break;
                }
                case 11: {
                    const size_t want = g.four + src.below(2 * kG / sizeof(C));
                    what = "reserve";
                    pbt::log("{}({})", what, want);
                    s.reserve(want);
                    CHECK_THAT(s.capacity() >= want, "reserve({}) made a capacity of {}", want, s.capacity());
                    const auto* data = s.c_str();
                    if (n + 2 <= want) {
                        s.append(2, x);
                        CHECK_THAT(s.c_str() == data, "an append within the capacity moved the characters");
                        insert(m, n, 2, x);
                    }
                    break;
                }
                case 12:
                    if (p == n) continue;
                    what = "element write";
                    pbt::log("{} at {}", what, p);
                    s[p] = x;
                    erase(m, p, p + 1);
                    insert(m, p, 1, x);
                    break;
                default:
                    what = "shrink_to_fit and swap";
                    s.shrink_to_fit();
                    {
                        Str t;
                        t.swap(s);
                        s = std::move(t);
                    }
                    break;
            }
        }
        pbt::log("{}", what);
        check(s, m, what);
        if (!kept.empty()) check(kept, keptm, "an operation on its copy");
    }
    pbt::nontrivial();
}

// S03: searches and views
template <class C>
void queries(Source& src) {
    using Str = stdb::memory::basic_string<C>;
    using View = std::basic_string_view<C>;
    pbt::log("{}-byte characters, several GB", sizeof(C));
    pbt::label("more than 4 GB");
    Gen<C> g{src};
    const size_t n = g.four + src.below(3000);
    Str s(n, C('a'));
    const size_t marks = src.below(4);
    for (size_t k = 0; k < marks; ++k) {
        const size_t p = std::min(n - 1, g.place(n));
        s[p] = C('b' + src.below(2));
        pbt::log("mark at {}", p);
    }
    const View v(s.data(), n);
    const Str& cs = s;
    const std::basic_string<C> needles[] = {{C('b')}, {C('c')}, {C('a'), C('b')}, {C('b'), C('a')}, {C('z')}, std::basic_string<C>(5, C('a')), {}};
    const size_t queries = src.range(4, 9);
    for (size_t k = 0; k < queries; ++k) {
        const auto& t = needles[src.below(7)];
        const size_t p = src.chance(1, 3) ? g.place(n) : src.near({0, n - 3, g.two, g.four}, 5, n + 3);
        const size_t way = src.below(11);
        pbt::log("query {} from {}", way, p);
        size_t got = 0, want = 0;
        switch (way) {
            case 0: got = cs.find(Str(t.data(), t.size()), p); want = v.find(t, p); break;
            case 1: got = cs.rfind(Str(t.data(), t.size()), p); want = v.rfind(t, p); break;
            case 2: got = cs.find(C('b'), p); want = v.find(C('b'), p); break;
            case 3: got = cs.rfind(C('b'), p); want = v.rfind(C('b'), p); break;
            case 4: got = cs.find_first_of(t.data(), p, t.size()); want = v.find_first_of(t.data(), p, t.size()); break;
            case 5: got = cs.find_last_of(t.data(), p, t.size()); want = v.find_last_of(t.data(), p, t.size()); break;
            case 6: got = cs.find_first_not_of(C('a'), p); want = v.find_first_not_of(C('a'), p); break;
            case 7: got = cs.find_last_not_of(C('a'), p); want = v.find_last_not_of(C('a'), p); break;
            case 8: {
                if (p > n) continue;
                C a[8] = {}, b[8] = {};
                got = cs.copy(a, 5, p);
                want = v.copy(b, 5, p);
                CHECK_THAT(memcmp(a, b, sizeof a) == 0, "copy from {} gave other characters", p);
                break;
            }
            case 9: {
                if (p > n) continue;
                const size_t c = src.coin() ? g.amount(n) : src.below(100);
                const Str u = cs.substr(p, c);
                got = u.size();
                want = std::min(c, n - p);
                CHECK_THAT(memcmp(u.data(), v.data() + p, std::min(got, want) * sizeof(C)) == 0, "substr({}, {}) holds other characters", p, c);
                break;
            }
            default:
                got = size_t(cs.end() - cs.begin()) + size_t(cs.crend() - cs.crbegin()) + (p < n ? size_t(cs.at(p) == v[p]) : 1);
                want = 2 * n + 1;
        }
        CHECK_THAT(got == want, "query {} from {} of {} characters gave {}, expected {}", way, p, n, got, want);
    }
    pbt::nontrivial();
}

// S04: comparison and hashing
template <class C>
void compares(Source& src) {
    using Str = stdb::memory::basic_string<C>;
    pbt::log("{}-byte characters, several GB", sizeof(C));
    pbt::label("more than 4 GB");
    Gen<C> g{src};
    const size_t steps = src.range(2, 4);
    const size_t n = g.four + src.below(100);
    Str a(n, C('a'));
    const Str same(n, C('a'));
    CHECK_THAT(std::hash<Str>()(a) == std::hash<Str>()(same), "equal strings of {} characters have different hash values", n);
    for (size_t k = 0; k < steps; ++k) {
        // lengths that differ by exactly 2 or 4 GB, equal lengths, one different character
        const size_t l = src.near({0, n - 4 * kG / sizeof(C), n - 2 * kG / sizeof(C), 1, n, n}, 2, n);
        pbt::log("{} against {} characters", n, l);
        Str b(a.data(), l);
        int want = n > l ? 1 : 0;
        if (l > 0 && src.coin()) {
            const size_t p = std::min(l - 1, g.place(l));
            const bool less = src.coin();
            pbt::log("different at {}", p);
            b[p] = less ? C('A') : C('b');
            want = less ? 1 : -1;
        }
        auto sign = [](auto w) { return w > 0 ? 1 : w < 0 ? -1 : 0; };
        CHECK_THAT(sign(a.compare(b)) == want, "compare of {} and {} characters gave {}, expected {}", n, l, a.compare(b), want);
        CHECK_THAT(sign(b.compare(a)) == -want, "compare of {} and {} characters gave {}, expected {}", l, n, b.compare(a), -want);
        CHECK_THAT((a == b) == (want == 0) && (b != a) == (want != 0), "== of {} and {} characters", n, l);
        CHECK_THAT((a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0), "ordering of {} and {} characters", n, l);
        const size_t p = g.place(n);
        const std::basic_string_view<C> v(a.data() + p, n - p), w(b.data(), l);
        CHECK_THAT(sign(a.compare(p, n - p, b)) == sign(v.compare(w)), "compare(pos, n, string) of {} from {} and {} characters", n, p, l);
        CHECK_THAT(sign(a.compare(p, n, b.data(), l)) == sign(v.compare(w)), "compare(pos, n, pointer, n) of {} from {} and {} characters", n, p, l);
    }
    pbt::nontrivial();
}
}  // namespace giant
