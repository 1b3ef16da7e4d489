// Vector properties V01-V07.  Compiled with -DPROP_<id>: only that one is instantiated.
#include "vec_common.hpp"

#include <numeric>

using namespace vh;

namespace {

// every case has its own registry; at the end nothing may be alive
struct Scope {
    Registry reg;
    Scope() {
        g_reg = &reg;
        g_throw_in = 0;
    }
    ~Scope() { g_reg = nullptr; }
    void at_end() const { CHECK_THAT(reg.live.empty(), "{} elements were never destroyed", reg.live.size()); }
};

template <class K>
struct Pool {
    std::vector<std::unique_ptr<V<K>>> v;
    std::vector<Model> m;
    void check(const char* after) const {
        for (size_t i = 0; i < v.size(); ++i) vh::check<K>(*v[i], m[i], after);
    }
    [[nodiscard]] auto total() const -> size_t {
        size_t n = 0;
        for (auto& x : m) n += x.size();
        return n;
    }
};

// operations over whole vectors
template <class K>
auto whole_op(Source& src, Pool<K>& P, size_t i) -> const char* {
    const size_t j = src.below(P.v.size());
    auto& a = *P.v[i];
    auto& b = *P.v[j];
    auto add = [&](std::unique_ptr<V<K>> x, Model m) {
        if (P.v.size() < 4) {
            P.v.push_back(std::move(x));
            P.m.push_back(std::move(m));
        } else {
            P.v[(i + 1) % P.v.size()] = std::move(x);
            P.m[(i + 1) % P.v.size()] = std::move(m);
        }
    };
    switch (src.below(9)) {
        case 0: {
            Model m;
            auto x = make<K>(src, m);
            add(std::move(x), m);
            return "construction";
        }
        case 1: {
            if constexpr (K::copy) {
                pbt::log("copy of {}", i);
                auto x = std::make_unique<V<K>>(a);
                auto m = P.m[i];
                add(std::move(x), m);
                return "copy construction";
            }
            [[fallthrough]];
        }
        case 2: {
            pbt::log("move of {}", i);
            auto x = std::make_unique<V<K>>(std::move(a));
            auto m = P.m[i];
            // a moved-from vector is valid, here also empty
            P.m[i].clear();
            CHECK_THAT(a.size() == 0, "a moved-from vector has {} elements", a.size());
            add(std::move(x), m);
            return "move construction";
        }
        case 3:
        case 4: {
            if constexpr (K::copy) {
                pbt::log("{} = {}", i, j);
                a = b;
                auto m = P.m[j];
                P.m[i] = m;
                return "copy assignment";
            }
            [[fallthrough]];
        }
        case 5: {
            pbt::log("{} = move({})", i, j);
            auto m = P.m[j];
            a = std::move(b);
            P.m[i] = m;
            if (i != j) {
                CHECK_THAT(b.size() == 0, "a moved-from vector has {} elements", b.size());
                P.m[j].clear();
            }
            return "move assignment";
        }
        case 6: {
            pbt::log("swap {} {}", i, j);
            if (src.coin()) {
                a.swap(b);
            } else {
                std::swap(a, b);
            }
            if (i != j) std::swap(P.m[i], P.m[j]);
            return "swap";
        }
        case 7: {
            if (P.v.size() == 1) return "nothing";
            pbt::log("destroy {}", i);
            P.v.erase(P.v.begin() + std::ptrdiff_t(i));
            P.m.erase(P.m.begin() + std::ptrdiff_t(i));
            return "destruction";
        }
        default: {
            pbt::log("replace {} by a new one", i);
            Model m;
            auto x = make<K>(src, m);
            P.v[i] = std::move(x);
            P.m[i] = m;
            return "construction";
        }
    }
}

#if defined(PROP_V01) || defined(PROP_V02)
template <class K>
void history(Source& src, bool registry) {
    Scope sc;
    size_t reallocs = 0, shifts = 0, edits = 0;
    pbt::log("elements: {}", K::name);
    {
        Pool<K> P;
        Model m;
        auto x = make<K>(src, m);
        P.v.push_back(std::move(x));
        P.m.push_back(m);
        while (src.next_op()) {
            const size_t i = src.below(P.v.size());
            const char* what = nullptr;
            if (src.weighted({5, 1}) == 1) {
                what = whole_op<K>(src, P, i);
            } else {
                const auto cap = P.v[i]->capacity();
                const size_t n = P.m[i].size();
                Effect e;
                bool thrown = false;
                if constexpr (K::tracked && K::move && !std::is_same_v<typename K::T, Reloc>) {
                    // now and then the k-th construction of an element fails
                    const uint64_t fail_in = registry && src.chance(1, 8) ? 1 + src.below(10) : 0;
                    try {
                        e = edit<K>(src, *P.v[i], P.m[i], [&](const Effect& planned) {
                            e = planned;
                            g_throw_in = fail_in;
                        });
                        if constexpr (K::copy) {
                            // the one that is to fail comes in a construction then
                            if (g_throw_in != 0 && !P.m[i].empty()) {
                                switch (src.below(4)) {
                                    case 0: (void)V<K>(*P.v[i]); break;
                                    case 1: (void)V<K>(P.m[i].size(), *P.v[i]->begin()); break;
                                    case 2: (void)V<K>(P.v[i]->begin(), P.v[i]->end()); break;
                                    default: (void)V<K>(P.m[i].size()); break;
                                }
                            }
                        }
                    } catch (const ElementError&) {
                        pbt::log("-> element error");
                        thrown = true;
                    }
                    g_throw_in = 0;
                } else {
                    e = edit<K>(src, *P.v[i], P.m[i], [](const Effect&) {});
                }
                what = e.name;
                ++edits;
                if (thrown) {
                    // what the vector holds then is not the matter here, but that every element of it lives
                    auto& v = *P.v[i];
                    P.m[i].clear();
                    for (auto& x : v) P.m[i].push_back(K::val(x));
                    e.need = n;
                    e.keep = n;
                    pbt::label("element constructions that failed");
                }
                if (P.v[i]->capacity() != cap) ++reallocs;
                if (e.need != n && e.keep < n) ++shifts;
            }
            P.check(what);
            if (registry && K::tracked) {
                CHECK_THAT(sc.reg.live.size() == P.total(), "after {}: {} elements exist, the vectors hold {}", what, sc.reg.live.size(), P.total());
                if (K::by_address) {
                    for (auto& v : P.v) {
                        for (auto& e : *v) CHECK_THAT(sc.reg.live.count(&e) == 1, "after {}: the vector holds an element that does not exist", what);
                    }
                }
            }
        }
    }
    sc.at_end();
    if (edits >= 3 && reallocs >= 1 && shifts >= 1) pbt::nontrivial();
    if (reallocs > 0) pbt::label("buffer replaced", reallocs);
    if (shifts > 0) pbt::label("elements shifted", shifts);
}
#endif

#ifdef PROP_V01
// vectors of more than 65536 elements
template <class K>
void big_history(Source& src) {
    using T = typename K::T;
    pbt::log("elements: {}, many", K::name);
    pbt::label("more than 65536 elements");
    const size_t limit = sizeof(T) <= 8 ? 300000 : 150000;
    auto amount = [&](size_t most) { return src.coin() ? src.near({32768, 65536, 131072}, 4, most) : src.below(most + 1); };
    V<K> v;
    Model m;
    auto put = [&](size_t n) {
        for (size_t k = 0; k < n; ++k) {
            const int x = int((m.size() * 7 + k / 3) % 100);
            if constexpr (K::conv) {
                v.emplace_back(x);
            } else {
                v.emplace_back(K::mk(x));
            }
            m.push_back(x);
        }
    };
    put(amount(limit / 2));
    const size_t steps = src.range(1, 5);
    for (size_t s = 0; s < steps; ++s) {
        const size_t n = m.size(), room = n < limit ? limit - n : 0;
        const size_t p = src.coin() ? src.below(n + 1) : src.near({0, n, 65536}, 2, n);
        const int x = int(src.below(100));
        const char* what = "";
        switch (src.below(8)) {
            case 0: {
                const size_t c = amount(room);
                what = "insert(pos, count, value)";
                pbt::log("{} {} at {} of {}", what, c, p, n);
                const T value(K::mk(x));
                v.insert(v.cbegin() + std::ptrdiff_t(p), c, value);
                m.insert(m.begin() + std::ptrdiff_t(p), c, x);
                break;
            }
            case 1: {
                const size_t c = amount(room);
                what = "insert(pos, first, last)";
                pbt::log("{} {} at {} of {}", what, c, p, n);
                Model from(c);
                for (size_t k = 0; k < c; ++k) from[k] = int((k * 3 + k / 100) % 100);
                Buf<K> b(from);
                v.insert(v.cbegin() + std::ptrdiff_t(p), (const T*)b.p, (const T*)b.p + c);
                m.insert(m.begin() + std::ptrdiff_t(p), from.begin(), from.end());
                break;
            }
            case 2: {
                const size_t q = std::min(n, p + amount(n - p));
                what = "erase(first, last)";
                pbt::log("{} from {} to {} of {}", what, p, q, n);
                v.erase(v.begin() + std::ptrdiff_t(p), v.begin() + std::ptrdiff_t(q));
                m.erase(m.begin() + std::ptrdiff_t(p), m.begin() + std::ptrdiff_t(q));
                break;
            }
            case 3: {
                const size_t c = amount(limit);
                what = "resize(count, value)";
                pbt::log("{} from {} to {}", what, n, c);
                const T value(K::mk(x));
                v.resize(c, value);
                m.resize(c, x);
                break;
            }
            case 4: {
                const size_t c = amount(limit);
                what = "assign(count, value)";
                pbt::log("{} {} to {}", what, c, n);
                const T value(K::mk(x));
                v.assign(c, value);
                m.assign(c, x);
                break;
            }
            case 5: {
                what = "copy assignment";
                pbt::log("{} of {}", what, n);
                V<K> w(v);
                v.clear();
                v = w;
                break;
            }
            case 6: {
                what = "erase(value)";
                pbt::log("{} {} of {}", what, x, n);
                const T value(K::mk(x));
                const auto r = v.erase_if([&](const T& e) { return K::val(e) == x; });
                const auto want = std::erase(m, x);
                CHECK_THAT(size_t(r) == size_t(want), "erase_if returned {}, expected {}", r, want);
                break;
            }
            default: {
                const size_t c = amount(room);
                what = "push";
                pbt::log("{} {} to {}", what, c, n);
                put(c);
                break;
            }
        }
        CHECK_THAT(v.size() == m.size(), "after {}: {} elements, expected {}", what, v.size(), m.size());
        for (size_t k = 0; k < m.size(); ++k) CHECK_THAT(K::val(v[k]) == m[k], "after {}: element {} is {}, expected {}", what, k, K::val(v[k]), m[k]);
    }
}
// elements larger than a cache line, than a page and than the first buffer of any growth policy
template <size_t N>
struct Blob {
    int v = 0;
    char pad[N - 2 * sizeof(int)] = {};
    int w = 0;
    Blob() = default;
    Blob(int x) : v(x), w(~x) {}  // NOLINT
    [[nodiscard]] auto get() const -> int { return v == ~w ? v : v == 0 && w == 0 ? 0 : -1234; }
    auto operator==(const Blob& o) const -> bool { return get() == o.get(); }
};
template <size_t N>
struct OwningBlob {
    std::string s{"0"};
    char pad[N - sizeof(std::string)] = {};
    OwningBlob() = default;
    OwningBlob(int x) : s(std::to_string(x) + std::string(size_t(x) % 31, ' ')) {}  // NOLINT
    [[nodiscard]] auto get() const -> int { return s.empty() ? -1234 : std::stoi(s); }
    auto operator==(const OwningBlob& o) const -> bool { return get() == o.get(); }
};
template <class T>
void blob_steps(Source& src) {
    pbt::log("elements of {} bytes", sizeof(T));
    stdb_vector<T> v, other;
    Model m;
    const size_t limit = sizeof(T) > 60000 ? 7 : 40;
    const size_t steps = src.range(1, 14);
    for (size_t k = 0; k < steps; ++k) {
        const size_t n = m.size(), p = src.below(n + 1);
        const int x = int(1 + src.below(90));
        const auto at = [&](auto& c, size_t i) { return c.begin() + std::ptrdiff_t(i); };
        const char* what = "";
        switch (src.below(n < limit ? 10 : 4)) {
            case 0:
                if (n == 0) continue;
                what = "erase";
                v.erase(at(v, std::min(p, n - 1)));
                m.erase(at(m, std::min(p, n - 1)));
                break;
            case 1:
                if (n == 0) continue;
                what = "pop_back";
                v.pop_back();
                m.pop_back();
                break;
            case 2:
                what = "shrink_to_fit";
                v.shrink_to_fit();
                break;
            case 3: {
                what = "copy and move";
                stdb_vector<T> c(v);
                other = c;
                v = std::move(other);
                break;
            }
            case 4:
                what = "push_back";
                v.push_back(T(x));
                m.push_back(x);
                break;
            case 5:
                what = "emplace_back";
                v.emplace_back(x);
                m.push_back(x);
                break;
            case 6: {
                what = "insert";
                const T e(x);
                v.insert(at(v, p), e);
                m.insert(at(m, p), x);
                break;
            }
            case 7:
                what = "emplace";
                v.emplace(at(v, p), x);
                m.emplace(at(m, p), x);
                break;
            case 8: {
                what = "push_back of an own element";
                if (n == 0) continue;
                v.push_back(v[std::min(p, n - 1)]);
                m.push_back(int(m[std::min(p, n - 1)]));
                break;
            }
            default: {
                what = "resize";
                const T e(x);
                v.resize(p + 1, e);
                m.resize(p + 1, x);
                break;
            }
        }
        pbt::log("{}", what);
        CHECK_THAT(v.size() == m.size() && v.capacity() >= m.size(), "after {}: {} elements in a capacity of {}, expected {}", what, v.size(), v.capacity(), m.size());
        for (size_t i = 0; i < m.size(); ++i) CHECK_THAT(v[i].get() == m[i], "after {}: element {} is {}, expected {}", what, i, v[i].get(), m[i]);
    }
}
void blobs(Source& src) {
    pbt::label("large elements");
    switch (src.below(12)) {
        case 0: return blob_steps<Blob<60>>(src);
        case 1: return blob_steps<Blob<72>>(src);
        case 2: return blob_steps<Blob<200>>(src);
        case 3: return blob_steps<Blob<4096>>(src);
        case 4: return blob_steps<Blob<65536>>(src);
        case 5: return blob_steps<Blob<131072>>(src);
        case 6: return blob_steps<Blob<131076>>(src);
        case 7: return blob_steps<Blob<200000>>(src);
        case 8: return blob_steps<OwningBlob<72>>(src);
        case 9: return blob_steps<OwningBlob<5000>>(src);
        case 10: return blob_steps<OwningBlob<131072>>(src);
        default: return blob_steps<OwningBlob<140000>>(src);
    }
}
// vectors of several GB, modelled as runs of equal elements (--scale 1)
using Runs = std::vector<std::pair<size_t, int>>;
auto total(const Runs& r) -> size_t {
    size_t n = 0;
    for (auto& [c, x] : r) n += c;
    return n;
}
// index of the run that begins at position p
auto split(Runs& r, size_t p) -> size_t {
    for (size_t k = 0; k < r.size(); ++k) {
        if (p == 0) return k;
        if (p < r[k].first) {
            r.insert(r.begin() + std::ptrdiff_t(k), {p, r[k].second});
            r[k + 1].first -= p;
            return k + 1;
        }
        p -= r[k].first;
    }
    return r.size();
}
void runs_insert(Runs& r, size_t p, size_t c, int x) {
    const size_t k = split(r, p);
    if (c > 0) r.insert(r.begin() + std::ptrdiff_t(k), {c, x});
}
void runs_erase(Runs& r, size_t a, size_t b) {
    const size_t i = split(r, a), j = split(r, b);
    r.erase(r.begin() + std::ptrdiff_t(i), r.begin() + std::ptrdiff_t(j));
}
template <class T>
void runs_check(const stdb_vector<T>& v, const Runs& r, const char* what) {
    CHECK_THAT(v.size() == total(r), "after {}: {} elements, expected {}", what, v.size(), total(r));
    CHECK_THAT(v.capacity() >= v.size(), "after {}: capacity {} for {} elements", what, v.capacity(), v.size());
    const T* p = v.data();
    for (auto& [c, x] : r) {
        CHECK_THAT(p[0] == T(x) && p[c - 1] == T(x) && memcmp(p, p + 1, (c - 1) * sizeof(T)) == 0,
                   "after {}: the {} elements from position {} are not all {}", what, c, p - v.data(), x);
        p += c;
    }
}
template <class T>
void giant_steps(Source& src) {
    constexpr size_t g = 1U << 30U;
    const size_t limit = 5 * g / sizeof(T);
    pbt::log("elements of {} bytes, several GB", sizeof(T));
    pbt::label("more than 4 GB");
    auto amount = [&](size_t most) {
        switch (src.below(4)) {
            case 0: return std::min<size_t>(most, src.below(50));
            case 1: return src.near({2 * g / sizeof(T), 4 * g / sizeof(T), 4 * g / sizeof(T)}, 3, most);
            default: return std::min<size_t>(most, 4 * g / sizeof(T) + src.below(1000));
        }
    };
    auto place = [&](size_t n) { return src.coin() ? src.near({0, n, 2 * g / sizeof(T), 4 * g / sizeof(T)}, 2, n) : src.below(n + 1); };
    auto value = [&] { return int(1 + src.below(200)); };
    int x = value();
    const size_t c0 = 4 * g / sizeof(T) + src.below(3000);
    pbt::log("construction of {} elements", c0);
    stdb_vector<T> v(c0, T(x));
    Runs m{{c0, x}};
    runs_check(v, m, "construction");
    const size_t steps = src.range(2, 3);
    for (size_t s = 0; s < steps; ++s) {
        const size_t n = v.size(), room = n < limit ? limit - n : 0, p = place(n);
        const auto at = [&](size_t k) { return v.begin() + std::ptrdiff_t(k); };
        x = value();
        const char* what = "";
        switch (src.below(11)) {
            case 0: {
                what = "push_back";
                for (int k = 0; k < 3; ++k) v.push_back(T(x));
                runs_insert(m, n, 3, x);
                break;
            }
            case 1: {
                what = "insert";
                v.insert(at(p), T(x));
                runs_insert(m, p, 1, x);
                break;
            }
            case 2: {
                const size_t c = std::min(room, amount(room));
                what = "insert(pos, count, value)";
                pbt::log("{} of {} at {}", what, c, p);
                v.insert(at(p), c, T(x));
                runs_insert(m, p, c, x);
                break;
            }
            case 3: {
                const size_t c = amount(room);
                what = "insert(pos, first, last)";
                pbt::log("{} of {} at {}", what, c, p);
                std::unique_ptr<T[]> b(new T[c + 1]);
                std::fill_n(b.get(), c, T(x));
                v.insert(at(p), (const T*)b.get(), (const T*)b.get() + c);
                runs_insert(m, p, c, x);
                break;
            }
            case 4: {
                const size_t q = std::min(n, p + amount(n));
                what = "erase(first, last)";
                pbt::log("{} from {} to {}", what, p, q);
                v.erase(at(p), at(q));
                runs_erase(m, p, q);
                break;
            }
            case 5: {
                if (p == n) continue;
                what = "erase(position)";
                pbt::log("{} {}", what, p);
                v.erase(at(p));
                runs_erase(m, p, p + 1);
                break;
            }
            case 6: {
                const size_t c = amount(limit);
                what = "resize(count, value)";
                pbt::log("{} {}", what, c);
                v.resize(c, T(x));
                if (c > n) runs_insert(m, n, c - n, x);
                if (c < n) runs_erase(m, c, n);
                break;
            }
            case 7: {
                what = "resize(count)";
                const size_t c = amount(limit);
                pbt::log("{} {}", what, c);
                v.resize(c);
                if (c > n) runs_insert(m, n, c - n, 0);
                if (c < n) runs_erase(m, c, n);
                break;
            }
            case 8: {
                what = "copy";
                stdb_vector<T> w(v);
                CHECK_THAT(w == v, "a copy of {} elements differs", n);
                v = std::move(w);
                break;
            }
            case 9: {
                what = "erase(value)";
                const T gone = m.empty() ? T(x) : T(m[src.below(m.size())].second);
                size_t want = 0;
                std::erase_if(m, [&](auto& r) {
                    if (T(r.second) != gone) return false;
                    want += r.first;
                    return true;
                });
                const size_t got = src.coin() ? v.erase(gone) : v.erase_if([&](const T& e) { return e == gone; });
                CHECK_THAT(got == want, "erase returned {}, expected {}", got, want);
                break;
            }
            default: {
                const size_t c = amount(limit);
                what = "assign(count, value)";
                pbt::log("{} {}", what, c);
                v.assign(c, T(x));
                m.clear();
                runs_insert(m, 0, c, x);
                break;
            }
        }
        pbt::log("{}", what);
        runs_check(v, m, what);
    }
    pbt::nontrivial();
}
constexpr Range kSetup{kKinds * 400, 3, 60};
void run(size_t k, Source& src) {
    if (pbt::g_scale == 1) return src.coin() ? giant_steps<uint8_t>(src) : giant_steps<uint64_t>(src);
    with_kind(k % kKinds, [&](auto kind) {
        using K = decltype(kind);
        if constexpr (K::copy && !K::tracked && (std::is_trivially_copyable_v<typename K::T> || std::is_same_v<K, KStdString>)) {
            if (k / kKinds == 399) return big_history<K>(src);
        }
        if constexpr (std::is_same_v<K, KInt>) {
            if (k / kKinds >= 360) return blobs(src);
        }
        history<K>(src, false);
    });
}
#endif

#ifdef PROP_V02
constexpr Range kSetup{8, 3, 60};
void run(size_t k, Source& src) {
    with_kind_of<KTracked, KKeeper, KMoveOnly, KCopyOnly, KReloc, KTracked, KString, KUnique>(k, [&](auto kind) { history<decltype(kind)>(src, true); });
}
#endif

#ifdef PROP_V03
template <class K>
void v03(Source& src) {
    using T = typename K::T;
    Scope sc;
    pbt::log("elements: {}", K::name);
    size_t watched = 0, reserved = 0;
    {
        std::vector<std::unique_ptr<V<K>>> P;
        std::vector<Model> M;
        P.emplace_back();
        M.emplace_back();
        P[0] = make<K>(src, M[0]);
        auto serial = [&](const T& x) -> uint64_t {
            if constexpr (K::by_address) {
                return sc.reg.live.at(&x);
            } else {
                return 0;
            }
        };
        while (src.next_op()) {
            const size_t i = src.below(P.size());
            auto& v = *P[i];
            auto& m = M[i];
            switch (src.weighted({8, 2, 1, 1, 1, 1})) {
                case 0: {
                    const auto cap = v.capacity();
                    T* data = v.data();
                    auto first = v.begin();
                    std::vector<uint64_t> ids(m.size());
                    Effect planned;
                    auto e = edit<K>(src, v, m, [&](const Effect& x) {
                        planned = x;
                        if (K::by_address) {
                            for (size_t k = 0; k < ids.size(); ++k) ids[k] = serial(data[k]);
                        }
                    });
                    if (planned.name == std::string("nothing") || e.whole) break;
                    if (e.need <= cap) {
                        CHECK_THAT(v.data() == data, "{} moved the buffer although {} elements fit the capacity {}", e.name, e.need, cap);
                        CHECK_THAT(v.begin() == first, "{}: an iterator to the first element became invalid", e.name);
                        if (K::by_address) {
                            for (size_t k = 0; k < std::min(e.keep, ids.size()); ++k) {
                                CHECK_THAT(serial(v.data()[k]) == ids[k], "{} replaced element {} in front of the modified position {}", e.name, k, e.keep);
                            }
                        }
                        if (e.need != ids.size()) ++watched;
                    } else if (e.need == ids.size() + 1 && ids.size() == cap && std::string(e.name).find("_back") != std::string::npos) {
                        // growth by a push
                        CHECK_THAT(cap * sizeof(T) < 64 || v.capacity() * 5 >= cap * 6, "{} grew the capacity from {} to only {}", e.name, cap, v.capacity());
                    }
                    break;
                }
                case 1: {
                    const auto cap = v.capacity();
                    const size_t want = src.coin() ? src.below(cap + 1) : cap + src.below(200);
                    pbt::log("reserve({}) of size {} capacity {}", want, m.size(), cap);
                    v.reserve(want);
                    CHECK_THAT(v.capacity() >= want, "reserve({}) made a capacity of {}", want, v.capacity());
                    CHECK_THAT(v.capacity() >= cap, "reserve({}) lowered the capacity from {} to {}", want, cap, v.capacity());
                    ++reserved;
                    // pushes up to the capacity move nothing
                    T* data = v.data();
                    const size_t room = v.capacity() - v.size();
                    if (room <= 300 && src.coin()) {
                        for (size_t k = 0; k < room; ++k) {
                            if constexpr (K::conv) {
                                v.emplace_back(int(k % 100));
                            } else {
                                v.emplace_back(K::mk(int(k % 100)));
                            }
                            m.push_back(int(k % 100));
                            CHECK_THAT(v.data() == data, "push {} of {} into the reserved capacity moved the buffer", k, room);
                        }
                        ++watched;
                    }
                    break;
                }
                case 2: {
                    pbt::log("shrink_to_fit of size {} capacity {}", m.size(), v.capacity());
                    v.shrink_to_fit();
                    CHECK_THAT(v.capacity() == m.size(), "shrink_to_fit of {} elements made a capacity of {}", m.size(), v.capacity());
                    ++reserved;
                    break;
                }
                case 3: {
                    if constexpr (K::conv && !K::by_address) {
                        if (src.chance(1, 2000)) {
                            const size_t c = src.below(std::min<size_t>(size_t(4) << 20, size_t(4 << 20) / sizeof(T)));
                            pbt::log("{} pushes to an empty vector", c);
                            V<K> big;
                            for (size_t k = 0; k < c; ++k) {
                                const auto cap = big.capacity();
                                big.emplace_back(int(k % 100));
                                CHECK_THAT(big.capacity() == cap || cap * sizeof(T) < 64 || big.capacity() * 5 >= cap * 6,
                                           "push {} grew the capacity from {} to only {}", k, cap, big.capacity());
                            }
                            ++reserved;
                            break;
                        }
                    }
                    // pushing many: the number of buffers is logarithmic
                    const size_t c = src.below(1500);
                    pbt::log("{} pushes", c);
                    size_t changes = 0;
                    const T* data = v.data();
                    const size_t from = std::max<size_t>(v.capacity(), 1);
                    for (size_t k = 0; k < c; ++k) {
                        if constexpr (K::conv) {
                            v.emplace_back(1);
                        } else {
                            v.emplace_back(K::mk(1));
                        }
                        m.push_back(1);
                        if (v.data() != data) {
                            data = v.data();
                            ++changes;
                        }
                    }
                    size_t allowed = 8;
                    for (size_t x = from; x < m.size(); x += std::max<size_t>(1, x / 5)) ++allowed;
                    CHECK_THAT(changes <= allowed, "{} pushes up to a size of {} took {} buffers", c, m.size(), changes);
                    if (m.size() > 3000) {
                        v.resize(3);
                        m.resize(3);
                    }
                    break;
                }
                case 4: {
                    // swap and move hand over the buffers
                    if (P.size() < 3) {
                        P.emplace_back();
                        M.emplace_back();
                        P.back() = make<K>(src, M.back());
                        break;
                    }
                    const size_t j = src.below(P.size());
                    if (i == j) break;
                    auto& w = *P[j];
                    auto* a = v.data();
                    auto* b = w.data();
                    const auto ca = v.capacity(), cb = w.capacity();
                    const auto before = sc.reg.serial;
                    if (src.coin()) {
                        pbt::log("swap {} {}", i, j);
                        if (src.coin()) {
                            v.swap(w);
                        } else {
                            std::swap(v, w);
                        }
                        std::swap(m, M[j]);
                        CHECK_THAT(v.data() == b && w.data() == a, "swap did not exchange the buffers");
                        CHECK_THAT(v.capacity() == cb && w.capacity() == ca, "swap did not exchange the capacities");
                    } else {
                        pbt::log("{} = move({})", i, j);
                        v = std::move(w);
                        m = M[j];
                        M[j].clear();
                        CHECK_THAT(v.data() == b && v.capacity() == cb, "move assignment did not hand over the buffer");
                        w = V<K>();
                    }
                    CHECK_THAT(sc.reg.serial == before, "swap or move constructed {} elements", sc.reg.serial - before);
                    ++reserved;
                    break;
                }
                default: {
                    pbt::log("move construction from {}", i);
                    auto* a = v.data();
                    const auto ca = v.capacity();
                    const auto before = sc.reg.serial;
                    V<K> t(std::move(v));
                    CHECK_THAT(t.data() == a && t.capacity() == ca, "move construction did not hand over the buffer");
                    check<K>(t, m, "move construction");
                    v = std::move(t);
                    CHECK_THAT(v.data() == a && v.capacity() == ca, "move assignment did not hand over the buffer");
                    CHECK_THAT(sc.reg.serial == before, "moving constructed {} elements", sc.reg.serial - before);
                }
            }
            for (size_t k = 0; k < P.size(); ++k) check<K>(*P[k], M[k], "the operation");
        }
    }
    sc.at_end();
    if (watched >= 2 && reserved >= 1) pbt::nontrivial();
    if (watched > 0) pbt::label("edits within the capacity", watched);
}
constexpr Range kSetup{kKinds, 3, 50};
void run(size_t k, Source& src) {
    with_kind(k, [&](auto kind) { v03<decltype(kind)>(src); });
}
#endif

#ifdef PROP_V04
// the filler is a plain function: what it announces, writes and reports is set from outside
size_t g_announce, g_write, g_null_calls, g_write_calls;
const Model* g_fill_values;
template <class K>
auto filler(typename K::T* p) -> size_t {
    if (p == nullptr) {
        ++g_null_calls;
        return g_announce;
    }
    ++g_write_calls;
    for (size_t i = 0; i < g_write; ++i) {
        if constexpr (K::conv) {
            new ((void*)(p + i)) typename K::T((*g_fill_values)[i]);
        } else {
            new ((void*)(p + i)) typename K::T(K::mk((*g_fill_values)[i]));
        }
    }
    return g_write;
}

template <class K>
void v04(Source& src) {
    using T = typename K::T;
    constexpr auto U = Safety::Unsafe;
    Scope sc;
    pbt::log("elements: {}", K::name);
    size_t bulk = 0, grew = 0, unchecked = 0;
    {
        Model m;
        auto pv = make<K>(src, m);
        auto& v = *pv;
        while (src.next_op()) {
            const size_t n = m.size();
            const size_t cap = v.capacity();
            const size_t room = cap - n;
            auto mit = [&](size_t i) { return m.begin() + std::ptrdiff_t(i); };
            auto citer = [&](size_t i) { return v.cbegin() + std::ptrdiff_t(i); };
            auto at = [&](auto it, size_t want, const char* what) {
                CHECK_THAT(it - v.begin() == std::ptrdiff_t(want), "{} returned position {}, expected {}", what, it - v.begin(), want);
            };
            const char* what = "edit";
            switch (src.weighted({4, 3, 4, 3, 6, 2})) {
                case 0:
                case 1: {
                    if constexpr (K::trivial) {
                        const bool unsafe = src.coin();
                        size_t c = gen_count(src, room);
                        if (unsafe) c = std::min(c, room);
                        pbt::log("get_writebuffer{}({}) size {} capacity {}", unsafe ? "<Unsafe>" : "", c, n, cap);
                        what = "get_writebuffer";
                        auto buf = unsafe ? v.template get_writebuffer<U>(c) : v.get_writebuffer(c);
                        CHECK_THAT(buf.size() == c, "a buffer of {} elements was asked for, {} came back", c, buf.size());
                        CHECK_THAT(v.size() == n + c, "size {} after getting a buffer of {} on {} elements", v.size(), c, n);
                        CHECK_THAT(v.capacity() >= n + c, "capacity {} for {} elements", v.capacity(), n + c);
                        CHECK_THAT(c == 0 || buf.data() == v.data() + n, "the buffer does not start behind the {} existing elements", n);
                        for (size_t i = 0; i < n; ++i) {
                            CHECK_THAT(K::val(v[i]) == m[i], "element {} changed while a buffer was handed out", i);
                        }
                        const int a = int(src.below(200)), b = int(src.below(7));
                        for (size_t i = 0; i < c; ++i) {
                            const int x = int((size_t(a) + i * size_t(b)) % 200);
                            std::construct_at(&buf[i], K::mk(x));
                            m.push_back(x);
                        }
                        if (v.capacity() != cap) ++grew;
                        ++bulk;
                        break;
                    }
                    [[fallthrough]];
                }
                case 2:
                case 3: {
                    const bool unsafe = src.coin();
                    Model vals = gen_values(src, room);
                    size_t c = vals.size();
                    if (unsafe) c = std::min(c, room);
                    g_announce = c;
                    g_write = src.chance(1, 3) ? src.below(c + 1) : c;
                    g_fill_values = &vals;
                    g_null_calls = g_write_calls = 0;
                    pbt::log("fill{} announcing {} writing {} size {} capacity {}", unsafe ? "<Unsafe>" : "", c, g_write, n, cap);
                    what = "fill";
                    if (v.data() == nullptr && c == 0) break;  // the position to write to can not be told from the question
                    if (unsafe) {
                        if (v.data() == nullptr) break;
                        v.template fill<U>(&filler<K>);
                    } else {
                        v.fill(&filler<K>);
                    }
                    CHECK_THAT(g_write_calls == 1, "the callback was asked {} times to write", g_write_calls);
                    CHECK_THAT(v.capacity() >= n + c, "capacity {} for {} elements and {} announced", v.capacity(), n, c);
                    m.insert(m.end(), vals.begin(), vals.begin() + std::ptrdiff_t(g_write));
                    if (v.capacity() != cap) ++grew;
                    ++bulk;
                    break;
                }
                case 4: {  // unchecked variants, within the capacity
                    const size_t extra = src.below(8);
                    v.reserve(n + 1 + extra);
                    const size_t space = v.capacity() - n;
                    const T* data = v.data();
                    const size_t p = src.below(n + 1);
                    const int x = gen_value(src);
                    Elem<K> y(x);
                    const int z = K::val(y.ref());
                    what = "unchecked variant";
                    ++unchecked;
                    auto put = [&](auto&& f) {
                        if constexpr (K::conv) {
                            return f(x);
                        } else if constexpr (K::copy) {
                            return f(y.cref());
                        } else {
                            return f(std::move(y.ref()));
                        }
                    };
                    switch (src.below(9)) {
                        case 0:
                            if constexpr (K::copy) {
                                pbt::log("push_back<Unsafe>(const&)");
                                v.template push_back<U>(y.cref());
                                m.push_back(z);
                            }
                            break;
                        case 1:
                            if constexpr (K::move) {
                                pbt::log("push_back<Unsafe>(&&)");
                                v.template push_back<U>(std::move(y.ref()));
                                m.push_back(z);
                            }
                            break;
                        case 2: {
                            pbt::log("emplace_back<Unsafe>");
                            auto it = put([&](auto&& a) { return v.template emplace_back<U>(std::forward<decltype(a)>(a)); });
                            m.push_back(z);
                            at(it, n, "emplace_back<Unsafe>");
                            break;
                        }
                        case 3:
                            if constexpr (K::copy) {
                                pbt::log("insert<Unsafe>({}, const&)", p);
                                auto it = v.template insert<U>(citer(p), y.cref());
                                m.insert(mit(p), z);
                                at(it, p, "insert<Unsafe>");
                            }
                            break;
                        case 4:
                            if constexpr (K::move) {
                                pbt::log("insert<Unsafe>({}, &&)", p);
                                auto it = v.template insert<U>(citer(p), std::move(y.ref()));
                                m.insert(mit(p), z);
                                at(it, p, "insert<Unsafe>");
                            }
                            break;
                        case 5:
                            if constexpr (K::copy) {
                                const size_t c = src.below(space + 1);
                                pbt::log("insert<Unsafe>({}, {} copies) size {} capacity {}", p, c, n, v.capacity());
                                auto it = v.template insert<U>(citer(p), c, y.cref());
                                m.insert(mit(p), c, z);
                                at(it, p, "insert<Unsafe>");
                            }
                            break;
                        case 6: {
                            Model vals = gen_values(src, space);
                            vals.resize(std::min(vals.size(), space));
                            with_range<K>(src, vals, [&](const char* name, auto a, auto b) {
                                pbt::log("insert<Unsafe>({}, {} from {}) size {} capacity {}", p, vals.size(), name, n, v.capacity());
                                auto it = v.template insert<U>(citer(p), a, b);
                                m.insert(mit(p), vals.begin(), vals.end());
                                at(it, p, "insert<Unsafe>");
                            });
                            break;
                        }
                        case 7: {
                            const bool by_index = src.coin();
                            pbt::log("emplace<Unsafe>({})", p);
                            auto it = put([&](auto&& a) {
                                return by_index ? v.template emplace<U>(p, std::forward<decltype(a)>(a))
                                                : v.template emplace<U>(v.begin() + std::ptrdiff_t(p), std::forward<decltype(a)>(a));
                            });
                            m.insert(mit(p), z);
                            at(it, p, "emplace<Unsafe>");
                            break;
                        }
                        default: {
                            // resize leaves the new elements unset
                            if constexpr (K::trivial) {
                                const size_t c = src.coin() ? n + src.below(space + 1) : src.below(n + 1);
                                pbt::log("resize<Unsafe>({}) size {}", c, n);
                                v.template resize<U>(c);
                                CHECK_THAT(v.size() == c, "resize<Unsafe>({}) made the size {}", c, v.size());
                                m.resize(c);
                                for (size_t i = n; i < c; ++i) std::construct_at(v.data() + i, K::mk(m[i]));
                            }
                        }
                    }
                    CHECK_THAT(v.data() == data, "an unchecked variant with sufficient capacity moved the buffer");
                    break;
                }
                default: {
                    auto e = edit<K>(src, v, m, [](const Effect&) {});
                    what = e.name;
                }
            }
            check<K>(v, m, what);
        }
    }
    sc.at_end();
    if (bulk >= 2 && grew >= 1) pbt::nontrivial();
    if (unchecked > 0) pbt::label("unchecked variant", unchecked);
    if (grew > 0) pbt::label("bulk write grew the vector", grew);
}
constexpr Range kSetup{kKinds, 3, 40};
void run(size_t k, Source& src) {
    with_kind(k, [&](auto kind) { v04<decltype(kind)>(src); });
}
#endif

#ifdef PROP_V05
template <class K>
void v05(Source& src) {
    using T = typename K::T;
    constexpr int kUnknown = -12345;  // what a moved-from element holds is not specified
    Scope sc;
    pbt::log("elements: {}", K::name);
    size_t grown = 0, ops = 0;
    {
        Model m;
        auto pv = make<K>(src, m);
        auto& v = *pv;
        while (src.next_op()) {
            if (m.empty()) {
                for (int i = 0; i < 4; ++i) {
                    if constexpr (K::conv) {
                        v.emplace_back(i + 1);
                    } else {
                        v.emplace_back(K::mk(i + 1));
                    }
                    m.push_back(i + 1);
                }
            }
            if (src.chance(1, 4)) {
                edit<K>(src, v, m, [](const Effect&) {});
                if (m.empty()) continue;
            }
            const size_t pre = src.weighted({3, 3, 2});
            if (pre == 1) v.shrink_to_fit();
            if (pre == 2) v.reserve(m.size() + 1 + src.below(4));
            const size_t n = m.size();
            const size_t i = src.chance(1, 3) ? n - 1 : src.below(n);  // source
            const size_t p = src.below(n + 1);                         // position
            const size_t c = src.below(2 * n + 3);
            const int z = m[i];
            const auto cap = v.capacity();
            auto mit = [&](size_t k) { return m.begin() + std::ptrdiff_t(k); };
            auto citer = [&](size_t k) { return v.cbegin() + std::ptrdiff_t(k); };
            auto at = [&](auto it, size_t want, const char* what) {
                CHECK_THAT(it - v.begin() == std::ptrdiff_t(want), "{} returned position {}, expected {}", what, it - v.begin(), want);
            };
            const size_t op = src.below(13);
            pbt::log("op {} with element {} at {} count {} size {} capacity {}", op, i, p, c, n, cap);
            const char* what = "";
            size_t moved = SIZE_MAX;  // index of a moved-from element afterwards
            auto skip = [&] { what = "nothing"; };
            switch (op) {
                case 0:
                    if constexpr (K::copy) {
                        what = "push_back(v[i])";
                        v.push_back(v[i]);
                        m.push_back(z);
                    } else {
                        skip();
                    }
                    break;
                case 1:
                    if constexpr (K::move) {
                        what = "push_back(move(v[i]))";
                        v.push_back(std::move(v[i]));
                        m.push_back(z);
                        moved = i;
                    } else {
                        skip();
                    }
                    break;
                case 2:
                    if constexpr (K::copy) {
                        what = "emplace_back(v[i])";
                        auto it = v.emplace_back(v[i]);
                        m.push_back(z);
                        at(it, n, what);
                    } else {
                        skip();
                    }
                    break;
                case 3:
                    if constexpr (K::copy) {
                        what = "insert(p, v[i])";
                        auto it = v.insert(citer(p), v[i]);
                        m.insert(mit(p), z);
                        at(it, p, what);
                    } else {
                        skip();
                    }
                    break;
                case 4:
                    if constexpr (K::move) {
                        what = "insert(p, move(v[i]))";
                        auto it = v.insert(citer(p), std::move(v[i]));
                        m.insert(mit(p), z);
                        at(it, p, what);
                        moved = i < p ? i : i + 1;
                    } else {
                        skip();
                    }
                    break;
                case 5:
                    if constexpr (K::copy) {
                        what = "insert(p, c, v[i])";
                        auto it = v.insert(citer(p), c, v[i]);
                        m.insert(mit(p), c, z);
                        at(it, p, what);
                    } else {
                        skip();
                    }
                    break;
                case 6:
                    if constexpr (K::copy) {
                        what = "emplace(iterator, v[i])";
                        auto it = v.emplace(v.begin() + std::ptrdiff_t(p), v[i]);
                        m.insert(mit(p), z);
                        at(it, p, what);
                    } else {
                        skip();
                    }
                    break;
                case 7:
                    if constexpr (K::copy) {
                        what = "emplace(index, v[i])";
                        auto it = v.emplace(p, v[i]);
                        m.insert(mit(p), z);
                        at(it, p, what);
                    } else {
                        skip();
                    }
                    break;
                case 8:
                    if constexpr (K::copy) {
                        what = "resize(c, v[i])";
                        v.resize(c, v[i]);
                        m.resize(c, z);
                    } else {
                        skip();
                    }
                    break;
                case 9:
                    if constexpr (K::copy) {
                        what = "assign(c, v[i])";
                        v.assign(c, v[i]);
                        m.assign(c, z);
                    } else {
                        skip();
                    }
                    break;
                case 10:
                    if constexpr (K::move) {
                        what = "emplace(p, move(v[i]))";
                        auto it = src.coin() ? v.emplace(p, std::move(v[i])) : v.emplace(v.begin() + std::ptrdiff_t(p), std::move(v[i]));
                        m.insert(mit(p), z);
                        at(it, p, what);
                        moved = i < p ? i : i + 1;
                    } else {
                        skip();
                    }
                    break;
                case 11:
                    if constexpr (K::copy && requires(const T& x) { x == x; }) {
                        const auto cnt = size_t(std::count(m.begin(), m.end(), z));
                        what = "erase(v[i])";
                        const size_t got = src.coin() ? v.erase(v[i]) : std::erase(v, v[i]);
                        std::erase(m, z);
                        CHECK_THAT(got == cnt, "erase(v[i]) returned {}, expected {}", got, cnt);
                    } else {
                        skip();
                    }
                    break;
                default:
                    // a part of an element
                    if constexpr (requires(const T& x) { x.part(); }) {
                        what = "emplace(p, v[i].part)";
                        const size_t way = src.below(3);
                        if (way == 0) {
                            v.emplace(p, v[i].part());
                            m.insert(mit(p), z);
                        } else if (way == 1) {
                            v.emplace(v.begin() + std::ptrdiff_t(p), v[i].part());
                            m.insert(mit(p), z);
                        } else {
                            v.emplace_back(v[i].part());
                            m.push_back(z);
                        }
                    } else {
                        skip();
                    }
            }
            if (moved != SIZE_MAX) {
                // give the moved-from element a value again
                if constexpr (K::move) {
                    Elem<K> y(7);
                    CHECK_THAT(v.size() == m.size(), "after {}: size {}, expected {}", what, v.size(), m.size());
                    std::destroy_at(v.data() + moved);
                    std::construct_at(v.data() + moved, std::move(y.ref()));
                    m[moved] = 7;
                }
            }
            (void)kUnknown;
            check<K>(v, m, what);
            ++ops;
            if (v.capacity() > cap) ++grown;
            if (op == 11 && m.size() < n) pbt::label("erased by an own element");
            if (m.size() > 600) {
                v.resize(5);
                m.resize(5);
            }
        }
    }
    sc.at_end();
    if (ops >= 3 && grown >= 1) pbt::nontrivial();
    if (grown > 0) pbt::label("aliased edit that replaced the buffer", grown);
}
constexpr Range kSetup{kKinds, 3, 30};
void run(size_t k, Source& src) {
    with_kind(k, [&](auto kind) { v05<decltype(kind)>(src); });
}
#endif

#ifdef PROP_V06
}  // namespace
inline bool g_armed = false;
inline uint64_t g_malloc_in = 0, g_malloc_failed = 0;
#if PBT_PART == 0
extern "C" {
void* __real_malloc(size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
static bool refuse(size_t n) {
    if (!g_armed) return false;
    if (n > (size_t(1) << 28U) || (g_malloc_in != 0 && --g_malloc_in == 0)) {
        ++g_malloc_failed;
        return true;
    }
    return false;
}
void* __wrap_malloc(size_t n) { return refuse(n) ? nullptr : __real_malloc(n); }
void* __wrap_realloc(void* p, size_t n) { return refuse(n) ? nullptr : __real_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return refuse(n) ? nullptr : __real_aligned_alloc(a, n); }
}
#endif
namespace {
template <class K>
auto huge_filler(typename K::T* p) -> size_t {
    return p == nullptr ? g_throw_in /* reused as the announced size */ : 0;
}

template <class K>
void v06(Source& src) {
    using T = typename K::T;
    Scope sc;
    g_armed = false;
    g_malloc_in = 0;
    g_thrown = 0;
    pbt::log("elements: {}", K::name);
    size_t failed_memory = 0, failed_element = 0, failed_size = 0;
    {
        Model m;
        auto pv = make<K>(src, m);
        auto& v = *pv;
        auto intact = [&](const char* what, bool whole) {
            if (whole && v.size() == 0) m.clear();
            check<K>(v, m, what);
            if (K::tracked) {
                CHECK_THAT(sc.reg.live.size() == m.size(), "after {}: {} elements exist, the vector holds {}", what, sc.reg.live.size(), m.size());
            }
        };
        while (src.next_op()) {
            const size_t n = m.size();
            switch (src.weighted({6, 5, 5, 3})) {
                case 0: {  // an edit, the k-th allocation fails
                    const uint64_t k = 1 + src.below(2);
                    std::string name = "nothing";
                    bool whole = false;
                    const auto before = g_malloc_failed;
                    try {
                        edit<K>(src, v, m, [&](const Effect& e) {
                            name = e.name;
                            whole = e.whole;
                            g_malloc_in = k;
                            g_armed = true;
                        });
                        g_armed = false;
                        g_malloc_in = 0;
                        if (name == "pushes") break;
                        CHECK_THAT(g_malloc_failed == before, "{} went on although an allocation had failed", name);
                    } catch (const std::bad_alloc&) {
                        g_armed = false;
                        g_malloc_in = 0;
                        CHECK_THAT(g_malloc_failed > before, "{} threw bad_alloc out of nothing", name);
                        ++failed_memory;
                        pbt::log("-> bad_alloc");
                        intact(name.c_str(), whole);
                    }
                    break;
                }
                case 1: {  // an edit, the construction of an element fails
                    if constexpr (K::tracked && K::move && !std::is_same_v<T, Reloc>) {
                        const uint64_t k = 1 + src.below(src.coin() ? 3 : 12);
                        std::string name = "nothing";
                        bool whole = false;
                        const auto before = g_thrown;
                        try {
                            edit<K>(src, v, m, [&](const Effect& e) {
                                name = e.name;
                                whole = e.whole;
                                g_throw_in = k;
                            });
                            g_throw_in = 0;
                            CHECK_THAT(g_thrown == before, "{} went on although an element could not be constructed", name);
                        } catch (const ElementError&) {
                            g_throw_in = 0;
                            ++failed_element;
                            pbt::log("-> element error");
                            intact(name.c_str(), whole);
                        }
                    }
                    break;
                }
                case 2: {  // counts that can not be had
                    const size_t lim = v.max_size();
                    const size_t huge = src.coin() ? src.pick<size_t>({lim, lim + 1, lim - n, lim - n + 1, lim / 2, lim * 2 + 2, SIZE_MAX, SIZE_MAX - n,
                                                                        SIZE_MAX - n + 1, SIZE_MAX / sizeof(T), SIZE_MAX / sizeof(T) + 2})
                                                   : (size_t(1) << (34 + src.below(30))) + src.below(3);
                    auto py = std::make_unique<Elem<K>>(3);
                    auto& y = *py;
                    std::string what;
                    bool whole = false, thrown = false;
                    const size_t op = src.below(10);
                    pbt::log("huge {} op {}", huge, op);
                    if (huge < (size_t(1) << 33)) break;
                    g_armed = true;
                    try {
                        switch (op) {
                            case 0: what = "reserve"; v.reserve(huge); break;
                            case 1: what = "resize"; v.resize(huge); break;
                            case 2:
                                if constexpr (K::copy) {
                                    what = "resize(n, v)";
                                    v.resize(huge, y.cref());
                                }
                                break;
                            case 3:
                                if constexpr (K::copy) {
                                    what = "assign(n, v)";
                                    whole = true;
                                    v.assign(huge, y.cref());
                                }
                                break;
                            case 4:
                                if constexpr (K::copy) {
                                    what = "insert(n, v)";
                                    v.insert(v.cbegin() + std::ptrdiff_t(src.below(n + 1)), huge, y.cref());
                                }
                                break;
                            case 5: {
                                what = "construction";
                                V<K> x(huge);
                                break;
                            }
                            case 6:
                                if constexpr (K::copy) {
                                    what = "construction(n, v)";
                                    V<K> x(huge, y.cref());
                                }
                                break;
                            case 7:
                                if constexpr (K::trivial) {
                                    what = "get_writebuffer";
                                    (void)v.get_writebuffer(huge);
                                }
                                break;
                            case 8:
                                if constexpr (K::trivial) {
                                    what = "resize<Unsafe>";
                                    v.template resize<Safety::Unsafe>(huge);
                                }
                                break;
                            default:
                                if constexpr (K::trivial) {
                                    what = "fill";
                                    g_throw_in = huge;
                                    v.fill(&huge_filler<K>);
                                }
                        }
                    } catch (const std::bad_alloc&) {
                        thrown = true;
                    } catch (const std::length_error&) {
                        thrown = true;
                    }
                    g_throw_in = 0;
                    g_armed = false;
                    if (what.empty()) break;
                    CHECK_THAT(thrown, "{} with a count of {} on {} elements did not throw", what, huge, n);
                    ++failed_size;
                    py.reset();
                    intact(what.c_str(), whole);
                    break;
                }
                default: {  // copies and constructions
                    const uint64_t k = 1 + src.below(2);
                    const bool by_element = K::tracked && K::move && !std::is_same_v<T, Reloc> && src.coin();
                    const size_t op = src.below(8);
                    Model vals = gen_values(src, v.capacity());
                    Buf<K> b(vals);
                    bool whole = false;
                    const char* what = "construction";
                    pbt::log("construction or copy {} of {} elements", op, vals.size());
                    const auto live = sc.reg.live.size();
                    auto fail = [&] {
                        if (by_element) {
                            g_throw_in = k + src.below(5);
                        } else {
                            g_malloc_in = k;
                            g_armed = true;
                        }
                    };
                    try {
                        if constexpr (K::copy) {
                            switch (op) {
                                case 0: {
                                    fail();
                                    V<K> x(v);
                                    check<K>(x, m, "copy construction");
                                    break;
                                }
                                case 1: {
                                    fail();
                                    V<K> x(b.p, b.p + b.n);
                                    check<K>(x, vals, "construction");
                                    break;
                                }
                                case 2: {
                                    what = "copy assignment";
                                    whole = true;
                                    V<K> o(b.p, b.p + b.n);
                                    fail();
                                    v = o;
                                    m = vals;
                                    break;
                                }
                                case 3: {
                                    const Elem<K> y(7);
                                    const size_t count = vals.size();
                                    fail();
                                    V<K> x(count, y.cref());
                                    CHECK_THAT(x.size() == count, "construction of {} copies made {}", count, x.size());
                                    break;
                                }
                                case 4: {
                                    fail();
                                    V<K> x(std::reverse_iterator(b.p + b.n), std::reverse_iterator(b.p));
                                    CHECK_THAT(x.size() == b.n, "construction from {} elements made {}", b.n, x.size());
                                    break;
                                }
                                case 5: {
                                    vals.resize(std::min<size_t>(vals.size(), 4));
                                    with_list<K>(vals, [&](std::initializer_list<T> l) {
                                        fail();
                                        V<K> x(l);
                                        check<K>(x, vals, "construction from a list");
                                    });
                                    break;
                                }
                                default: {
                                    fail();
                                    V<K> x(vals.size());
                                }
                            }
                        } else {
                            fail();
                            V<K> x(vals.size());
                        }
                        g_armed = false;
                        g_malloc_in = g_throw_in = 0;
                    } catch (const std::bad_alloc&) {
                        ++failed_memory;
                        g_armed = false;
                        g_malloc_in = g_throw_in = 0;
                        pbt::log("-> bad_alloc");
                    } catch (const ElementError&) {
                        ++failed_element;
                        g_armed = false;
                        g_malloc_in = g_throw_in = 0;
                        pbt::log("-> element error");
                    }
                    if (whole && v.size() == 0) m.clear();
                    check<K>(v, m, what);
                    if (K::tracked) {
                        CHECK_THAT(sc.reg.live.size() == m.size() + b.n, "after {}: {} elements exist (before {}), {} are held", what,
                                   sc.reg.live.size(), live, m.size() + b.n);
                    }
                }
            }
            check<K>(v, m, "the operation");
        }
    }
    sc.at_end();
    if (failed_memory >= 1 && failed_memory + failed_element + failed_size >= 2) pbt::nontrivial();
    if (failed_memory > 0) pbt::label("allocation failed", failed_memory);
    if (failed_element > 0) pbt::label("element construction failed", failed_element);
    if (failed_size > 0) pbt::label("impossible count", failed_size);
}
constexpr Range kSetup{12, 3, 30};
void run(size_t k, Source& src) {
    with_kind_of<KInt, KTracked, KTracked, KKeeper, KMoveOnly, KReloc, KString, KOver, KCopyOnly, KByte, KUnique, KWide>(
      k, [&](auto kind) { v06<decltype(kind)>(src); });
}
#endif

#ifdef PROP_V07
struct Less {  // only < and > and ==
    int v;
    auto operator<(const Less& o) const -> bool { return v < o.v; }
    auto operator>(const Less& o) const -> bool { return v > o.v; }
    auto operator==(const Less& o) const -> bool { return v == o.v; }
};

template <class T>
auto element(Source& src) -> T {
    if constexpr (std::is_same_v<T, int>) return int(src.below(6)) - 2;
    if constexpr (std::is_same_v<T, double>) {
        const auto k = src.below(8);
        if (k == 7) return std::numeric_limits<double>::quiet_NaN();
        if (k == 6) return -0.0;
        return double(int(k) - 2) / 2;
    }
    if constexpr (std::is_same_v<T, char>) return char('a' + src.below(4));
    if constexpr (std::is_same_v<T, uint8_t>) return uint8_t(src.pick<int>({0, 1, 127, 128, 255}));
    if constexpr (std::is_same_v<T, bool>) return src.coin();
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, stdb::memory::string>) {
        std::string s(src.below(4), char('a' + src.below(2)));
        if (src.chance(1, 6)) s += std::string("\"\\\n", 3);
        if (src.chance(1, 6)) s.assign(260, 'q');
        return T(s.data(), s.size());
    }
    if constexpr (std::is_same_v<T, Less>) return Less{int(src.below(4))};
}
template <class T>
auto pod(const T& x) -> std::string {
    if constexpr (std::is_same_v<T, Less>) return std::to_string(x.v);
    else if constexpr (std::is_same_v<T, stdb::memory::string>) return std::string(x.data(), x.size());
    else return fmt::format("{}", x);
}

// algorithms need element types std::vector can mirror; bool is mirrored by deque
template <class T>
void v07(Source& src) {
    using SV = stdb_vector<T>;
    using MV = std::conditional_t<std::is_same_v<T, bool>, std::deque<T>, std::vector<T>>;
    static_assert(std::contiguous_iterator<typename SV::iterator> && std::contiguous_iterator<typename SV::const_iterator>);
    struct Pair {
        SV s;
        MV m;
    };
    std::vector<Pair> P(1);
    size_t moved = 0, compared = 0;
    if (std::is_trivially_copyable_v<T> && src.chance(1, 200)) {  // offsets beyond 8, 15 and 16 bits
        const size_t n = src.near({256, 32768, 65536, 100000, 140000}, 3, 140003);
        pbt::log("vector 0 of {} elements", n);
        pbt::label("many elements");
        const auto x = element<T>(src), y = element<T>(src);
        P[0].s.resize(n, x);
        P[0].m.resize(n, x);
        for (size_t i = n; i-- > 0;) {
            if (i % 3 != 0) continue;
            P[0].s[i] = y;
            P[0].m[i] = y;
        }
    }
    auto same_elem = [](const T& a, const T& b) {
        if constexpr (std::is_same_v<T, double>) return memcmp(&a, &b, sizeof a) == 0;
        else return a == b;
    };
    auto same = [&](const Pair& p) {
        if (p.s.size() != p.m.size()) return false;
        for (size_t i = 0; i < p.m.size(); ++i) {
            if (!same_elem(p.s[i], p.m[i])) return false;
        }
        return true;
    };
    while (src.next_op()) {
        switch (src.weighted({3, 4, 4, 4, 2})) {
            case 0: {
                Pair p;
                if (P.size() > 1 && src.coin()) p = P[src.below(P.size())];
                const size_t c = src.below(6);
                for (size_t i = 0; i < c; ++i) {
                    auto x = element<T>(src);
                    p.s.push_back(x);
                    p.m.push_back(x);
                }
                if (!p.m.empty() && src.chance(1, 3)) {
                    const size_t k = src.below(p.m.size());
                    auto x = element<T>(src);
                    p.s[k] = x;
                    p.m[k] = x;
                }
                if (src.chance(1, 4)) {
                    const size_t k = src.below(p.m.size() + 1);
                    p.s.resize(k);
                    p.m.resize(k);
                }
                pbt::log("vector {} of {} elements", P.size(), p.m.size());
                if (P.size() < 5) {
                    P.push_back(std::move(p));
                } else {
                    P[src.below(5)] = std::move(p);
                }
                break;
            }
            case 1: {  // iterators
                auto& p = P[src.below(P.size())];
                auto& v = p.s;
                const auto n = std::ptrdiff_t(p.m.size());
                if (n == 0) {
                    CHECK_THAT(v.begin() == v.end() && v.cbegin() == v.cend() && v.rbegin() == v.rend(), "iterators of an empty vector differ");
                    break;
                }
                const auto a = std::ptrdiff_t(src.below(uint64_t(n))), b = std::ptrdiff_t(src.below(uint64_t(n) + 1));
                pbt::log("iterators at {} and {} of {}", a, b, n);
                auto test = [&](auto begin, auto end, auto index, const char* name) {
                    // index(i): the address of element i of this sequence
                    CHECK_THAT(end - begin == n, "{}: end - begin is {}, expected {}", name, end - begin, n);
                    auto x = begin + a;
                    auto y = begin + b;
                    CHECK_THAT(&*x == index(a), "{}: begin + {} addresses the wrong element", name, a);
                    CHECK_THAT(&*(a + begin) == index(a), "{}: {} + begin addresses the wrong element", name, a);
                    CHECK_THAT(&*(end - (n - a)) == index(a), "{}: end - {} addresses the wrong element", name, n - a);
                    CHECK_THAT(x.operator->() == index(a), "{}: -> at {} addresses the wrong element", name, a);
                    CHECK_THAT(&begin[a] == index(a), "{}: begin[{}] addresses the wrong element", name, a);
                    if (b < n) CHECK_THAT(&x[b - a] == index(b), "{}: it[{}] at {} addresses the wrong element", name, b - a, a);
                    CHECK_THAT(y - x == b - a && x - y == a - b, "{}: distance of {} and {} is {}", name, a, b, y - x);
                    CHECK_THAT((b - a) + x == y && x + (b - a) == y && y - (b - a) == x, "{}: offset {} from the position {}", name, b - a, a);
                    CHECK_THAT((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) &&
                                 (x > y) == (a > b) && (x >= y) == (a >= b),
                               "{}: comparison of the positions {} and {}", name, a, b);
                    CHECK_THAT((x <=> y) == (a <=> b), "{}: <=> of the positions {} and {}", name, a, b);
                    auto z = x;
                    CHECK_THAT((z += b - a) == y && z == y, "{}: += {} at {}", name, b - a, a);
                    CHECK_THAT((z -= b - a) == x && z == x, "{}: -= {} at {}", name, b - a, b);
                    auto old = z++;
                    CHECK_THAT(old == x && z - x == 1, "{}: it++ at {}", name, a);
                    old = z--;
                    CHECK_THAT(old - x == 1 && z == x, "{}: it-- at {}", name, a + 1);
                    CHECK_THAT(&(++z) == &z && z - x == 1, "{}: ++it at {}", name, a);
                    CHECK_THAT(&(--z) == &z && z == x, "{}: --it at {}", name, a + 1);
                    auto w = std::move(z);
                    CHECK_THAT(w == x, "{}: a moved iterator points elsewhere", name);
                    decltype(w) d;
                    d = w;
                    CHECK_THAT(d == x && &*d == index(a), "{}: an assigned iterator points elsewhere", name);
                    decltype(w) e;
                    e = std::move(d);
                    CHECK_THAT(e == x, "{}: a move-assigned iterator points elsewhere", name);
                };
                auto fwd = [&](std::ptrdiff_t i) -> const T* { return std::as_const(v).data() + i; };
                auto bwd = [&](std::ptrdiff_t i) -> const T* { return std::as_const(v).data() + (n - 1 - i); };
                const auto& cv = v;
                switch (src.below(6)) {
                    case 0: test(v.begin(), v.end(), fwd, "iterator"); break;
                    case 1: test(cv.begin(), cv.end(), fwd, "const begin()"); break;
                    case 2: test(v.cbegin(), v.cend(), fwd, "cbegin()"); break;
                    case 3: test(v.rbegin(), v.rend(), bwd, "rbegin()"); break;
                    case 4: test(cv.rbegin(), cv.rend(), bwd, "const rbegin()"); break;
                    default: test(cv.crbegin(), cv.crend(), bwd, "crbegin()"); break;
                }
                typename SV::const_iterator ci = v.begin() + a;
                CHECK_THAT(&*ci == fwd(a) && ci == v.cbegin() + a, "a converted iterator addresses the wrong element");
                CHECK_THAT(v.cend() - v.begin() == n, "distance between const and mutable iterators");
                CHECK_THAT(std::to_address(v.begin() + b) == v.data() + b, "to_address at {}", b);
                ++moved;
                break;
            }
            case 2: {  // comparisons
                auto& a = P[src.below(P.size())];
                auto& b = P[src.below(P.size())];
                pbt::log("comparison of {} and {} elements", a.m.size(), b.m.size());
                CHECK_THAT((a.s == b.s) == (a.m == b.m), "== is {}", a.s == b.s);
                CHECK_THAT((a.s != b.s) == (a.m != b.m), "!= is {}", a.s != b.s);
                if constexpr (std::is_same_v<T, Less> || std::is_same_v<T, double>) {
                    CHECK_THAT((a.s < b.s) == (a.m < b.m), "< is {}", a.s < b.s);
                    CHECK_THAT((a.s > b.s) == (a.m > b.m), "> is {}", a.s > b.s);
                    CHECK_THAT((a.s <= b.s) == (a.m <= b.m), "<= is {}", a.s <= b.s);
                    CHECK_THAT((a.s >= b.s) == (a.m >= b.m), ">= is {}", a.s >= b.s);
                } else {
                    const auto w = a.m <=> b.m;
                    CHECK_THAT((a.s < b.s) == (w < 0) && (a.s > b.s) == (w > 0) && (a.s <= b.s) == (w <= 0) && (a.s >= b.s) == (w >= 0),
                               "an ordering operator differs from std::vector");
                    CHECK_THAT((a.s <=> b.s) == w, "<=> differs from std::vector");
                }
                ++compared;
                break;
            }
            case 3: {  // algorithms
                auto& p = P[src.below(P.size())];
                const auto n = std::ptrdiff_t(p.m.size());
                const auto a = std::ptrdiff_t(src.below(uint64_t(n) + 1));
                const auto b = a + std::ptrdiff_t(src.below(uint64_t(n - a) + 1));
                const size_t way = src.below(14);
                const T x = element<T>(src);
                pbt::log("algorithm {} on [{},{}) of {}", way, a, b, n);
                auto both = [&](auto f) {
                    f(p.s, p.s.begin() + a, p.s.begin() + b);
                    f(p.m, p.m.begin() + a, p.m.begin() + b);
                };
                auto lt = [](const T& l, const T& r) { return l < r; };
                bool nan = false;
                if constexpr (std::is_same_v<T, double>) {
                    for (auto& e : p.m) nan = nan || e != e;
                    nan = nan || x != x;
                }
                std::ptrdiff_t r1 = 0, r2 = 0;
                auto res = [&](auto f) {
                    r1 = f(p.s, p.s.begin() + a, p.s.begin() + b) - p.s.begin();
                    r2 = f(p.m, p.m.begin() + a, p.m.begin() + b) - p.m.begin();
                };
                switch (way) {
                    case 0:
                        if (!nan) both([&](auto&, auto f, auto l) { std::stable_sort(f, l, lt); });
                        break;
                    case 1: both([&](auto&, auto f, auto l) { std::reverse(f, l); }); break;
                    case 2: {
                        const auto mid = std::ptrdiff_t(src.below(uint64_t(b - a) + 1));
                        res([&](auto&, auto f, auto l) { return std::rotate(f, f + mid, l); });
                        break;
                    }
                    case 3: res([&](auto& c, auto f, auto l) {
                            auto e = std::unique(f, l);
                            std::fill(e, l, x);
                            return e;
                        });
                        break;
                    case 4: res([&](auto&, auto f, auto l) { return std::find(f, l, x); }); break;
                    case 5: res([&](auto&, auto f, auto l) { return std::stable_partition(f, l, [&](const T& e) { return e < x; }); }); break;
                    case 6: res([&](auto& c, auto f, auto l) { return std::copy_backward(f, l, c.end()); }); break;
                    case 7:
                        res([&](auto&, auto f, auto l) {
                            auto e = std::remove(f, l, x);
                            std::fill(e, l, x);
                            return e;
                        });
                        break;
                    case 8:
                        if (!nan) {
                            both([&](auto&, auto f, auto l) { std::stable_sort(f, l, lt); });
                            res([&](auto&, auto f, auto l) { return std::lower_bound(f, l, x, lt); });
                        }
                        break;
                    case 9: both([&](auto&, auto f, auto l) { std::fill(f, l, x); }); break;
                    case 10:
                        r1 = std::ptrdiff_t(std::count(p.s.rbegin(), p.s.rend(), x));
                        r2 = std::ptrdiff_t(std::count(p.m.rbegin(), p.m.rend(), x));
                        break;
                    case 11:
                        if (!nan) {
                            std::ranges::stable_sort(p.s, lt);
                            std::ranges::stable_sort(p.m, lt);
                        }
                        break;
                    case 12: {
                        std::vector<T> one(p.s.rbegin(), p.s.rend()), two(p.m.rbegin(), p.m.rend());
                        r1 = std::ptrdiff_t(one.size());
                        r2 = std::ptrdiff_t(two.size());
                        for (size_t i = 0; i < two.size(); ++i) CHECK_THAT(same_elem(one[i], two[i]), "reverse copy, element {}", i);
                        break;
                    }
                    default:
                        if (!nan) {
                            both([&](auto&, auto f, auto l) {
                                std::make_heap(f, l, lt);
                                std::sort_heap(f, l, lt);
                            });
                        }
                }
                CHECK_THAT(r1 == r2, "algorithm {} returned position {}, expected {}", way, r1, r2);
                CHECK_THAT(same(p), "algorithm {} gives another sequence than over std::vector", way);
                ++moved;
                break;
            }
            default: {  // formatting
                if constexpr (!std::is_same_v<T, Less>) {
                    auto& p = P[src.below(P.size())];
                    std::vector<std::string> texts;
                    std::string want;
                    if constexpr (std::is_same_v<T, stdb::memory::string>) {
                        std::vector<std::string> o;
                        for (auto& e : p.m) o.push_back(pod(e));
                        want = fmt::format("{}", o);
                    } else {
                        want = fmt::format("{}", p.m);
                    }
                    pbt::log("format {} elements", p.m.size());
                    CHECK_THAT(fmt::format("{}", p.s) == want, "formatted as {}, expected {}", fmt::format("{}", p.s), want);
                    CHECK_THAT(fmt::format("{}", std::as_const(p.s)) == want, "formatted as {}, expected {}", fmt::format("{}", std::as_const(p.s)), want);
                    if constexpr (std::is_same_v<T, int>) {
                        CHECK_THAT(fmt::format("{::03}", p.s) == fmt::format("{::03}", p.m), "formatted with a spec");
                        CHECK_THAT(fmt::format("{}", fmt::join(p.s, "-")) == fmt::format("{}", fmt::join(p.m, "-")), "joined");
                        stdb_vector<stdb_vector<int>> nn;
                        nn.push_back(p.s);
                        nn.push_back(p.s);
                        std::vector<std::vector<int>> mm(2, p.m);
                        CHECK_THAT(fmt::format("{}", nn) == fmt::format("{}", mm), "nested formatting");
                    }
                }
            }
        }
    }
    if (moved >= 2 && compared >= 1) pbt::nontrivial();
}
constexpr Range kSetup{8, 4, 40};
template <class T>
struct Plain {
    using T_ = T;
};
void run(size_t k, Source& src) {
    with_kind_of<Plain<int>, Plain<double>, Plain<char>, Plain<std::string>, Plain<stdb::memory::string>, Plain<bool>, Plain<Less>, Plain<uint8_t>>(
      k, [&](auto kind) { v07<typename decltype(kind)::T_>(src); });
}
#endif

}  // namespace

// the element kinds are spread over PBT_PARTS translation units of this source
void PBT_CAT(run_part, PBT_PART)(size_t k, Source& src) { run(k, src); }

#if PBT_PART == 0
void run_part1(size_t, Source&);
void run_part2(size_t, Source&);
namespace {
void prop(Source& src) {
    const size_t k = src.below(kSetup.kinds);
    src.set_len(kSetup.from, kSetup.to);
    switch (k % PBT_PARTS) {
#if PBT_PARTS > 1
        case 1: run_part1(k, src); break;
        case 2: run_part2(k, src); break;
#endif
        default: run(k, src); break;
    }
}
}  // namespace

int main(int argc, char** argv) { return pbt::engine_main(argc, argv, {{PBT_STR(PBT_PROP), prop, true}}); }
#endif
