// L01: rounding helpers.  L02: size literals.
#include <utility>

#include "align/align.hpp"
#include "memory.hpp"
#include "pbt.hpp"

using pbt::Source;
using u128 = unsigned __int128;
#ifndef PBT_SEED
#define PBT_SEED 1
#endif

namespace {
using namespace stdb::memory;

constexpr u128 kMax = ~static_cast<uint64_t>(0);
// least multiple by definition, in wider arithmetic
constexpr u128 least_multiple(uint64_t n, uint64_t m) {
    u128 q = n / m;
    return q * m < n ? (q + 1) * m : q * m;
}

template <size_t... I>
uint64_t align_to(unsigned e, uint64_t n, std::index_sequence<I...>) {
    using F = uint64_t (*)(uint64_t);
    static constexpr F table[] = {+[](uint64_t x) -> uint64_t { return align::AlignUpTo<(1ULL << (I + 3))>(x); }...};
    return table[e - 3](n);
}

uint64_t gen_n(Source& s, uint64_t m) {
    switch (s.below(6)) {
        case 0: return s.below(300);
        case 1: {  // around a multiple
            uint64_t k = s.u64() >> s.below(64);
            uint64_t q = m == 1 ? k : k % (static_cast<uint64_t>(kMax) / m + 1);
            uint64_t b = q * m;
            uint64_t d = s.below(5);
            return d < 2 ? b - std::min<uint64_t>(b, d) : (b <= kMax - (d - 2) ? b + d - 2 : b);
        }
        case 2: return static_cast<uint64_t>(kMax) - s.below(3 * std::min<uint64_t>(m, 1ULL << 40U) + 3);
        case 3: {
            uint64_t p = 1ULL << s.below(64);
            return p - 1 + s.below(3);
        }
        default: return s.u64() >> s.below(64);
    }
}

// the same helper in constant evaluation
constexpr uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30U)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27U)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31U);
}
constexpr int kConst = 400;
struct Al {
    uint64_t n, r8, r64, r4096, r1g;
};
constexpr auto make_const_align() {
    std::array<Al, kConst> a{};
    for (int i = 0; i < kConst; ++i) {
        uint64_t r = mix(static_cast<uint64_t>(i) * 77 + PBT_SEED);
        uint64_t n = (r >> (r % 63)) & ((1ULL << 63U) - 1);
        a[static_cast<size_t>(i)] = {n, align::AlignUpTo<8>(n), align::AlignUpTo<64>(n), align::AlignUpTo<4096>(n), align::AlignUpTo<(1ULL << 30U)>(n)};
    }
    return a;
}
constexpr auto kConstAlign = make_const_align();

void prop_l01(Source& s) {
    s.set_len(10, 80);
    uint64_t hard = 0;
    {
        auto& c = kConstAlign[s.below(kConst)];
        CHECK_THAT(c.r8 == least_multiple(c.n, 8) && c.r64 == least_multiple(c.n, 64) && c.r4096 == least_multiple(c.n, 4096) && c.r1g == least_multiple(c.n, 1ULL << 30U),
                   "constant evaluation: rounding {} up is wrong", c.n);
    }
    while (s.next_op()) {
        if (s.coin()) {
            auto e = static_cast<unsigned>(3 + s.below(61));
            uint64_t m = 1ULL << e;
            uint64_t n = gen_n(s, m);
            u128 want = least_multiple(n, m);
            if (want > kMax) continue;
            uint64_t got = align_to(e, n, std::make_index_sequence<61>());
            pbt::log("AlignUpTo<2^{}>({}) = {}", e, n, got);
            CHECK_THAT(got == static_cast<uint64_t>(want), "AlignUpTo<2^{}>({}) is {}, not {}", e, n, got, static_cast<uint64_t>(want));
            if (n % m <= 1 || n % m == m - 1) ++hard;
        } else {
            uint64_t m = 1;
            switch (s.below(5)) {
                case 0: m = 1ULL << s.below(64); break;
                case 1: m = 1 + s.below(200); break;
                case 2: m = s.u64() >> s.below(64); break;
                case 3: m = static_cast<uint64_t>(kMax) - s.below(100); break;
                default: m = (1ULL << s.range(1, 63)) + s.below(3) - 1; break;
            }
            if (m == 0) m = 1;
            uint64_t n = gen_n(s, m);
            u128 want = least_multiple(n, m);
            if (want > kMax) continue;
            uint64_t got = align::AlignUp(n, m);
            pbt::log("AlignUp({}, {}) = {}", n, m, got);
            CHECK_THAT(got == static_cast<uint64_t>(want), "AlignUp({}, {}) is {}, not {}", n, m, got, static_cast<uint64_t>(want));
            if (n % m <= 1 || n % m == m - 1) ++hard;
        }
    }
    if (hard >= 3) pbt::nontrivial();
}

// ---- L02
using namespace stdb::memory::literals;
struct Tok {
    std::array<char, 48> c{};
};
constexpr Tok token(uint64_t v, unsigned zeros = 0) {
    Tok t{};
    char tmp[24]{};
    int n = 0;
    do {
        tmp[n++] = static_cast<char>('0' + v % 10);
        v /= 10;
    } while (v != 0);
    for (unsigned i = 0; i < zeros; ++i) t.c[i] = '0';
    for (int i = 0; i < n; ++i) t.c[zeros + static_cast<size_t>(i)] = tmp[n - 1 - i];
    return t;
}
constexpr uint64_t const_value(int i, int shift) {
    uint64_t r = mix(static_cast<uint64_t>(i) * 31 + PBT_SEED * 7919ULL);
    uint64_t max = static_cast<uint64_t>(kMax) >> static_cast<unsigned>(shift);
    uint64_t v = r >> (mix(r) % 64);
    if (i == 0) v = max;
    if (i == 1) v = 0;
    return v > max ? v % (max + 1) : v;
}
struct Lit {
    uint64_t k, m, g;
};
constexpr auto make_const_lits() {
    std::array<Lit, kConst> a{};
    for (int i = 0; i < kConst; ++i) {
        unsigned z = i % 3 == 2 ? static_cast<unsigned>(mix(static_cast<uint64_t>(i) + PBT_SEED) % 6) : 0;
        a[static_cast<size_t>(i)] = {operator""_KB(token(const_value(i, 10), z).c.data()), operator""_MB(token(const_value(i, 20), z).c.data()),
                                     operator""_GB(token(const_value(i, 30), z).c.data())};
    }
    return a;
}
constexpr auto kConstLits = make_const_lits();

struct Written {
    uint64_t v, want;
};
constexpr Written kWritten[] = {
  {0_KB, 0}, {1_KB, 1024}, {9_KB, 9 * 1024}, {10_KB, 10 * 1024}, {1023_KB, 1023 * 1024}, {4194304_KB, 1ULL << 32U},
  {18014398509481983_KB, 18014398509481983ULL << 10U}, {0_MB, 0}, {1_MB, 1ULL << 20U}, {99_MB, 99ULL << 20U}, {4097_MB, 4097ULL << 20U},
  {17592186044415_MB, 17592186044415ULL << 20U}, {0_GB, 0}, {1_GB, 1ULL << 30U}, {5_GB, 5ULL << 30U}, {1000_GB, 1000ULL << 30U},
  {17179869183_GB, 17179869183ULL << 30U}, {1234567_GB, 1234567ULL << 30U}, {987654321_MB, 987654321ULL << 20U},
  {007_KB, 7ULL << 10U}, {0012_MB, 12ULL << 20U}, {00000000000000000000000017_GB, 17ULL << 30U}, {00_KB, 0},
};

void prop_l02(Source& s) {
    auto i = static_cast<int>(s.below(kConst));
    auto& c = kConstLits[static_cast<size_t>(i)];
    CHECK_THAT(c.k == const_value(i, 10) << 10U, "constant evaluation: {}_KB is {}", const_value(i, 10), c.k);
    CHECK_THAT(c.m == const_value(i, 20) << 20U, "constant evaluation: {}_MB is {}", const_value(i, 20), c.m);
    CHECK_THAT(c.g == const_value(i, 30) << 30U, "constant evaluation: {}_GB is {}", const_value(i, 30), c.g);
    auto& w = kWritten[s.below(sizeof kWritten / sizeof kWritten[0])];
    CHECK_THAT(w.v == w.want, "a literal in the source is {} instead of {}", w.v, w.want);
    s.set_len(10, 80);
    bool big = false;
    while (s.next_op()) {
        auto u = static_cast<unsigned>(s.below(3));
        unsigned shift = 10 * (u + 1);
        uint64_t max = static_cast<uint64_t>(kMax) >> shift;
        uint64_t v = 0;
        switch (s.below(4)) {
            case 0: v = s.below(2000); break;
            case 1: v = max - s.below(3); break;
            case 2: {  // around powers of ten: the number of digits changes
                v = 1;
                for (uint64_t k = s.below(17); k > 0; --k) v *= 10;
                v = v - 1 + s.below(3);
                break;
            }
            default: v = s.u64() >> s.below(64); break;
        }
        if (v > max) v %= max + 1;
        auto t = token(v, s.chance(1, 3) ? static_cast<unsigned>(1 + s.below(24)) : 0);
        uint64_t got = u == 0 ? operator""_KB(t.c.data()) : u == 1 ? operator""_MB(t.c.data()) : operator""_GB(t.c.data());
        pbt::log("{}{} = {}", t.c.data(), u == 0 ? "_KB" : u == 1 ? "_MB" : "_GB", got);
        CHECK_THAT(got == v << shift, "{} with unit 2^{} is {}", v, shift, got);
        big = big || v >= 100000;
    }
    if (big) pbt::nontrivial();
}
}  // namespace

int main(int argc, char** argv) {
    return pbt::engine_main(argc, argv, {{"L01", prop_l01, true}, {"L02", prop_l02, true}});
}
