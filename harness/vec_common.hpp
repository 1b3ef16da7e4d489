// Element types, source ranges and edit operations shared by the vector properties.
// The model of a vector is a std::vector<int>: every element type can be made from an int and read back as one.
#pragma once
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <span>
#include <string>
#include <vector>

#include "container/stdb_vector.hpp"
#include "pbt.hpp"
#include "string/string.hpp"

namespace vh {

using pbt::Source;
using stdb::container::Safety;
using stdb::container::stdb_vector;

// ---- registry of live elements ---------------------------------------------------------------------------------
struct Registry {
    std::map<const void*, uint64_t> live;  // address -> serial number of the element constructed there
    uint64_t serial = 0;
    uint64_t copies = 0, moves = 0;

    void born(const void* p) {
        auto [it, fresh] = live.emplace(p, ++serial);
        CHECK_THAT(fresh, "an element was constructed on top of a live one");
    }
    void dies(const void* p) { CHECK_THAT(live.erase(p) == 1, "an element was destroyed that does not exist (destroyed twice or never constructed)"); }
    void used(const void* p, const char* how) const { CHECK_THAT(live.count(p) == 1, "{} an object outside its lifetime", how); }
};
inline Registry* g_reg = nullptr;

// element constructions that can fail: the g_throw_in-th one does
inline uint64_t g_throw_in = 0;
inline uint64_t g_thrown = 0;
struct ElementError {};
inline void tick() {
    if (g_throw_in != 0 && --g_throw_in == 0) {
        ++g_thrown;
        throw ElementError();
    }
}

// an element that registers its life; Keep: the moved-from object keeps its own resource
template <bool Copy, bool Move, bool Keep>
class Tracked
{
    int* p_;

   public:
    Tracked() : p_(nullptr) {
        tick();
        p_ = new int(0);
        g_reg->born(this);
    }
    Tracked(int v) : p_(nullptr) {  // NOLINT
        tick();
        p_ = new int(v);
        g_reg->born(this);
    }
    Tracked(const Tracked& o)
        requires Copy
        : p_(nullptr) {
        g_reg->used(&o, "copied from");
        tick();
        ++g_reg->copies;
        p_ = new int(o.get());
        g_reg->born(this);
    }
    Tracked(Tracked&& o) noexcept
        requires Move
    {
        g_reg->used(&o, "moved from");
        ++g_reg->moves;
        if (Keep) {
            p_ = new int(o.get());
            if (o.p_ != nullptr) *o.p_ = -77;
        } else {
            p_ = std::exchange(o.p_, nullptr);
        }
        g_reg->born(this);
    }
    Tracked(Tracked&&)
        requires(!Move)
    = delete;
    auto operator=(const Tracked& o) -> Tracked&
        requires Copy
    {
        g_reg->used(this, "assigned to");
        g_reg->used(&o, "assigned from");
        if (p_ == nullptr) p_ = new int(0);
        *p_ = o.get();
        return *this;
    }
    auto operator=(Tracked&& o) noexcept -> Tracked&
        requires Move
    {
        g_reg->used(this, "assigned to");
        g_reg->used(&o, "move-assigned from");
        std::swap(p_, o.p_);
        return *this;
    }
    ~Tracked() {
        g_reg->dies(this);
        delete p_;
        p_ = reinterpret_cast<int*>(uintptr_t(16));
    }
    [[nodiscard]] auto get() const -> int {
        g_reg->used(this, "read");
        return p_ == nullptr ? -77 : *p_;
    }
    [[nodiscard]] auto part() const -> const int& { return *p_; }
    auto operator==(const Tracked& o) const -> bool { return get() == o.get(); }
};

// owns its payload, moving it bytewise is fine (stdb::Relocatable), copying it is not
class Reloc
{
    int* p_;
    static void add(const int* p) { g_reg->born(p); }

   public:
    Reloc() : p_(new int(0)) { add(p_); }
    Reloc(int v) : p_(new int(v)) { add(p_); }  // NOLINT
    Reloc(const Reloc& o) : p_(new int(o.get())) { add(p_); }
    Reloc(Reloc&& o) noexcept : p_(new int(0)) {
        add(p_);
        std::swap(p_, o.p_);
    }
    auto operator=(const Reloc& o) -> Reloc& {
        g_reg->used(p_, "assigned to");
        *p_ = o.get();
        return *this;
    }
    auto operator=(Reloc&& o) noexcept -> Reloc& {
        g_reg->used(p_, "assigned to");
        std::swap(p_, o.p_);
        return *this;
    }
    ~Reloc() {
        g_reg->dies(p_);
        delete p_;
    }
    [[nodiscard]] auto get() const -> int {
        g_reg->used(p_, "read");
        return *p_;
    }
    [[nodiscard]] auto part() const -> const int& { return *p_; }
    auto operator==(const Reloc& o) const -> bool { return get() == o.get(); }
};

// trivially movable, but copying is more than copying the bytes
struct TrivMove {
    int v = 0;
    int generation = 0;  // copies are one generation further
    TrivMove() = default;
    TrivMove(int x) : v(x) {}  // NOLINT
    TrivMove(const TrivMove& o) : v(o.v), generation(o.generation + 1) {}
    TrivMove(TrivMove&&) = default;
    auto operator=(const TrivMove& o) -> TrivMove& {
        v = o.v;
        generation = o.generation + 1;
        return *this;
    }
    auto operator=(TrivMove&&) -> TrivMove& = default;
    ~TrivMove() = default;
    auto operator==(const TrivMove& o) const -> bool { return v == o.v; }
};

struct Zeroed {  // marked ZeroInitable
    long v;
    Zeroed() : v(0) {}
    Zeroed(int x) : v(x) {}  // NOLINT
    auto operator==(const Zeroed&) const -> bool = default;
};

struct Wide {
    double a = 0;
    const int b = 0;  // not assignable
    char c[5] = {};
    Wide() = default;
    Wide(int x) : a(x), b(x) {}  // NOLINT
    auto operator==(const Wide& o) const -> bool { return a == o.a && b == o.b; }
};

struct One {  // one byte, not convertible to an integer
    uint8_t v = 0;
    One() = default;
    One(int x) : v(uint8_t(x)) {}  // NOLINT
    auto operator==(const One&) const -> bool = default;
};

// trivial, but null is not all zero bits
struct Host {
    int a, b;
};
struct Holder {
    int Host::*p;
    int v;
    auto operator==(const Holder& o) const -> bool { return p == o.p && v == o.v; }
};
enum class Letter : unsigned char {};

struct alignas(64) Over {
    long v = 0;
    long w = 0;
    Over() = default;
    Over(int x) : v(x), w(~long(x)) {}  // NOLINT
    auto operator==(const Over& o) const -> bool { return v == o.v; }
};
}  // namespace vh

template <>
struct stdb::Relocatable<vh::Reloc> : std::true_type
{};
template <>
struct stdb::ZeroInitable<vh::Zeroed> : std::true_type
{};

namespace vh {

enum class Tr { scalar, value, tracked };

template <class T_, bool Copy = true, bool Move = true, Tr Tk = Tr::value>
struct KindBase {
    using T = T_;
    static constexpr bool copy = Copy, move = Move;
    static constexpr bool conv = true;                      // constructible from an int
    static constexpr bool tracked = Tk == Tr::tracked;      // registered in g_reg
    static constexpr bool by_address = Tk == Tr::tracked;   // ... under its address
    static constexpr bool trivial = std::is_trivially_copyable_v<T_>;
    static auto mk(int v) -> T { return T(v); }
};
struct KInt : KindBase<int, true, true, Tr::scalar> {
    static constexpr const char* name = "int";
    static auto val(const int& x) -> int { return x; }
};
struct KByte : KindBase<uint8_t, true, true, Tr::scalar> {
    static constexpr const char* name = "uint8_t";
    static auto val(const uint8_t& x) -> int { return x; }
};
struct KShort : KindBase<int16_t, true, true, Tr::scalar> {
    static constexpr const char* name = "int16_t";
    static auto val(const int16_t& x) -> int { return x; }
};
struct KDouble : KindBase<double, true, true, Tr::scalar> {
    static constexpr const char* name = "double";
    static auto val(const double& x) -> int { return int(x); }
};
struct KWide : KindBase<Wide> {
    static constexpr const char* name = "Wide";
    static auto val(const Wide& x) -> int { return x.a == x.b ? x.b : -1000; }
};
struct KOne : KindBase<One> {
    static constexpr const char* name = "One";
    static auto val(const One& x) -> int { return x.v; }
};
struct KOver : KindBase<Over> {
    static constexpr const char* name = "Over";
    static auto val(const Over& x) -> int {
        CHECK_THAT(reinterpret_cast<uintptr_t>(&x) % alignof(Over) == 0, "an element lies at {}, which is not aligned to {}", (const void*)&x, alignof(Over));
        return x.w == ~x.v || (x.v == 0 && x.w == 0) ? int(x.v) : -1000;
    }
};
struct KHolder : KindBase<Holder> {
    static constexpr const char* name = "Holder";
    static constexpr bool conv = false;
    static auto mk(int v) -> T { return v == 0 ? Holder{} : Holder{&Host::b, v}; }
    static auto val(const Holder& x) -> int { return (x.v == 0) == (x.p == nullptr) ? x.v : -1000; }
};
struct KLetter : KindBase<Letter, true, true, Tr::scalar> {
    static constexpr const char* name = "Letter";
    static constexpr bool conv = false;
    static auto val(const Letter& x) -> int { return int(x); }
};
struct KZeroed : KindBase<Zeroed> {
    static constexpr const char* name = "Zeroed";
    static auto val(const Zeroed& x) -> int { return int(x.v); }
};
struct KTrivMove : KindBase<TrivMove> {
    static constexpr const char* name = "TrivMove";
    static auto val(const TrivMove& x) -> int { return x.v; }
};
template <class T, bool C, bool M>
struct KTr : KindBase<T, C, M, Tr::tracked> {
    static auto val(const T& x) -> int { return x.get(); }
};
struct KTracked : KTr<Tracked<true, true, false>, true, true> {
    static constexpr const char* name = "Tracked";
};
struct KKeeper : KTr<Tracked<true, true, true>, true, true> {
    static constexpr const char* name = "Keeper";
};
struct KMoveOnly : KTr<Tracked<false, true, true>, false, true> {
    static constexpr const char* name = "MoveOnly";
};
struct KCopyOnly : KTr<Tracked<true, false, false>, true, false> {
    static constexpr const char* name = "CopyOnly";
};
struct KReloc : KTr<Reloc, true, true> {
    static constexpr const char* name = "Reloc";
    static constexpr bool by_address = false;
};
template <class S>
struct KStr : KindBase<S> {
    static constexpr bool conv = false;
    static auto mk(int v) -> S {
        if (v == 0) return S();
        auto t = std::to_string(v);
        if (v % 3 == 1) t = std::string(40, '0') + t;
        if (v % 7 == 2) t = std::string(300, '0') + t;
        return S(t.data(), t.size());
    }
    static auto val(const S& x) -> int {
        if (x.size() == 0) return 0;
        return atoi(std::string(x.data(), x.size()).c_str());
    }
};
struct KString : KStr<stdb::memory::string> {
    static constexpr const char* name = "memory::string";
};
struct KStdString : KStr<std::string> {
    static constexpr const char* name = "std::string";
};
struct KUnique : KindBase<std::unique_ptr<int>, false, true> {
    static constexpr const char* name = "unique_ptr";
    static constexpr bool conv = false;
    static auto mk(int v) -> T { return v == 0 ? nullptr : std::make_unique<int>(v); }
    static auto val(const T& x) -> int { return x ? *x : 0; }
};

#ifndef PBT_PARTS
#define PBT_PARTS 1
#define PBT_PART 0
#endif
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
struct Range {  // kinds to choose from, operations of a case
    size_t kinds, from, to;
};
// calls f with the k-th kind; only those of this translation unit are there
template <class... Ks, class F>
void with_kind_of(size_t k, F&& f) {
    [&]<size_t... I>(std::index_sequence<I...>) {
        (
          [&] {
              if constexpr (I % PBT_PARTS == PBT_PART) {
                  if (k == I) f(Ks{});
              }
          }(),
          ...);
    }(std::make_index_sequence<sizeof...(Ks)>());
}
template <class F>
void with_kind(size_t k, F&& f) {
    with_kind_of<KInt, KTracked, KString, KMoveOnly, KCopyOnly, KReloc, KKeeper, KByte, KWide, KOver, KStdString, KUnique, KTrivMove, KZeroed, KOne, KDouble, KHolder, KLetter, KShort>(
      k, std::forward<F>(f));
}
constexpr uint64_t kKinds = 19;

using Model = std::vector<int>;
inline auto show(const Model& m) -> std::string {
    std::string r = fmt::format("[{}]", m.size());
    for (size_t i = 0; i < m.size() && i < 12; ++i) r += fmt::format("{}{}", i == 0 ? "" : ",", m[i]);
    if (m.size() > 12) r += ",...";
    return r;
}

// exactly n elements in their own heap block
template <class K>
struct Buf {
    using T = typename K::T;
    T* p;
    size_t n = 0;
    explicit Buf(const Model& m) : p(static_cast<T*>(::operator new(m.size() * sizeof(T), std::align_val_t(alignof(T))))) {
        for (int v : m) {
            if constexpr (K::conv) {
                new ((void*)(p + n)) T(v);
            } else {
                new ((void*)(p + n)) T(K::mk(v));
            }
            ++n;
        }
    }
    Buf(const Buf&) = delete;
    ~Buf() {
        std::destroy(p, p + n);
        ::operator delete(p, std::align_val_t(alignof(T)));
    }
};

// one element, so that kinds which can not be moved can be passed around by reference
template <class K>
struct Elem {
    Buf<K> b;
    explicit Elem(int v) : b(Model{v}) {}
    auto ref() -> typename K::T& { return *b.p; }
    auto cref() const -> const typename K::T& { return *b.p; }
};

// can be read only once
template <class T>
struct OneShot {
    struct State {
        const T* p;
        size_t i = 0, n;
    };
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using reference = const T&;
    using pointer = const T*;
    using iterator_category = std::input_iterator_tag;
    using iterator_concept = std::input_iterator_tag;
    State* s = nullptr;
    auto operator*() const -> const T& {
        CHECK_THAT(s->i < s->n, "a source range was read beyond its end");
        return s->p[s->i];
    }
    auto operator++() -> OneShot& {
        ++s->i;
        return *this;
    }
    auto operator++(int) -> OneShot {
        ++s->i;
        return *this;
    }
    auto operator==(const OneShot& o) const -> bool {
        auto at_end = [](const State* x) { return x == nullptr || x->i == x->n; };
        return at_end(s) == at_end(o.s);
    }
};

// values v as a source range of some iterator category: f(name, first, last)
template <class K, class F>
void with_range(Source& src, const Model& v, F&& f) {
    using T = typename K::T;
    const size_t way = src.below(13);
    if constexpr (K::copy) {
        if (way == 3) {
            std::list<T> l;
            if constexpr (K::conv) {
                for (int x : v) l.emplace_back(x);
            } else {
                for (int x : v) l.push_back(K::mk(x));
            }
            return f("list", l.begin(), l.end());
        }
        if (way == 4) {
            std::deque<T> d;
            const size_t lead = src.below(130);  // so that ranges lie across its chunks
            if constexpr (K::move) {
                for (size_t i = 0; i < lead; ++i) d.push_back(K::mk(1));
                for (int x : v) d.push_back(K::mk(x));
                if (src.coin()) return f("deque", d.cbegin() + std::ptrdiff_t(lead), d.cend());
                return f("deque", d.begin() + std::ptrdiff_t(lead), d.end());
            } else {
                for (int x : v) d.emplace_back(x);
                return f("deque", d.begin(), d.end());
            }
        }
        if (way == 5) {
            Model r(v.rbegin(), v.rend());
            Buf<K> b(r);
            return f("reverse", std::reverse_iterator<const T*>(b.p + b.n), std::reverse_iterator<const T*>(b.p));
        }
        if (way == 6 || way == 7) {
            Buf<K> b(v);
            stdb_vector<T> o(b.p, b.p + b.n);
            if (way == 6) return f("stdb_vector iterator", o.begin(), o.end());
            return f("stdb_vector const_iterator", o.cbegin(), o.cend());
        }
        if (way == 8) {
            if constexpr (K::move) {
                std::vector<T> o;
                for (int x : v) o.push_back(K::mk(x));
                return f("std::vector", o.begin(), o.end());
            }
        }
        if (way == 9) {
            Model r(v.rbegin(), v.rend());
            Buf<K> b(r);
            stdb_vector<T> o(b.p, b.p + b.n);
            return f("stdb_vector reverse", o.rbegin(), o.rend());
        }
        if (way == 10) {
            Buf<K> b(v);
            return f("const pointers", const_cast<const T*>(b.p), const_cast<const T*>(b.p + b.n));
        }
        if constexpr (K::conv) {
            if (way == 1) {
                std::vector<long> o(v.begin(), v.end());
                return f("converting long", o.begin(), o.end());
            }
            if (way == 2) {
                auto o = std::make_unique<short[]>(v.size() + 1);
                for (size_t i = 0; i < v.size(); ++i) o[i] = short(v[i]);
                return f("converting short", o.get(), o.get() + v.size());
            }
        }
        if (way == 11) {
            Buf<K> b(v);
            typename OneShot<T>::State st{b.p, 0, b.n};
            return f("input iterators", OneShot<T>{&st}, OneShot<T>{});
        }
        Buf<K> b(v);
        return f("pointers", b.p, b.p + b.n);
    } else {
        Buf<K> b(v);
        return f("move iterators", std::make_move_iterator(b.p), std::make_move_iterator(b.p + b.n));
    }
}

// an initializer_list of up to four elements: f(list)
template <class K, class F>
void with_list(const Model& v, F&& f) {
    using T = typename K::T;
    if constexpr (K::copy) {
        if constexpr (K::conv) {
            if (v.size() == 0) return f(std::initializer_list<T>{});
            if (v.size() == 1) return f({T(v[0])});
            if (v.size() == 2) return f({T(v[0]), T(v[1])});
            if (v.size() == 3) return f({T(v[0]), T(v[1]), T(v[2])});
            return f({T(v[0]), T(v[1]), T(v[2]), T(v[3])});
        } else {
            if (v.size() == 0) return f(std::initializer_list<T>{});
            if (v.size() == 1) return f({K::mk(v[0])});
            if (v.size() == 2) return f({K::mk(v[0]), K::mk(v[1])});
            if (v.size() == 3) return f({K::mk(v[0]), K::mk(v[1]), K::mk(v[2])});
            return f({K::mk(v[0]), K::mk(v[1]), K::mk(v[2]), K::mk(v[3])});
        }
    }
}

inline auto gen_value(Source& src) -> int { return int(src.chance(1, 3) ? src.below(200) : src.below(5)); }
inline auto gen_count(Source& src, size_t room) -> size_t {
    switch (src.weighted({4, 2, 2, 1})) {
        case 0: return src.below(5);
        case 1: return room + src.below(3) - (room > 0 ? src.below(2) : 0);  // around the spare capacity
        case 2: return src.below(20);
        default: return src.below(200);
    }
}
inline auto gen_values(Source& src, size_t room) -> Model {
    Model m(gen_count(src, room));
    const bool same = m.size() > 12;  // few draws for long ranges
    const int a = gen_value(src), b = int(src.below(7));
    for (size_t i = 0; i < m.size(); ++i) m[i] = same ? int((size_t(a) + i * size_t(b)) % 200) : gen_value(src);
    return m;
}

template <class K>
using V = stdb_vector<typename K::T>;

template <class K>
void check(const V<K>& v, const Model& m, const char* after) {
    CHECK_THAT(v.size() == m.size(), "after {}: size {}, expected {}", after, v.size(), m.size());
    CHECK_THAT(v.empty() == m.empty(), "after {}: empty() is {}", after, v.empty());
    CHECK_THAT(v.size() <= v.capacity(), "after {}: size {} capacity {}", after, v.size(), v.capacity());
    size_t i = 0;
    for (auto& x : v) {
        CHECK_THAT(i < m.size(), "after {}: iteration goes beyond {} elements", after, i);
        CHECK_THAT(K::val(x) == m[i], "after {}: element {} of {} is {}, expected {}", after, i, m.size(), K::val(x), m[i]);
        ++i;
    }
    CHECK_THAT(i == m.size(), "after {}: iteration over {} elements of {}", after, i, m.size());
    if (m.empty()) return;
    CHECK_THAT(K::val(v.front()) == m.front() && K::val(v.back()) == m.back(), "after {}: front or back", after);
    const size_t mid = m.size() / 2;
    CHECK_THAT(&v[mid] == v.data() + mid && &v.at(mid) == v.data() + mid && &*(v.begin() + std::ptrdiff_t(mid)) == v.data() + mid,
               "after {}: accessors disagree about element {}", after, mid);
}

// what an edit may do to the elements in front
struct Effect {
    const char* name = "nothing";
    size_t keep = 0;      // that many leading elements are not touched
    bool whole = false;   // replaces the whole content (or may give the buffer away)
    size_t need = 0;      // size afterwards
    bool grows = false;
};

template <class K>
auto make(Source& src, Model& m) -> std::unique_ptr<V<K>> {
    using T = typename K::T;
    std::unique_ptr<V<K>> r;
    Model vals = gen_values(src, 16);
    switch (src.below(6)) {
        case 0: {
            pbt::log("new()");
            vals.clear();
            r = std::make_unique<V<K>>();
            break;
        }
        case 1: {
            pbt::log("new({})", vals.size());
            r = std::make_unique<V<K>>(vals.size());
            vals.assign(vals.size(), 0);
            break;
        }
        case 2: {
            if constexpr (K::copy) {
                Elem<K> e(gen_value(src));
                vals.assign(vals.size(), K::val(e.ref()));
                pbt::log("new({}, {})", vals.size(), K::val(e.ref()));
                r = std::make_unique<V<K>>(vals.size(), e.cref());
                break;
            }
            [[fallthrough]];
        }
        case 3: {
            if constexpr (K::copy) {
                vals.resize(std::min<size_t>(vals.size(), 4));
                with_list<K>(vals, [&](std::initializer_list<T> l) { r = std::make_unique<V<K>>(l); });
                pbt::log("new{{{} values}}", vals.size());
                break;
            }
            [[fallthrough]];
        }
        default: {
            with_range<K>(src, vals, [&](const char* name, auto a, auto b) {
                if constexpr (std::forward_iterator<decltype(a)>) {
                    pbt::log("new(range of {} {})", vals.size(), name);
                    r = std::make_unique<V<K>>(a, b);
                } else {
                    pbt::log("new() and push of {} {}", vals.size(), name);
                    r = std::make_unique<V<K>>();
                    for (; a != b; ++a) r->emplace_back(*a);
                }
            });
        }
    }
    m = vals;
    check<K>(*r, m, "construction");
    return r;
}

// one edit of v, mirrored on m after it succeeded; plan(effect) is called before the edit is carried out
template <class K, class Plan>
auto edit(Source& src, V<K>& v, Model& m, Plan&& plan) -> Effect {
    using T = typename K::T;
    const size_t n = m.size();
    const size_t room = v.capacity() - v.size();
    Effect e;
    e.need = n;
    auto iter = [&](size_t i) { return v.begin() + std::ptrdiff_t(i); };
    auto citer = [&](size_t i) { return v.cbegin() + std::ptrdiff_t(i); };
    auto mit = [&](size_t i) { return m.begin() + std::ptrdiff_t(i); };
    auto set = [&](const char* name, size_t keep, size_t need, bool whole = false) {
        e.name = name;
        e.keep = keep;
        e.need = need;
        e.whole = whole;
        e.grows = need > n;
        plan(e);
    };
    auto at = [&](auto it, size_t want, const char* what) {
        CHECK_THAT(it - v.begin() == std::ptrdiff_t(want), "{} returned position {}, expected {}", what, it - v.begin(), want);
    };
    switch (src.below(34)) {
        case 0:
        case 1: {
            if constexpr (K::copy) {
                Elem<K> x(gen_value(src));
                pbt::log("push_back(const&)");
                set("push_back", n, n + 1);
                v.push_back(x.cref());
                m.push_back(K::val(x.ref()));
                break;
            }
            [[fallthrough]];
        }
        case 2: {
            if constexpr (K::move) {
                const int x = gen_value(src);
                Elem<K> y(x);
                const int z = K::val(y.ref());
                pbt::log("push_back(&&)");
                set("push_back(&&)", n, n + 1);
                v.push_back(std::move(y.ref()));
                m.push_back(z);
                break;
            }
            [[fallthrough]];
        }
        case 3:
        case 4: {
            const int x = gen_value(src);
            Elem<K> y(x);
            const int z = K::val(y.ref());
            pbt::log("emplace_back");
            set("emplace_back", n, n + 1);
            auto it = [&] {
                if constexpr (K::conv) {
                    return v.emplace_back(x);
                } else if constexpr (K::copy) {
                    return v.emplace_back(y.cref());
                } else {
                    return v.emplace_back(std::move(y.ref()));
                }
            }();
            m.push_back(z);
            at(it, n, "emplace_back");
            break;
        }
        case 5:
        case 6: {
            if constexpr (K::copy) {
                const size_t p = src.below(n + 1);
                Elem<K> x(gen_value(src));
                pbt::log("insert({}, const&) size {} capacity {}", p, n, v.capacity());
                set("insert", p, n + 1);
                auto it = v.insert(citer(p), x.cref());
                m.insert(mit(p), K::val(x.ref()));
                at(it, p, "insert");
                break;
            }
            [[fallthrough]];
        }
        case 7: {
            if constexpr (K::move) {
                const size_t p = src.below(n + 1);
                Elem<K> x(gen_value(src));
                const int z = K::val(x.ref());
                pbt::log("insert({}, &&) size {} capacity {}", p, n, v.capacity());
                set("insert(&&)", p, n + 1);
                auto it = v.insert(citer(p), std::move(x.ref()));
                m.insert(mit(p), z);
                at(it, p, "insert(&&)");
                break;
            }
            [[fallthrough]];
        }
        case 8:
        case 9: {
            if constexpr (K::copy) {
                const size_t p = src.below(n + 1);
                const size_t c = gen_count(src, room);
                Elem<K> x(gen_value(src));
                pbt::log("insert({}, {} copies) size {} capacity {}", p, c, n, v.capacity());
                set("insert(n, v)", p, n + c);
                auto it = v.insert(citer(p), c, x.cref());
                m.insert(mit(p), c, K::val(x.ref()));
                at(it, p, "insert(n, v)");
                break;
            }
            [[fallthrough]];
        }
        case 10:
        case 11:
        case 12: {
            const size_t p = src.below(n + 1);
            auto vals = gen_values(src, room);
            with_range<K>(src, vals, [&](const char* name, auto a, auto b) {
                pbt::log("insert({}, {} from {}) size {} capacity {}", p, vals.size(), name, n, v.capacity());
                set("insert(range)", p, n + vals.size());
                auto it = v.insert(citer(p), a, b);
                m.insert(mit(p), vals.begin(), vals.end());
                at(it, p, "insert(range)");
            });
            break;
        }
        case 13: {
            if constexpr (K::copy) {
                const size_t p = src.below(n + 1);
                auto vals = gen_values(src, room);
                vals.resize(std::min<size_t>(vals.size(), 4));
                pbt::log("insert({}, {{{} values}}) size {} capacity {}", p, vals.size(), n, v.capacity());
                with_list<K>(vals, [&](std::initializer_list<T> l) {
                    set("insert{}", p, n + vals.size());
                    auto it = v.insert(citer(p), l);
                    m.insert(mit(p), vals.begin(), vals.end());
                    at(it, p, "insert{}");
                });
                break;
            }
            [[fallthrough]];
        }
        case 14:
        case 15: {
            const size_t p = src.below(n + 1);
            const int x = gen_value(src);
            Elem<K> y(x);
            const int z = K::val(y.ref());
            const bool by_index = src.coin();
            pbt::log("emplace({} {}) size {} capacity {}", by_index ? "index" : "iterator", p, n, v.capacity());
            set("emplace", p, n + 1);
            auto put = [&](auto pos) {
                if constexpr (K::conv) {
                    return v.emplace(pos, x);
                } else if constexpr (K::copy) {
                    return v.emplace(pos, y.cref());
                } else {
                    return v.emplace(pos, std::move(y.ref()));
                }
            };
            auto it = by_index ? put(p) : put(iter(p));
            m.insert(mit(p), z);
            at(it, p, "emplace");
            break;
        }
        case 16:
        case 17: {
            if (n == 0) break;
            const size_t p = src.below(n);
            const bool c = src.coin();
            pbt::log("erase({}) of {}", p, n);
            set("erase", p, n - 1);
            auto it = c ? v.erase(citer(p)) : v.erase(iter(p));
            m.erase(mit(p));
            at(it, p, "erase");
            break;
        }
        case 18:
        case 19: {
            const size_t a = src.below(n + 1), b = a + src.below(n - a + 1);
            const bool c = src.coin();
            pbt::log("erase({}, {}) of {}", a, b, n);
            set("erase(range)", a, n - (b - a));
            auto it = c ? v.erase(citer(a), citer(b)) : v.erase(iter(a), iter(b));
            m.erase(mit(a), mit(b));
            // known finding: the position of the passed end comes back, see known_findings.txt
            const std::ptrdiff_t got = it - v.begin();
            CHECK_THAT(got == std::ptrdiff_t(a) || (got == std::ptrdiff_t(b) && !pbt::g_known),
                       "erase(range) from {} to {} returned position {}, expected {}", a, b, got, a);
            break;
        }
        case 20: {
            if constexpr (requires(T x) { x == x; } && !std::is_same_v<K, KUnique>) {
                const int x = n > 0 && src.coin() ? m[src.below(n)] : gen_value(src);
                Elem<K> y(x);
                const int z = K::val(y.ref());
                size_t first = 0;
                while (first < n && m[first] != z) ++first;
                const size_t cnt = size_t(std::count(m.begin(), m.end(), z));
                const bool free_fn = src.coin();
                // std::erase takes a value of any type and compares it with the elements
                const int way = std::is_arithmetic_v<T> && free_fn && src.chance(1, 4) ? int(src.range(1, 4)) : 0;
                pbt::log("erase(value {}) {} of {}{}", z, cnt, n, way == 0 ? "" : way == 1 ? ", plus 256 or 0.5" : ", as another type");
                const size_t gone = way == 1 ? 0 : cnt;
                set("erase(value)", first, n - gone);
                size_t got = 0;
                if constexpr (std::is_arithmetic_v<T>) {
                    switch (way) {
                        case 0: got = free_fn ? std::erase(v, y.cref()) : v.erase(y.cref()); break;
                        case 1: got = src.coin() ? std::erase(v, z + 256) : std::erase(v, double(z) + 0.5); break;
                        case 2: got = std::erase(v, double(z)); break;
                        case 3: got = std::erase(v, (long long)z); break;
                        default: got = std::erase(v, float(z)); break;
                    }
                } else {
                    got = free_fn ? std::erase(v, y.cref()) : v.erase(y.cref());
                }
                if (gone != 0) std::erase(m, z);
                CHECK_THAT(got == gone, "erase(value) returned {}, expected {}", got, gone);
                break;
            }
            [[fallthrough]];
        }
        case 21: {
            const int mod = 1 + int(src.below(5)), rest = int(src.below(5));
            auto bad = [&](int x) { return x % mod == rest; };
            size_t first = 0;
            while (first < n && !bad(m[first])) ++first;
            const size_t cnt = size_t(std::count_if(m.begin(), m.end(), bad));
            const bool free_fn = src.coin();
            pbt::log("erase_if(x % {} == {}) {} of {}", mod, rest, cnt, n);
            set("erase_if", first, n - cnt);
            auto pred = [&](const T& x) { return bad(K::val(x)); };
            const size_t got = free_fn ? std::erase_if(v, pred) : v.erase_if(pred);
            std::erase_if(m, bad);
            CHECK_THAT(got == cnt, "erase_if returned {}, expected {}", got, cnt);
            break;
        }
        case 22: {
            if (n == 0) break;
            pbt::log("pop_back");
            set("pop_back", n - 1, n - 1);
            v.pop_back();
            m.pop_back();
            break;
        }
        case 23: {
            const size_t c = src.coin() ? n + gen_count(src, room) : src.below(n + 1);
            pbt::log("resize({}) size {} capacity {}", c, n, v.capacity());
            set("resize", std::min(c, n), c);
            v.resize(c);
            m.resize(c);
            break;
        }
        case 24: {
            if constexpr (K::copy) {
                const size_t c = src.coin() ? n + gen_count(src, room) : src.below(n + 1);
                Elem<K> x(gen_value(src));
                pbt::log("resize({}, v) size {} capacity {}", c, n, v.capacity());
                set("resize(n, v)", std::min(c, n), c);
                v.resize(c, x.cref());
                m.resize(c, K::val(x.ref()));
                break;
            }
            [[fallthrough]];
        }
        case 25: {
            pbt::log("clear");
            set("clear", 0, 0);
            v.clear();
            m.clear();
            break;
        }
        case 26: {
            if constexpr (K::copy) {
                const size_t c = gen_count(src, v.capacity());
                Elem<K> x(gen_value(src));
                pbt::log("assign({}, v) size {} capacity {}", c, n, v.capacity());
                set("assign(n, v)", 0, c, true);
                v.assign(c, x.cref());
                m.assign(c, K::val(x.ref()));
                break;
            }
            [[fallthrough]];
        }
        case 27:
        case 28: {
            auto vals = gen_values(src, v.capacity());
            with_range<K>(src, vals, [&](const char* name, auto a, auto b) {
                if constexpr (std::forward_iterator<decltype(a)>) {
                    pbt::log("assign({} from {}) size {} capacity {}", vals.size(), name, n, v.capacity());
                    set("assign(range)", 0, vals.size(), true);
                    v.assign(a, b);
                    m = vals;
                }
            });
            break;
        }
        case 29: {
            if constexpr (K::copy) {
                auto vals = gen_values(src, v.capacity());
                vals.resize(std::min<size_t>(vals.size(), 4));
                pbt::log("assign{{{} values}}", vals.size());
                with_list<K>(vals, [&](std::initializer_list<T> l) {
                    set("assign{}", 0, vals.size(), true);
                    v.assign(l);
                    m = vals;
                });
                break;
            }
            [[fallthrough]];
        }
        case 30: {
            const size_t c = src.coin() ? v.capacity() + src.below(5) : src.below(300);
            pbt::log("reserve({}) size {} capacity {}", c, n, v.capacity());
            set("reserve", n, n);
            if (c > v.capacity()) e.whole = true;
            v.reserve(c);
            CHECK_THAT(v.capacity() >= c, "reserve({}) left a capacity of {}", c, v.capacity());
            break;
        }
        case 31: {
            pbt::log("shrink_to_fit size {} capacity {}", n, v.capacity());
            set("shrink_to_fit", 0, n, true);
            v.shrink_to_fit();
            CHECK_THAT(v.capacity() == n, "shrink_to_fit of {} elements left a capacity of {}", n, v.capacity());
            break;
        }
        case 32: {
            if (n == 0) break;
            if constexpr (std::is_copy_assignable_v<T> || std::is_move_assignable_v<T>) {
                const size_t p = src.below(n);
                const int x = gen_value(src);
                Elem<K> y(x);
                const int z = K::val(y.ref());
                const size_t way = src.below(7);
                pbt::log("write element {} by way {}", p, way);
                set("write", n, n);
                auto put = [&](T& t) {
                    if constexpr (K::move) {
                        t = std::move(y.ref());
                    } else {
                        t = y.cref();
                    }
                };
                switch (way) {
                    case 0: put(v[p]); m[p] = z; break;
                    case 1: put(v.at(p)); m[p] = z; break;
                    case 2: put(v.data()[p]); m[p] = z; break;
                    case 3: put(*iter(p)); m[p] = z; break;
                    case 4: put(v.front()); m.front() = z; break;
                    case 5: put(v.back()); m.back() = z; break;
                    default: put(*(v.rbegin() + std::ptrdiff_t(p))); m[n - 1 - p] = z; break;
                }
                break;
            }
            break;
        }
        default: {
            const size_t c = 1 + src.below(40);
            pbt::log("{} pushes", c);
            set("pushes", n, n + c);
            for (size_t i = 0; i < c; ++i) {
                if constexpr (K::conv) {
                    v.emplace_back(int(i));
                } else {
                    v.emplace_back(K::mk(int(i)));
                }
                m.push_back(int(i));
            }
        }
    }
    return e;
}

}  // namespace vh
