// A small property-based-testing engine used by every harness in /verif.
//
//  * A case is a sequence of *groups* of 64-bit choices.  Group 0 is the configuration of the case; every
//    further group belongs to one operation.  A property draws all its randomness from the Source, so a case
//    is a pure function of its choices, and deleting a group deletes exactly one operation.
//  * Cases are run in a forked child, which records each choice in shared memory as it is drawn; an abort,
//    sanitizer report, hang (CPU-time limit) or CHECK failure ends the child, and the parent still has the
//    complete choice sequence, shrinks it (each candidate again in a child) and writes it as a replay file.
//  * Heap balance: under AddressSanitizer every malloc/free is counted; a case that ends with more live blocks
//    than it started with, three times in a row, is a failure (leak).
#pragma once
#include <fmt/format.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*));
#endif
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif

namespace pbt {

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27U)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31U);
}

constexpr size_t kMaxChoices = 1U << 17U;
constexpr size_t kMaxGroups = 1U << 13U;
constexpr size_t kMaxLabels = 160;

struct Shm {
    // recorded choices of the running case
    uint64_t n_choices;
    uint64_t n_groups;
    uint64_t choices[kMaxChoices];
    uint64_t group_start[kMaxGroups + 1];
    // outcome
    char msg[4096];
    uint64_t in_case;  // 1 while a case is running
    uint64_t case_index;
    // statistics
    uint64_t cases;
    uint64_t nontrivial;
    uint64_t ops;
    uint64_t n_labels;
    struct Label {
        char name[56];
        uint64_t count;       // number of events
        uint64_t cases;       // number of cases with at least one
        uint64_t last_case;
    } labels[kMaxLabels];
};
inline Shm* shm = nullptr;
inline bool verbose = false;
inline std::string* sink = nullptr;  // when set, verbose output is collected here

[[noreturn]] inline void fail(const std::string& m) {
    if (shm != nullptr && shm->msg[0] == 0) {
        size_t n = std::min(m.size(), sizeof(shm->msg) - 1);
        memcpy(shm->msg, m.data(), n);
        shm->msg[n] = 0;
    }
    if (verbose && sink == nullptr) {
        fprintf(stdout, "FAILED: %s\n", m.c_str());
        fflush(stdout);
    }
    _exit(77);
}

#define CHECK_THAT(cond, ...)                                                                       \
    do {                                                                                            \
        if (!(cond)) ::pbt::fail(std::string("[" #cond "] ") + fmt::format(__VA_ARGS__));           \
    } while (0)

inline bool g_quiet = false;  // set while a harness repeats one logged operation many times

template <typename... A>
inline void log(fmt::format_string<A...> f, A&&... a) {
    if (!verbose || g_quiet) return;
    std::string s = fmt::format(f, std::forward<A>(a)...);
    if (sink != nullptr) {
        if (sink->size() < 6000) {
            *sink += s;
            *sink += "; ";
        }
    } else {
        fprintf(stdout, "  %s\n", s.c_str());
        fflush(stdout);
    }
}

inline uint64_t g_case = 0;  // running case number (1-based), for label bookkeeping
inline bool g_nontrivial = false;

inline void label(const char* name, uint64_t n = 1) {
    if (shm == nullptr) return;
    for (uint64_t i = 0; i < shm->n_labels; ++i) {
        auto& l = shm->labels[i];
        if (strcmp(l.name, name) == 0) {
            l.count += n;
            if (l.last_case != g_case) {
                l.last_case = g_case;
                ++l.cases;
            }
            return;
        }
    }
    if (shm->n_labels < kMaxLabels) {
        auto& l = shm->labels[shm->n_labels++];
        strncpy(l.name, name, sizeof(l.name) - 1);
        l.count = n;
        l.cases = 1;
        l.last_case = g_case;
    }
}
inline void nontrivial() { g_nontrivial = true; }

class Source {
   public:
    enum Mode { GEN, REPLAY, BYTES };
    Mode mode = GEN;
    uint64_t rng = 0;
    // replay data
    const std::vector<std::vector<uint64_t>>* rep = nullptr;
    size_t rg = 0, ri = 0;
    // bytes mode (libFuzzer)
    const uint8_t* bytes = nullptr;
    size_t nbytes = 0;
    uint64_t ops_left = 0;
    bool len_set = false;

    static Source generate(uint64_t seed) {
        Source s;
        s.mode = GEN;
        s.rng = seed;
        s.start();
        return s;
    }
    static Source replay(const std::vector<std::vector<uint64_t>>& v) {
        Source s;
        s.mode = REPLAY;
        s.rep = &v;
        s.start();
        return s;
    }
    static Source from_bytes(const uint8_t* d, size_t n) {
        Source s;
        s.mode = BYTES;
        s.bytes = d;
        s.nbytes = n;
        s.start();
        return s;
    }

    // ---- drawing -------------------------------------------------------------------------------------
    // uniform in [0, n); shrinks to 0
    uint64_t below(uint64_t n) {
        if (n <= 1) {
            return 0;  // no choice, nothing recorded
        }
        uint64_t v = 0;
        switch (mode) {
            case GEN:
                v = splitmix(rng) % n;
                break;
            case REPLAY:
                if (rg < rep->size() && ri < (*rep)[rg].size()) {
                    v = (*rep)[rg][ri++];
                    if (v >= n) v %= n;
                }
                break;
            case BYTES: {
                int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32U) ? 4 : 8;
                for (int i = 0; i < k && nbytes > 0; ++i) {
                    v = (v << 8U) | *bytes++;
                    --nbytes;
                }
                v %= n;
                break;
            }
        }
        record(v);
        return v;
    }
    uint64_t u64() {
        uint64_t v = 0;
        switch (mode) {
            case GEN:
                v = splitmix(rng);
                break;
            case REPLAY:
                if (rg < rep->size() && ri < (*rep)[rg].size()) v = (*rep)[rg][ri++];
                break;
            case BYTES:
                for (int i = 0; i < 8 && nbytes > 0; ++i) {
                    v = (v << 8U) | *bytes++;
                    --nbytes;
                }
                break;
        }
        record(v);
        return v;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }  // shrinks to false
    bool coin() { return below(2) != 0; }
    template <typename T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
    // index into weights
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0;
        for (auto x : w) tot += x;
        uint64_t v = below(tot);
        size_t i = 0;
        for (auto x : w) {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    // a size, biased to the neighbourhood of the given interesting values
    uint64_t near(std::initializer_list<uint64_t> pts, uint64_t delta, uint64_t max) {
        uint64_t p = *(pts.begin() + below(pts.size()));
        uint64_t d = below(2 * delta + 1);
        uint64_t v = p + (d + 1) / 2 * 1;
        if (d % 2 == 1) {
            v = p >= (d + 1) / 2 ? p - (d + 1) / 2 : 0;
        } else {
            v = p + d / 2;
        }
        return std::min(v, max);
    }

    // ---- operations ----------------------------------------------------------------------------------
    // call once before the first next_op(): how many operations a generated case has
    void set_len(uint64_t lo, uint64_t hi) {
        if (mode == GEN) ops_left = lo + splitmix(rng) % (hi - lo + 1);
        if (mode == BYTES) ops_left = hi;
        len_set = true;
    }
    bool next_op() {
        if (mode == GEN) {
            if (ops_left == 0) return false;
            --ops_left;
        } else if (mode == BYTES) {
            if (ops_left == 0 || nbytes == 0) return false;
            --ops_left;
        } else {
            if (rg + 1 >= rep->size()) return false;
            ++rg;
            ri = 0;
        }
        if (shm->n_groups >= kMaxGroups || shm->n_choices + 64 >= kMaxChoices) return false;
        shm->group_start[shm->n_groups++] = shm->n_choices;
        ++shm->ops;
        return true;
    }

   private:
    void start() {
        shm->n_choices = 0;
        shm->n_groups = 1;
        shm->group_start[0] = 0;
    }
    static void record(uint64_t v) {
        if (shm->n_choices < kMaxChoices) shm->choices[shm->n_choices++] = v;
    }
};

using PropFn = void (*)(Source&);
struct Prop {
    const char* id;
    PropFn fn;
    bool leak_check;
};

// ---- heap balance ------------------------------------------------------------------------------------
inline std::atomic<int64_t> g_live{0};
#ifdef PBT_ASAN
inline void hook_malloc(const volatile void* p, size_t) {
    if (p != nullptr) g_live.fetch_add(1, std::memory_order_relaxed);
}
inline void hook_free(const volatile void* p) {
    if (p != nullptr) g_live.fetch_sub(1, std::memory_order_relaxed);
}
#endif

inline void arm_cpu_limit(int secs) {
    itimerval it{};
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline int g_cpu_limit = 20;
inline bool g_known = false;  // --known: also generate the inputs of recorded findings (known_findings.txt)
inline int g_scale = 0;     // --scale: 1 makes a property draw its cases with objects of several GB
inline int g_repeat = 1;  // schedule-dependent properties repeat a case this often (more while shrinking and replaying)

inline void on_vtalrm(int) {
    if (shm != nullptr && shm->msg[0] == 0) {
        strcpy(shm->msg, "the case did not terminate within its CPU-time limit");
    }
    _exit(78);
}

template <typename MakeSource>
inline void run_case(const Prop& p, MakeSource&& mk) {
    ++g_case;
    g_nontrivial = false;
    shm->in_case = 1;
    arm_cpu_limit(g_cpu_limit);
    int64_t before = g_live.load();
    {
        Source s = mk();
        p.fn(s);
    }
#ifdef PBT_ASAN
    int64_t after = g_live.load();
    if (p.leak_check && sink == nullptr && after > before) {
        int64_t leaked = after - before;
        for (int i = 0; i < 3 && leaked > 0; ++i) {
            before = g_live.load();
            {
                Source s = mk();
                p.fn(s);
            }
            leaked = g_live.load() - before;
        }
        if (leaked > 0) fail(fmt::format("heap leak: {} block(s) still allocated after the case", leaked));
    }
#endif
    (void)before;
    shm->in_case = 0;
}

inline uint64_t hash_case() {
    uint64_t h = 1469598103934665603ULL;
    auto mix = [&](uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6U) + (h >> 2U);
        h *= 1099511628211ULL;
    };
    uint64_t g = 0;
    for (uint64_t i = 0; i < shm->n_choices; ++i) {
        while (g < shm->n_groups && shm->group_start[g] == i) {
            mix(0xABCDEF);
            ++g;
        }
        mix(shm->choices[i]);
    }
    mix(shm->n_groups);
    return h;
}

inline std::vector<std::vector<uint64_t>> recorded() {
    std::vector<std::vector<uint64_t>> r(shm->n_groups);
    for (uint64_t g = 0; g < shm->n_groups; ++g) {
        uint64_t b = shm->group_start[g];
        uint64_t e = g + 1 < shm->n_groups ? shm->group_start[g + 1] : shm->n_choices;
        r[g].assign(shm->choices + b, shm->choices + e);
    }
    return r;
}

inline std::string json_escape(std::string_view s) {
    std::string o;
    for (char c : s) {
        auto u = static_cast<unsigned char>(c);
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (u < 0x20 || u >= 0x7f) {
            o += fmt::format("\\u{:04x}", static_cast<unsigned>(u));
        } else {
            o += c;
        }
    }
    return o;
}

inline std::string groups_text(const std::vector<std::vector<uint64_t>>& g) {
    std::string o;
    if (g_scale != 0) o += fmt::format("scale {}\n", g_scale);
    for (auto& v : g) {
        o += "g";
        for (auto x : v) o += fmt::format(" {}", x);
        o += "\n";
    }
    return o;
}
inline bool load_groups(const char* path, std::vector<std::vector<uint64_t>>& g) {
    FILE* f = fopen(path, "r");
    if (f == nullptr) return false;
    static char line[1U << 20U];
    while (fgets(line, sizeof line, f) != nullptr) {
        if (strncmp(line, "scale ", 6) == 0) g_scale = atoi(line + 6);
        if (line[0] != 'g') continue;
        g.emplace_back();
        char* p = line + 1;
        while (true) {
            char* e = nullptr;
            uint64_t v = strtoull(p, &e, 10);
            if (e == p) break;
            g.back().push_back(v);
            p = e;
        }
    }
    fclose(f);
    if (g.empty()) g.emplace_back();
    return true;
}

// ---- one candidate in a child; true if it fails ---------------------------------------------------------
inline bool child_fails(const Prop& p, const std::vector<std::vector<uint64_t>>& cand) {
    shm->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        g_repeat = 15;
        run_case(p, [&] { return Source::replay(cand); });
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {
    }
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

inline double now_s() {
    timeval tv{};
    gettimeofday(&tv, nullptr);
    return static_cast<double>(tv.tv_sec) + static_cast<double>(tv.tv_usec) * 1e-6;
}

inline std::vector<std::vector<uint64_t>> shrink(const Prop& p, std::vector<std::vector<uint64_t>> cur,
                                                 double budget_s) {
    const double end = now_s() + budget_s;
    int execs = 0;
    auto ok = [&] { return now_s() < end && execs < 4000; };
    auto attempt = [&](const std::vector<std::vector<uint64_t>>& c) {
        ++execs;
        return child_fails(p, c);
    };
    bool changed = true;
    while (changed && ok()) {
        changed = false;
        for (size_t k = std::max<size_t>(1, (cur.size() - 1) / 2); k >= 1 && ok(); k /= 2) {
            for (size_t i = cur.size(); i > 1 && ok();) {
                size_t lo = i > k ? i - k : 1;
                lo = std::max<size_t>(lo, 1);
                auto c = cur;
                c.erase(c.begin() + static_cast<long>(lo), c.begin() + static_cast<long>(i));
                if (c.size() < cur.size() && attempt(c)) {
                    cur = c;
                    changed = true;
                    i = std::min(lo, cur.size());
                } else {
                    i = lo;
                }
            }
            if (k == 1) break;
        }
        for (size_t g = 0; g < cur.size() && ok(); ++g) {
            for (size_t i = 0; i < cur[g].size() && ok(); ++i) {
                if (cur[g][i] == 0) continue;
                auto c = cur;
                c[g][i] = 0;
                if (attempt(c)) {
                    cur = c;
                    changed = true;
                    continue;
                }
                uint64_t lo = 0;
                uint64_t hi = cur[g][i];  // hi fails, lo passes
                while (hi - lo > 1 && ok()) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    c[g][i] = mid;
                    if (attempt(c)) {
                        hi = mid;
                        changed = true;
                    } else {
                        lo = mid;
                    }
                }
                cur[g][i] = hi;
            }
        }
    }
    // drop trailing zeros of each group: they are implied
    auto c = cur;
    for (auto& g : c) {
        while (!g.empty() && g.back() == 0) g.pop_back();
    }
    if (attempt(c)) cur = c;
    return cur;
}

inline uint64_t opt_u64(int argc, char** argv, const char* name, uint64_t def) {
    for (int i = 1; i + 1 < argc; ++i) {
        if (strcmp(argv[i], name) == 0) return strtoull(argv[i + 1], nullptr, 10);
    }
    return def;
}
inline const char* opt_str(int argc, char** argv, const char* name, const char* def) {
    for (int i = 1; i + 1 < argc; ++i) {
        if (strcmp(argv[i], name) == 0) return argv[i + 1];
    }
    return def;
}

inline std::string describe_status(int st) {
    if (shm->msg[0] != 0) return shm->msg;
    if (WIFSIGNALED(st)) return fmt::format("crash: signal {} ({})", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return fmt::format("abnormal exit, status {}", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
}

inline void write_stats(const char* path, const std::string& result, const std::string& samples) {
    if (path == nullptr) return;
    FILE* f = fopen(path, "w");
    if (f == nullptr) return;
    fprintf(f, "{\"cases\": %llu, \"nontrivial\": %llu, \"ops\": %llu, \"result\": \"%s\", \"msg\": \"%s\",\n",
            (unsigned long long)shm->cases, (unsigned long long)shm->nontrivial, (unsigned long long)shm->ops,
            result.c_str(), json_escape(shm->msg).c_str());
    fprintf(f, " \"labels\": {");
    for (uint64_t i = 0; i < shm->n_labels; ++i) {
        fprintf(f, "%s\"%s\": [%llu, %llu]", i == 0 ? "" : ", ", json_escape(shm->labels[i].name).c_str(),
                (unsigned long long)shm->labels[i].count, (unsigned long long)shm->labels[i].cases);
    }
    fprintf(f, "},\n \"samples\": [%s]}\n", samples.c_str());
    fclose(f);
}

inline void map_shm() {
    shm = static_cast<Shm*>(
      mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

// modes:
//   --prop ID --cases N --seed S --from I --step K --stats F --hashes F --replay-out F [--budget SECONDS]
//   --prop ID --replay FILE        (exit 0: passes; 1: fails)
inline int engine_main(int argc, char** argv, std::initializer_list<Prop> props) {
    map_shm();
    const char* id = opt_str(argc, argv, "--prop", "");
    const Prop* p = nullptr;
    for (auto& q : props) {
        if (strcmp(q.id, id) == 0) p = &q;
    }
    if (p == nullptr) {
        fprintf(stderr, "unknown property %s\n", id);
        return 2;
    }
#ifdef PBT_ASAN
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
    signal(SIGVTALRM, on_vtalrm);
    g_cpu_limit = static_cast<int>(opt_u64(argc, argv, "--cpu-limit", 20));
    g_known = opt_u64(argc, argv, "--known", 0) != 0;
    g_scale = static_cast<int>(opt_u64(argc, argv, "--scale", 0));

    if (const char* rp = opt_str(argc, argv, "--replay", nullptr)) {
        std::vector<std::vector<uint64_t>> g;
        if (!load_groups(rp, g)) return 2;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            verbose = true;
            g_repeat = 30;
            run_case(*p, [&] { return Source::replay(g); });
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (bad) {
            printf("REPLAY-FAILS %s\n", describe_status(st).c_str());
        } else {
            printf("REPLAY-PASSES\n");
        }
        return bad ? 1 : 0;
    }

    const uint64_t cases = opt_u64(argc, argv, "--cases", 1000);
    const uint64_t seed = opt_u64(argc, argv, "--seed", 1);
    const uint64_t from = opt_u64(argc, argv, "--from", 0);
    const uint64_t step = opt_u64(argc, argv, "--step", 1);
    const uint64_t budget = opt_u64(argc, argv, "--budget", 600);
    const char* stats = opt_str(argc, argv, "--stats", nullptr);
    const char* hashes = opt_str(argc, argv, "--hashes", nullptr);
    const char* rout = opt_str(argc, argv, "--replay-out", nullptr);
    const uint64_t want_samples = opt_u64(argc, argv, "--samples", 0);
    const double t_end = now_s() + static_cast<double>(budget);
    uint64_t id_hash = 0;
    for (const char* c = id; *c != 0; ++c) id_hash = id_hash * 131 + static_cast<unsigned char>(*c);
    auto case_seed = [&](uint64_t i) {
        uint64_t s = seed * 0x9E3779B97F4A7C15ULL + id_hash * 0xD1B54A32D192ED03ULL + i * 0x2545F4914F6CDD1DULL;
        splitmix(s);
        return splitmix(s);
    };

    // samples travel through a file written by the child
    std::string sample_path = stats != nullptr ? std::string(stats) + ".samples" : std::string();
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        FILE* hf = hashes != nullptr ? fopen(hashes, "wb") : nullptr;
        std::vector<uint64_t> hbuf;
        hbuf.reserve(4096);
        auto flush = [&] {
            if (hf != nullptr && !hbuf.empty()) {
                fwrite(hbuf.data(), 8, hbuf.size(), hf);
                fflush(hf);
            }
            hbuf.clear();
        };
        uint64_t sampled = 0;
        for (uint64_t i = from; i < cases; i += step) {
            shm->case_index = i;
            const uint64_t cs = case_seed(i);
            run_case(*p, [&] { return Source::generate(cs); });
            ++shm->cases;
            if (g_nontrivial) {
                ++shm->nontrivial;
                hbuf.push_back(hash_case());
                if (hbuf.size() >= 4096) flush();
                if (sampled < want_samples) {
                    ++sampled;
                    std::string s;
                    sink = &s;
                    verbose = true;
                    uint64_t ops_before = shm->ops;
                    run_case(*p, [&] { return Source::generate(cs); });
                    shm->ops = ops_before;
                    verbose = false;
                    sink = nullptr;
                    FILE* sf = fopen(sample_path.c_str(), "a");
                    if (sf != nullptr) {
                        fprintf(sf, "%s\"%s\"", sampled > 1 ? ", " : "", json_escape(s.substr(0, 900)).c_str());
                        fclose(sf);
                    }
                }
            }
            if (((shm->cases & 63U) == 0 || g_scale != 0) && now_s() > t_end) break;
        }
        flush();
        if (hf != nullptr) fclose(hf);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {
    }
    auto read_samples = [&] {
        std::string s;
        if (FILE* f = fopen(sample_path.c_str(), "r")) {
            char buf[4096];
            size_t n = 0;
            while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
            fclose(f);
            unlink(sample_path.c_str());
        }
        return s;
    };
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        write_stats(stats, "ok", read_samples());
        return 0;
    }
    if (shm->in_case == 0) {
        fprintf(stderr, "harness process ended outside a case, status %d\n", st);
        write_stats(stats, "error", "");
        return 2;
    }
    std::string what = describe_status(st);
    auto cur = recorded();
    // keep the statistics of the exploration apart from those of shrinking
    static Shm saved_stats;
    memcpy(&saved_stats, shm, sizeof(Shm));
    if (rout != nullptr) {
        FILE* f = fopen((std::string(rout) + ".orig").c_str(), "w");
        if (f != nullptr) {
            fprintf(f, "# property %s\n# unshrunk\n# %s\n%s", id, json_escape(what).c_str(), groups_text(cur).c_str());
            fclose(f);
        }
    }
    bool repro = child_fails(*p, cur) || child_fails(*p, cur) || child_fails(*p, cur);
    if (repro) {
        cur = shrink(*p, cur, static_cast<double>(opt_u64(argc, argv, "--shrink-budget", 40)));
        (void)child_fails(*p, cur);
        if (shm->msg[0] != 0) what = shm->msg;
    }
    if (rout != nullptr) {
        FILE* f = fopen(rout, "w");
        if (f != nullptr) {
            fprintf(f, "# property %s\n# %s\n%s", id, json_escape(what).c_str(), groups_text(cur).c_str());
            fclose(f);
        }
    }
    memcpy(shm, &saved_stats, sizeof(Shm));
    snprintf(shm->msg, sizeof(shm->msg), "%s", what.c_str());
    write_stats(stats, repro ? "fail" : "flaky", read_samples());
    printf("FAIL %s: %s\n", id, what.c_str());
    return 1;
}

}  // namespace pbt
