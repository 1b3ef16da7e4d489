// O01-O05: command line parsing.
// The reference is an independent model of the declared semantics: which option takes which argument, what its text
// stands for, and what is left over.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <regex>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <vector>

#include "optparse/optparse.hpp"
#include "pbt.hpp"

namespace {
using pbt::Source;
namespace op = stdb::optparse;
using op::Action;
using op::ConflictHandler;
using op::Type;
using std::string;
using Strings = std::vector<string>;

// ---- environment: four variables whose text lives in static buffers, so that setting them allocates nothing -----
char g_env[4][64];
void set_env(size_t k, const char* text) {
    static bool ready = false;
    if (!ready) {
        ready = true;
        for (size_t i = 0; i < 4; ++i) {
            snprintf(g_env[i], sizeof g_env[i], "PBTENV_%zu=", i);
            putenv(g_env[i]);
            memcpy(g_env[i], "PBTOFF", 6);
        }
    }
    if (text == nullptr) {
        memcpy(g_env[k], "PBTOFF", 6);
    } else {
        snprintf(g_env[k], sizeof g_env[k], "PBTENV_%zu=%s", k, text);
    }
}
auto env_name(size_t k) -> string { return fmt::format("PBTENV_{}", k); }

// ---- values -----------------------------------------------------------------------------------------------------
struct Val {
    op::Value v;
    bool any = false;  // some value of this type
};
auto show(const op::Value& v) -> string {
    return std::visit(
      [](const auto& x) -> string {
          using X = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<X, string>) {
              return fmt::format("\"{}\"", x.substr(0, 60));
          } else if constexpr (std::is_same_v<X, bool>) {
              return x ? "true" : "false";
          } else {
              return fmt::format("{}", x);
          }
      },
      v);
}
auto same(const op::Value& got, const Val& want) -> bool {
    if (got.index() != want.v.index()) return false;
    return want.any || got == want.v;
}

constexpr const char* kBlank = " \t\n\r\f\v";
auto trim(const string& s) -> string {
    const auto b = s.find_first_not_of(kBlank);
    if (b == string::npos) return "";
    return s.substr(b, s.find_last_not_of(kBlank) - b + 1);
}
auto type_name(Type t) -> const char* {
    switch (t) {
        case op::Bool: return "bool";
        case op::Int: return "int";
        case op::Long: return "long";
        case op::Float: return "float";
        case op::Double: return "double";
        case op::Choice: return "choice";
        default: return "string";
    }
}

auto is_integer(const string& t) -> bool {
    size_t i = !t.empty() && (t[0] == '+' || t[0] == '-') ? 1 : 0;
    if (i == t.size()) return false;
    for (; i < t.size(); ++i) {
        if (t[i] < '0' || t[i] > '9') return false;
    }
    return true;
}
auto is_decimal(const string& t) -> bool {
    size_t i = !t.empty() && (t[0] == '+' || t[0] == '-') ? 1 : 0;
    size_t digits = 0;
    while (i < t.size() && isdigit((unsigned char)t[i]) != 0) ++i, ++digits;
    if (i < t.size() && t[i] == '.') {
        ++i;
        while (i < t.size() && isdigit((unsigned char)t[i]) != 0) ++i, ++digits;
    }
    if (digits == 0) return false;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
        ++i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
        size_t e = 0;
        while (i < t.size() && isdigit((unsigned char)t[i]) != 0) ++i, ++e;
        if (e == 0) return false;
    }
    return i == t.size();
}

// ---- declarations -----------------------------------------------------------------------------------------------
struct Decl {
    Strings names;
    Action action = Action::Null;
    Type type = Type::String;
    string dest;
    bool has_default = false;
    int default_kind = 0;  // 0 text, 1 int, 2 int64, 3 float, 4 double, 5 bool
    string default_text;
    double default_num = 0;
    int64_t default_int = 0;
    std::set<string> choices;
    bool retype = false;  // the type is set again after the choices
    int env = -1;
    string help;
};

// what a text stands for, or nothing
auto convert(const Decl& d, Type type, const string& text) -> std::optional<Val> {
    const auto t = trim(text);
    switch (type) {
        case op::Bool:
            if (t == "0" || t == "false") return Val{false};
            if (t == "1") return Val{true};
            if (t == "true" && pbt::g_known) return Val{true};  // recorded finding, see known_findings.txt
            return Val{false, true};
        case op::Int:
        case op::Long: {
            if (!is_integer(t)) return std::nullopt;
            errno = 0;
            const long long v = strtoll(t.c_str(), nullptr, 10);
            if (errno != 0) return std::nullopt;
            if (type == op::Long) return Val{int64_t(v)};
            if (v < INT32_MIN || v > INT32_MAX) return std::nullopt;
            return Val{int32_t(v)};
        }
        case op::Float: {
            if (!is_decimal(t)) return std::nullopt;
            const float v = strtof(t.c_str(), nullptr);
            if (std::isinf(v)) return std::nullopt;
            return Val{v};
        }
        case op::Double: {
            if (!is_decimal(t)) return std::nullopt;
            const double v = strtod(t.c_str(), nullptr);
            if (std::isinf(v)) return std::nullopt;
            return Val{v};
        }
        case op::Choice:
            if (d.choices.count(text) == 0) return std::nullopt;
            return Val{text};
        default: return Val{text};
    }
}

struct Result {
    bool threw = false;
    std::map<string, Val> values;
    std::map<string, std::vector<Val>> lists;
    std::vector<size_t> left;  // positions in argv
    size_t taken_values = 0, rejected = 0;
};

// the text goes to the option; false when it does not take it
auto give(const Decl& d, const std::optional<string>& text, Result& r) -> bool {
    switch (d.action) {
        case Action::Store:
            if (!text) {
                r.values[d.dest] = Val{false, true};  // a Bool that is to store nothing
                return true;
            }
            [[fallthrough]];
        case Action::StoreTrue:
        case Action::StoreFalse: {
            if (!text || (text->empty() && d.action != Action::Store)) {
                r.values[d.dest] = Val{d.action == Action::StoreTrue};
                return true;
            }
            auto v = convert(d, d.type, *text);
            if (!v) return false;
            r.values[d.dest] = *v;
            return true;
        }
        case Action::Append: {
            if (!text) {
                r.lists[d.dest].push_back(Val{false, true});
                return true;
            }
            std::vector<Val> vs;
            if (text->find(',') == string::npos) {
                auto v = convert(d, d.type, *text);
                if (!v) return false;
                vs.push_back(*v);
            } else {
                std::istringstream parts(*text);
                string part;
                while (std::getline(parts, part, ',')) {
                    if (part.empty()) continue;
                    auto v = convert(d, d.type, trim(part));
                    if (!v) return false;
                    vs.push_back(*v);
                }
            }
            if (!vs.empty()) {
                auto& l = r.lists[d.dest];
                l.insert(l.end(), vs.begin(), vs.end());
            }
            return true;
        }
        default: {  // Count
            auto [it, fresh] = r.values.emplace(d.dest, Val{int32_t(1)});
            if (!fresh) it->second.v = std::get<int32_t>(it->second.v) + 1;
            return true;
        }
    }
}

struct Model {
    char prefix = '-';
    ConflictHandler handler = op::Error;
    std::vector<Decl> decls;
    std::map<string, size_t> names;

    [[nodiscard]] auto longp() const -> string { return string(2, prefix); }
    [[nodiscard]] auto is_long(const string& n) const -> bool { return n.size() > 2 && n.compare(0, 2, longp()) == 0; }
    [[nodiscard]] auto valid_name(const string& n) const -> bool { return !n.empty() && n[0] == prefix && n != longp(); }

    // whether the declaration is to be taken
    [[nodiscard]] auto accepts(const Strings& ns) const -> bool {
        if (ns.empty()) return false;
        std::set<string> seen;
        for (const auto& n : ns) {
            if (!valid_name(n)) return false;
            if (handler == op::Error && (names.count(n) != 0 || !seen.insert(n).second)) return false;
        }
        return true;
    }
    void add(const Decl& d) {
        decls.push_back(d);
        auto& x = decls.back();
        for (const auto& n : x.names) {
            names[n] = decls.size() - 1;
            if (x.dest.empty() && is_long(n)) x.dest = n.substr(2);
        }
    }
    [[nodiscard]] static auto complete(const Decl& d) -> bool {
        return d.action != Action::Null && !d.dest.empty() && (d.choices.empty() || d.type == op::Choice);
    }
    void add_implied() {
        for (const char* n : {"usage", "help", "version"}) {
            const string s = string(1, prefix) + n[0], l = longp() + n;
            if (names.count(s) != 0 || names.count(l) != 0) continue;
            Decl d;
            d.names = {s, l};
            d.action = Action::StoreTrue;
            d.type = op::Bool;
            d.dest = n;
            add(d);
        }
    }
    [[nodiscard]] auto find(const string& arg) const -> const Decl* {
        auto it = names.find(trim(arg.substr(0, arg.find('='))));
        return it == names.end() ? nullptr : &decls[it->second];
    }
    // argv[0] is the program
    [[nodiscard]] auto parse(const Strings& argv) const -> Result {
        Result r;
        auto is_opt = [&](size_t i) { return !argv[i].empty() && argv[i][0] == prefix; };
        size_t i = 1;
        while (i < argv.size()) {
            const size_t at = i++;
            const Decl* d = is_opt(at) ? find(argv[at]) : nullptr;
            if (d == nullptr) {
                r.left.push_back(at);
                continue;
            }
            const auto eq = argv[at].find('=');
            const string inl = eq == string::npos ? "" : argv[at].substr(eq + 1);
            const bool follows = i < argv.size() && !is_opt(i);
            if (eq == string::npos && !follows) {
                if (d->type != op::Bool) {
                    r.threw = true;
                    return r;
                }
                give(*d, std::nullopt, r);
                continue;
            }
            size_t from = at;
            string text = inl;
            if (inl.empty()) {
                if (i == argv.size()) {  // name= at the end
                    r.left.push_back(at);
                    continue;
                }
                from = i;
                text = argv[i++];
            }
            auto take = [&](size_t pos, const string& t) {
                if (give(*d, t, r)) {
                    ++r.taken_values;
                } else {
                    ++r.rejected;
                    r.left.push_back(pos);
                }
            };
            take(from, text);
            if (d->action == Action::Append) {
                while (i < argv.size() && !is_opt(i)) {
                    take(i, argv[i]);
                    ++i;
                }
            }
        }
        auto absent = [&](const Decl& d, const string& text) {
            if (r.values.count(d.dest) != 0 || r.lists.count(d.dest) != 0) return;
            if (d.action == Action::Count) {
                if (auto v = convert(d, op::Int, text)) r.values[d.dest] = *v;
            } else {
                give(d, text, r);
            }
        };
        for (const auto& d : decls) {
            if (d.env < 0) continue;
            if (const char* t = getenv(env_name(size_t(d.env)).c_str())) absent(d, t);
        }
        for (const auto& d : decls) {
            if (!d.has_default) continue;
            if (r.values.count(d.dest) != 0 || r.lists.count(d.dest) != 0) continue;
            switch (d.default_kind) {
                case 3:
                    if (d.action == Action::Append) r.lists[d.dest].push_back(Val{float(d.default_num)});
                    else r.values[d.dest] = Val{float(d.default_num)};
                    break;
                case 4:
                    if (d.action == Action::Append) r.lists[d.dest].push_back(Val{d.default_num});
                    else r.values[d.dest] = Val{d.default_num};
                    break;
                case 1:
                case 2: absent(d, std::to_string(d.default_int)); break;
                case 5: absent(d, d.default_int != 0 ? "1" : "0"); break;
                default:
                    if (!d.default_text.empty()) absent(d, d.default_text);
            }
        }
        return r;
    }
};

// ---- generation -------------------------------------------------------------------------------------------------
const char* const kShort[] = {"a", "b", "c", "sz", "ab", "f", "x", "h", "u", "v", "1"};
const char* const kLong[] = {"alpha", "al", "beta", "size", "file-name", "x", "help", "usage", "version", "no_cache", "alphabet"};
const char* const kWords[] = {"work", "wait", "silent", "test.txt", "a", "0", "1", "false", "7", "42", "-5", "+3", "2.5", "1e3", "1e-7", "0.1", "2147483647",
                              "2147483648", "-2147483648", "9223372036854775807", "99999999999999999999", "1.5x", "12abc", "abc", "", " ", " 8", "9 ",
                              "3.4e38", "1e39", "1e999", ".5", "5.", "e5", "0x10", "007", "a,b", "1,2,3", "1,,2", ",", "1, 2", "work,wait", "work,nope", "1,x", ", ",
                              "0.1,0.2", "nan", "inf", "true", "v", "vv", "vvv", "help", "h", "prog", "on", "yes", "1 2", "1;2", "#", "\"a\""};

auto gen_word(Source& src) -> string {
    switch (src.below(8)) {
        case 0: {
            string s;
            const size_t n = src.below(6);
            const bool blanks = src.chance(1, 4);
            for (size_t k = 0; k < n; ++k) s.push_back(blanks ? "1, \t\n\v\f\r"[src.below(8)] : "ab1,= .-+\t\xe4"[src.below(11)]);
            return s;
        }
        case 1: return std::to_string(int64_t(src.u64() >> src.below(64)));
        case 2: {
            const double d = std::ldexp(double(int64_t(src.u64()) >> 11), -int(src.below(90)));
            return fmt::format("{}", d);
        }
        case 3:
            if (src.chance(1, 8)) return string(src.range(20, 400), 'y');
            [[fallthrough]];
        default: return kWords[src.below(std::size(kWords))];
    }
}
// a text that the declaration admits
auto gen_fit(Source& src, const Decl& d) -> string {
    switch (d.type) {
        case op::Bool: return src.pick<const char*>({"0", "1", "false"});
        case op::Int: return std::to_string(int32_t(src.u64() >> src.below(64)));
        case op::Long: return std::to_string(int64_t(src.u64() >> src.below(64)));
        case op::Float:
        case op::Double: return fmt::format("{}", std::ldexp(double(int64_t(src.u64()) >> 30), -int(src.below(60))));
        case op::Choice: {
            if (d.choices.empty()) return "none";
            auto it = d.choices.begin();
            std::advance(it, src.below(d.choices.size()));
            return *it;
        }
        default: return src.pick<const char*>({"text", "a b", "out.txt", "a/b"});
    }
}

// several of them in one text
auto gen_fits(Source& src, const Decl& d) -> string {
    const size_t n = src.chance(1, 3) ? src.range(10, 40) : src.range(2, 5);
    string s;
    for (size_t k = 0; k < n; ++k) {
        if (k != 0) s += src.chance(1, 4) ? src.pick<const char*>({", ", ",,", " ,", ",\t", ",\v\f", "\r,"}) : ",";
        s += gen_fit(src, d);
    }
    if (src.chance(1, 8)) s += ",";
    return s;
}

size_t g_many = 0;  // a case with many options: names get a number below this
auto gen_name(Source& src, char prefix, bool is_long) -> string {
    string n = is_long ? string(src.chance(1, 40) ? 3 : 2, prefix) + kLong[src.below(std::size(kLong))] : string(1, prefix) + kShort[src.below(std::size(kShort))];
    if (g_many != 0 && src.below(4) != 0) n += std::to_string(src.below(g_many));
    if (src.chance(1, 80)) {
        if (!is_long && src.coin()) return string(1, prefix);  // the prefix alone is a name, too
        n += string(src.range(10, 600), 'n');
    }
    return n;
}

auto gen_prefix(Source& src) -> char { return src.below(3) == 0 ? "+#$&%"[src.below(5)] : '-'; }

// a declaration with a meaning, whose names are free
auto gen_decl(Source& src, const Model& m, bool share = true) -> std::optional<Decl> {
    Decl d;
    const size_t form = src.below(4);
    if (form != 1) d.names.push_back(gen_name(src, m.prefix, false));
    if (form != 0) d.names.push_back(gen_name(src, m.prefix, true));
    if (form == 3 && src.coin()) d.names.push_back(gen_name(src, m.prefix, src.coin()));
    while (d.names.size() >= 3 && d.names.size() < 6 && src.coin()) d.names.push_back(gen_name(src, m.prefix, src.coin()));
    if (src.chance(1, 60)) {  // many names
        const size_t n = src.range(7, 12);
        for (size_t k = d.names.size(); k < n; ++k) d.names.push_back(gen_name(src, m.prefix, src.coin()) + fmt::format("{}", char('k' + k)));
    }
    if (!m.accepts(d.names)) return std::nullopt;
    d.action = src.pick<Action>({Action::Store, Action::Append, Action::StoreTrue, Action::StoreFalse, Action::Count, Action::Store});
    const bool flag = d.action == Action::StoreTrue || d.action == Action::StoreFalse || d.action == Action::Count;
    d.type = flag ? op::Bool : src.pick<Type>({op::String, op::Int, op::Long, op::Float, op::Double, op::Choice, op::Bool, op::String});
    if (d.type == op::Choice) {
        const size_t n = 1 + src.below(g_many == 0 ? 3 : 9);
        for (size_t k = 0; k < n; ++k) d.choices.insert(src.coin() ? kWords[src.below(3)] : kWords[src.below(std::size(kWords))]);
    }
    bool has_long = false;
    for (const auto& n : d.names) has_long |= m.is_long(n);
    if (!has_long || src.below(3) != 0) {
        d.dest = fmt::format("d{}", m.decls.size());
        // several options for one destination: of the same type
        if (share && src.chance(1, 4)) {
            for (const auto& o : m.decls) {
                if (o.type == d.type && (o.action == Action::Count) == (d.action == Action::Count) && src.coin()) d.dest = o.dest;
            }
        }
    }
    if (d.type == op::Bool && d.action != Action::Count && src.chance(1, 5)) {  // the name of another option, or an implied one
        string word = src.coin() ? kLong[src.below(std::size(kLong))] : src.pick<const char*>({"help", "usage", "version"});
        bool free = true;
        for (const auto& o : m.decls) free = free && (o.dest != word || (share && o.type == op::Bool && o.action != Action::Count));
        if (free) d.dest = word;
    }
    if (d.dest.empty()) {  // the long name, unless an option of another type goes there
        string implied;
        for (const auto& n : d.names) {
            if (implied.empty() && m.is_long(n)) implied = n.substr(2);
        }
        for (const auto& o : m.decls) {
            if (o.dest == implied && (!share || o.type != d.type || (o.action == Action::Count) != (d.action == Action::Count))) d.dest = fmt::format("d{}", m.decls.size());
        }
    }
    if (src.chance(2, 5)) {
        d.has_default = true;
        const size_t kind = src.below(3);
        if (kind == 0 && d.action != Action::Count) {
            switch (d.type) {
                case op::Int: d.default_kind = 1; d.default_int = int32_t(src.u64() >> src.below(64)); break;
                case op::Long: d.default_kind = 2; d.default_int = int64_t(src.u64() >> src.below(64)); break;
                case op::Float: d.default_kind = 3; d.default_num = float(std::ldexp(double(int64_t(src.u64()) >> 40), -int(src.below(60)))); break;
                case op::Double: d.default_kind = 4; d.default_num = std::ldexp(double(int64_t(src.u64()) >> 11), -int(src.below(120))); break;
                case op::Bool: d.default_kind = 5; d.default_int = int64_t(src.below(2)); break;
                default: d.default_text = gen_fit(src, d);
            }
        } else if (d.action == Action::Count) {
            d.default_kind = 1;
            d.default_int = int64_t(src.below(9));
        } else {
            d.default_text = kind == 1 ? gen_fit(src, d) : gen_word(src);
        }
    }
    if (src.chance(1, 4)) d.env = int(src.below(4));
    if (src.coin()) d.help = src.pick<const char*>({"some help", "x", "print duration for the loooooooooong running", "{} %s", "a, b"});
    return d;
}

auto gen_model(Source& src, bool share = true) -> Model {
    Model m;
    m.prefix = gen_prefix(src);
    if (src.chance(1, 4)) m.handler = op::Replace;
    g_many = 0;
    size_t n = src.range(1, 6);
    if (src.chance(1, 80)) {
        n = src.range(7, 80);
        g_many = n;
        pbt::label("many options");
    }
    for (size_t k = 0; k < n; ++k) {
        if (auto d = gen_decl(src, m, share)) m.add(*d);
    }
    return m;
}

auto gen_arg(Source& src, const Model& m) -> string {
    const Decl* d = m.decls.empty() ? nullptr : &m.decls[src.below(m.decls.size())];
    auto name = [&]() -> string {
        if (d == nullptr || src.chance(1, 12)) return gen_name(src, m.prefix, src.coin());
        return d->names[src.below(d->names.size())];
    };
    switch (src.below(12)) {
        case 0:
        case 1:
        case 2:
        case 3: return name();
        case 4:
        case 5: return name() + "=" + (d != nullptr && src.coin() ? gen_fit(src, *d) : gen_word(src));
        case 6: return name() + src.pick<const char*>({"=", " =", " = 1", "\t=x"});
        case 7: {  // near misses
            auto n = name();
            switch (src.below(6)) {
                case 0: return n + "x";
                case 1: return n.substr(0, n.size() - 1);
                case 2: return n.substr(1);
                case 3: return string(1, m.prefix) + n;
                case 4: return src.pick<string>({string(1, m.prefix), m.longp(), m.longp() + "=", string(1, m.prefix) + "=", m.longp() + "-", " " + n});
                default: n[src.below(n.size())] = 'q'; return n;
            }
        }
        case 8: return gen_word(src);
        default:
            if (d == nullptr) return gen_word(src);
            return d->action == Action::Append && src.chance(1, 3) ? gen_fits(src, *d) : gen_fit(src, *d);
    }
}
auto gen_args(Source& src, const Model& m) -> Strings {
    Strings a{src.pick<const char*>({"prog", "prog", "./a b", ""})};
    size_t n = src.range(0, 8);
    size_t more = 3;  // chance of one more value of a list
    if (src.chance(1, 200)) {
        n = src.range(9, 150);
        more = src.pick<size_t>({3, 3, 40});
        pbt::label("many arguments");
        if (!m.decls.empty() && src.chance(1, 3)) {  // one option again and again
            const Decl* d = &m.decls[src.below(m.decls.size())];
            for (const auto& o : m.decls) {
                if (o.action == Action::Count && src.coin()) d = &o;
            }
            const size_t times = src.chance(1, 40) ? src.range(32700, 34000) : src.range(100, 700);
            const bool inline_value = d->type != op::Bool || src.chance(1, 4);
            for (size_t k = 0; k < times; ++k) {
                a.push_back(d->names[src.below(d->names.size())]);
                if (inline_value) a.back() += "=" + gen_fit(src, *d);
            }
            n = src.below(4);
            pbt::label("an option given hundreds of times");
        }
    }
    for (size_t k = 0; k < n; ++k) {
        a.push_back(gen_arg(src, m));
        auto it = m.names.find(a.back());
        if (it == m.names.end()) continue;
        const auto& d = m.decls[it->second];
        if (d.action == Action::Append && src.chance(1, 5)) a.push_back(gen_fits(src, d));
        if (d.type != op::Bool && src.below(8) != 0) a.push_back(src.below(4) != 0 ? gen_fit(src, d) : gen_word(src));
        if (d.action == Action::Append) {
            while (a.size() < 600 && src.below(more) >= std::min<size_t>(2, more - 1)) a.push_back(src.coin() ? gen_fit(src, d) : gen_word(src));
        }
    }
    return a;
}

auto line(const Strings& a) -> string {
    string r;
    for (size_t k = 0; k < a.size(); ++k) {
        if (k == 1000) return r + fmt::format(" ... ({} in all)", a.size());
        r += fmt::format(" '{}'", a[k].substr(0, 40));
    }
    return r;
}

// ---- the real thing ---------------------------------------------------------------------------------------------
auto make_parser(char prefix, ConflictHandler h, size_t form) -> std::unique_ptr<op::OptionParser> {
    if (prefix == '-' && h == op::Error && form == 0) return std::make_unique<op::OptionParser>();
    if (prefix == '-' && form <= 1) return std::make_unique<op::OptionParser>(h);
    if (h == op::Error && form <= 2) return std::make_unique<op::OptionParser>(prefix);
    return std::make_unique<op::OptionParser>(prefix, h);
}
auto declare(op::OptionParser& p, const Strings& n, size_t form) -> op::Option& {
    if (n.size() == 1 && form % 2 == 0) return p.add_option(n[0]);
    if (n.size() == 2 && form % 2 == 0) return p.add_option(n[0], n[1]);
    if (n.size() == 0) return p.add_option(std::initializer_list<string>{});
    if (n.size() == 1) return p.add_option(std::initializer_list<string>{n[0]});
    if (n.size() == 2) return p.add_option({n[0], n[1]});
    if (n.size() == 4) return p.add_option({n[0], n[1], n[2], n[3]});
    if (n.size() == 5) return p.add_option({n[0], n[1], n[2], n[3], n[4]});
    if (n.size() == 6) return p.add_option({n[0], n[1], n[2], n[3], n[4], n[5]});
    if (n.size() == 7) return p.add_option({n[0], n[1], n[2], n[3], n[4], n[5], n[6]});
    if (n.size() == 8) return p.add_option({n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7]});
    if (n.size() == 9) return p.add_option({n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8]});
    if (n.size() == 10) return p.add_option({n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], n[9]});
    if (n.size() == 11) return p.add_option({n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], n[9], n[10]});
    if (n.size() == 12) return p.add_option({n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], n[9], n[10], n[11]});
    return p.add_option(std::initializer_list<string>{n[0], n[1], n[2]});
}
// the destination of an option that sets none: its first long name
auto implied_dest(const Strings& names) -> string {
    for (const auto& n : names) {
        if (n.size() > 2 && n[0] == n[1]) return n.substr(2);
    }
    return "";
}
void configure(op::Option& o, const Decl& d, const string& dest) {
    if (d.action != Action::Null) o.action(d.action);
    if (!dest.empty() && (dest != implied_dest(d.names) || d.help.size() == 1)) o.dest(dest);
    if (d.type != op::Choice) o.type(d.type);
    if (!d.choices.empty()) {
        if (d.choices.size() % 2 == 0) {  // in one call or two
            auto middle = d.choices.begin();
            if (d.names.size() % 2 == 0) {
                std::advance(middle, d.choices.size() / 2);
                o.choices(d.choices.begin(), middle);
            }
            o.choices(middle, d.choices.end());
        } else if (d.choices.size() >= 3 && d.names.size() % 2 == 0) {
            o.choices({*d.choices.begin()});
            o.choices(std::next(d.choices.begin()), d.choices.end());
        } else {
            for (const auto& c : d.choices) o.choices({c});
        }
    } else if (d.type == op::Choice) {
        o.type(op::Choice);
    }
    if (d.retype) o.type(d.type);
    if (d.has_default) {
        switch (d.default_kind) {
            case 1: o.default_value(int(d.default_int)); break;
            case 2: o.default_value(d.default_int); break;
            case 3: o.default_value(float(d.default_num)); break;
            case 4: o.default_value(d.default_num); break;
            case 5: o.default_value(d.default_int != 0); break;
            default:
                if (d.default_text.size() % 2 == 0) {
                    o.default_value(d.default_text.c_str());
                } else {
                    o.default_value(d.default_text);
                }
        }
    }
    if (d.env >= 0) o.env(env_name(size_t(d.env)));
    if (!d.help.empty()) o.help(d.help);
}
void log_decl(const Decl& d) {
    string def = !d.has_default ? "" : d.default_kind == 0 ? " default '" + d.default_text + "'" : d.default_kind >= 3 && d.default_kind < 5
                                                               ? fmt::format(" default {}", d.default_num)
                                                               : fmt::format(" default {}", d.default_int);
    string ch;
    for (const auto& c : d.choices) ch += " [" + c + "]";
    static const char* const acts[] = {"no action", "Store", "StoreTrue", "StoreFalse", "Append", "Count", "Help", "Version"};
    pbt::log("option{} {} {} dest '{}'{}{}{}", line(d.names), acts[d.action], type_name(d.type), d.dest, def, ch,
             d.env >= 0 ? fmt::format(" env {}", d.env) : "");
}

auto build(Source& src, const Model& m, bool quiet = false) -> std::unique_ptr<op::OptionParser> {
    if (!quiet) pbt::log("prefix {} {}", m.prefix, m.handler == op::Replace ? "replacing" : "");
    auto p = make_parser(m.prefix, m.handler, src.below(4));
    std::vector<op::Option*> refs;
    const bool late = src.coin();
    for (const auto& d : m.decls) {
        if (!quiet) log_decl(d);
        auto& o = declare(*p, d.names, src.below(2));
        if (late) {
            refs.push_back(&o);
        } else {
            configure(o, d, d.dest);
        }
    }
    for (size_t k = refs.size(); k-- > 0;) configure(*refs[k], m.decls[k], m.decls[k].dest);
    return p;
}

// argv in memory of exactly its size
class Argv
{
    std::vector<std::unique_ptr<char[]>> text_;
    std::unique_ptr<const char*[]> ptr_;
    Strings want_;

   public:
    explicit Argv(const Strings& a, bool share = false) : ptr_(new const char*[a.size()]), want_(a) {
        for (size_t i = 0; i < a.size(); ++i) {
            const auto same = std::find(a.begin(), a.begin() + std::ptrdiff_t(i), a[i]) - a.begin();
            if (share && size_t(same) < i) {  // equal texts at one address
                text_.emplace_back();
                ptr_[i] = ptr_[same];
                continue;
            }
            text_.emplace_back(new char[a[i].size() + 1]);
            memcpy(text_.back().get(), a[i].c_str(), a[i].size() + 1);
            ptr_[i] = text_.back().get();
        }
    }
    [[nodiscard]] auto argc() const -> int { return int(want_.size()); }
    [[nodiscard]] auto argv() const -> const char** { return ptr_.get(); }
    [[nodiscard]] auto intact() const -> bool {
        for (size_t i = 0; i < want_.size(); ++i) {
            if ((text_[i] && ptr_[i] != text_[i].get()) || want_[i] != ptr_[i]) return false;
        }
        return true;
    }
};

struct Outcome {
    std::optional<op::ValueStore> store;
    string error;
};
auto parse(op::OptionParser& p, const Argv& a, bool by_list) -> Outcome {
    Outcome o;
    try {
        if (by_list) {
            op::vector<string> l;
            for (int i = 1; i < a.argc(); ++i) l.push_back(a.argv()[i]);
            o.store.emplace(p.parse_args(std::move(l), a.argv()));
        } else {
            o.store.emplace(p.parse_args(a.argc(), a.argv()));
        }
    } catch (const std::exception& e) {
        o.error = e.what();
        if (o.error.empty()) o.error = "?";
    }
    return o;
}

auto lefts(op::OptionParser& p) -> Strings {
    Strings r;
    for (const char* x : p.invalid_args()) r.emplace_back(x);
    return r;
}

template <class T>
void check_scalar(const op::ValueStore& s, const string& dest, const Val& w) {
    const auto got = s.get<T>(dest);
    CHECK_THAT(got.has_value(), "'{}' is not set, expected {}", dest, show(w.v));
    CHECK_THAT(same(op::Value(*got), w), "'{}' is {}, expected {}", dest, show(op::Value(*got)), show(w.v));
}
void check_values(const op::ValueStore& s, const Result& r, const Model& m) {
    for (const auto& [dest, w] : r.values) {
        std::visit([&](const auto& x) { check_scalar<std::decay_t<decltype(x)>>(s, dest, w); }, w.v);
    }
    for (const auto& [dest, ws] : r.lists) {
        const auto got = s.get_list(dest);
        CHECK_THAT(got.has_value(), "list '{}' is not set", dest);
        CHECK_THAT(got->size() == ws.size(), "list '{}' has {} values, expected {}", dest, got->size(), ws.size());
        for (size_t k = 0; k < ws.size(); ++k) {
            CHECK_THAT(same((*got)[k], ws[k]), "list '{}' has {} at {}, expected {}", dest, show((*got)[k]), k, show(ws[k].v));
        }
        std::visit(
          [&](const auto& x) {
              using X = std::decay_t<decltype(x)>;
              const auto typed = s.get_list<X>(dest);
              CHECK_THAT(typed && typed->size() == ws.size(), "typed list '{}' differs", dest);
              for (size_t k = 0; k < ws.size(); ++k) CHECK_THAT(ws[k].any || (*typed)[k] == std::get<X>(ws[k].v), "typed list '{}' differs at {}", dest, k);
          },
          ws[0].v);
    }
    for (const auto& d : m.decls) {
        if (r.values.count(d.dest) == 0) CHECK_THAT(!s.get<bool>(d.dest).has_value(), "'{}' is set, expected none", d.dest);
        if (r.lists.count(d.dest) == 0) CHECK_THAT(!s.get_list(d.dest).has_value(), "list '{}' is set, expected none", d.dest);
        const bool set = r.values.count(d.dest) != 0 || r.lists.count(d.dest) != 0;
        if (!set) CHECK_THAT(!s.user_set(d.dest), "'{}' counts as set", d.dest);
    }
    CHECK_THAT(!s.get<int32_t>("undeclared").has_value() && !s.get_list("undeclared").has_value(), "an undeclared destination is set");
}

void gen_env(Source& src) {
    for (size_t k = 0; k < 4; ++k) {
        if (src.below(3) == 0) {
            auto w = gen_word(src).substr(0, 40);
            pbt::log("env {} = '{}'", k, w);
            set_env(k, w.c_str());
        } else {
            set_env(k, nullptr);
        }
    }
}

#ifdef PROP_O02
// the store itself
void store_history(Source& src) {
    src.set_len(2, 20);
    auto s = std::make_unique<op::ValueStore>();
    std::map<string, op::Value> values;
    std::map<string, std::vector<op::Value>> lists;
    std::map<string, int> counts;
    size_t stored = 0, repeated = 0;
    auto gen_value = [&](size_t kind) -> op::Value {
        switch (kind) {
            case 0: return src.coin();
            case 1: return int32_t(src.u64() >> src.below(64));
            case 2: return int64_t(src.u64() >> src.below(64));
            case 3: return float(src.below(1000)) / 8;
            case 4: return double(src.below(100000)) / 64;
            default: return gen_word(src);
        }
    };
    while (src.next_op()) {
        const size_t k = src.below(6);  // the keys k0..k5 hold values of the types 0..5
        const auto key = fmt::format("k{}", k);
        switch (src.below(6)) {
            case 0: {
                auto v = gen_value(k);
                pbt::log("set {} {}", key, show(v));
                repeated += values.count(key);
                s->set(key, v);
                values[key] = v;
                ++stored;
                break;
            }
            case 1: {
                auto v = gen_value(src.coin() ? k : src.below(6));  // a list takes values of several types
                pbt::log("append {} {}", key, show(v));
                repeated += lists.count(key);
                s->append(key, v);
                lists[key].push_back(v);
                ++stored;
                break;
            }
            case 2: {
                auto v = gen_value(k), w = gen_value(src.coin() ? k : src.below(6));
                pbt::log("append {} {} {}", key, show(v), show(w));
                repeated += lists.count(key);
                s->append(key, {v, w});
                lists[key].push_back(v);
                lists[key].push_back(w);
                ++stored;
                break;
            }
            case 3:
                pbt::log("increment c{}", k);
                s->increment(fmt::format("c{}", k));
                ++counts[fmt::format("c{}", k)];
                break;
            case 4: {
                auto t = std::make_unique<op::ValueStore>(std::move(*s));
                s = std::move(t);
                break;
            }
            default: break;
        }
        for (const auto& [n, v] : values) {
            std::visit([&](const auto& x) { check_scalar<std::decay_t<decltype(x)>>(*s, n, Val{v}); }, v);
            CHECK_THAT(s->user_set(n), "'{}' does not count as set", n);
        }
        for (const auto& [n, c] : counts) CHECK_THAT(s->get<int32_t>(n) == c, "the count '{}' is {}, expected {}", n, s->get<int32_t>(n).value_or(-1), c);
        for (const auto& [n, vs] : lists) {
            const auto l = s->get_list(n);
            CHECK_THAT(l && l->size() == vs.size() && std::equal(vs.begin(), vs.end(), l->begin()), "the list '{}' is not what was appended", n);
        }
        for (size_t q = 0; q < 6; ++q) {
            const auto n = fmt::format("k{}", q);
            if (values.count(n) == 0) CHECK_THAT(!s->get<bool>(n).has_value(), "'{}' has a value", n);
            if (lists.count(n) == 0) CHECK_THAT(!s->get_list(n).has_value(), "'{}' has a list", n);
        }
    }
    if (stored >= 3 && repeated >= 1) pbt::nontrivial();
    pbt::label("store history");
}
#endif

#if defined(PROP_O01) || defined(PROP_O02)
void prop(Source& src) {
#ifdef PROP_O02
    if (src.chance(1, 10)) {
        store_history(src);
        return;
    }
#endif
    gen_env(src);
    src.set_len(1, 6);
    auto m = gen_model(src);
    auto p = build(src, m);
    m.add_implied();
    size_t taken = 0, left = 0, rejected = 0, set = 0, absent = 0;
    bool parsed = false;
    while (src.next_op()) {
        if (parsed && src.chance(1, 6)) gen_env(src);
        if (parsed && src.chance(1, 6)) {  // one more option
            if (auto d = gen_decl(src, m)) {
                log_decl(*d);
                configure(declare(*p, d->names, src.below(2)), *d, d->dest);
                m.add(*d);
                pbt::label("declared after a parse");
            }
        }
        parsed = true;
        const auto a = gen_args(src, m);
        const bool by_list = src.chance(1, 4);
        pbt::log("parse{}", line(a));
        const Argv av(a, src.chance(1, 3));
        const auto want = m.parse(a);
        auto got = parse(*p, av, by_list);
#ifdef PROP_O01
        if (want.threw) {
            CHECK_THAT(!got.store, "an option without the value it needs was accepted");
            pbt::label("missing value");
            continue;
        }
        CHECK_THAT(got.store.has_value(), "parsing threw: {}", got.error);
        Strings wl;
        for (auto k : want.left) wl.push_back(a[k]);
        const auto gl = lefts(*p);
        CHECK_THAT(gl == wl, "left over:{}, expected:{}", line(gl), line(wl));
        CHECK_THAT(p->get_raw_argc() == int(wl.size()) + 1, "get_raw_argc() is {}, expected {}", p->get_raw_argc(), wl.size() + 1);
        const auto raw = p->get_raw_argv();
        CHECK_THAT(a[0] == raw[0], "the program in get_raw_argv() is '{}'", raw[0]);
        for (size_t k = 0; k < wl.size(); ++k) CHECK_THAT(wl[k] == raw[k + 1], "get_raw_argv()[{}] is '{}', expected '{}'", k + 1, raw[k + 1], wl[k]);
        taken += want.taken_values;
        left += want.left.size();
        rejected += want.rejected;
#else
        if (want.threw || !got.store) continue;  // O01
        // a store can be handed on
        auto s = std::make_unique<op::ValueStore>(std::move(*got.store));
        check_values(*s, want, m);
        taken += want.taken_values;
        for (const auto& d : m.decls) (want.values.count(d.dest) + want.lists.count(d.dest) != 0 ? set : absent) += 1;
#endif
    }
#ifdef PROP_O01
    if (taken >= 1 && left >= 2) pbt::nontrivial();
    if (rejected > 0) pbt::label("value not admitted", rejected);
#else
    (void)rejected;
    if (taken >= 1 && set >= 2 && absent >= 1) pbt::nontrivial();
#endif
}
#endif

#ifdef PROP_O03
// the whole outcome as text
auto snapshot(op::OptionParser& p, const Argv& av, const Model& m, bool by_list) -> string {
    auto o = parse(p, av, by_list);
    CHECK_THAT(av.intact(), "parsing modified the argument vector");
    if (!o.store) return "exception";
    string r;
    for (const auto& d : m.decls) {
        r += " " + d.dest + "=";
        if (d.action == Action::Append) {
            if (auto l = o.store->get_list(d.dest)) {
                for (const auto& v : *l) r += show(v) + ",";
            } else {
                r += "-";
            }
            continue;
        }
        auto put = [&](auto x) {
            if (auto v = o.store->get<decltype(x)>(d.dest)) {
                r += show(op::Value(*v));
            } else {
                r += "-";
            }
        };
        if (d.action == Action::Count) {
            put(int32_t());
            continue;
        }
        switch (d.type) {
            case op::Bool: put(bool()); break;
            case op::Int: put(int32_t()); break;
            case op::Long: put(int64_t()); break;
            case op::Float: put(float()); break;
            case op::Double: put(double()); break;
            default: put(string()); break;
        }
    }
    r += " left";
    for (const auto& x : lefts(p)) r += " '" + x + "'";
    return r;
}

// ---- a process in which nothing was parsed or declared before -----------------------------------------------------
// The zygote is forked before the first case touches a parser; for every request it forks a process that declares
// and parses once and sends the outcome back.
struct Message {
    string text;
    size_t at = 0;
    void put(const void* p, size_t n) { text.append(static_cast<const char*>(p), n); }
    void get(void* p, size_t n) {
        if (at + n > text.size()) _exit(3);
        memcpy(p, text.data() + at, n);
        at += n;
    }
    template <class T>
        requires std::is_trivially_copyable_v<T>
    void io(T& x, bool write) {
        write ? put(&x, sizeof x) : get(&x, sizeof x);
    }
    void io(string& x, bool write) {
        size_t n = x.size();
        io(n, write);
        if (!write) x.assign(n, ' ');
        write ? put(x.data(), n) : get(x.data(), n);
    }
    void io(Strings& x, bool write) {
        size_t n = x.size();
        io(n, write);
        x.resize(n);
        for (auto& e : x) io(e, write);
    }
    void io(Decl& d, bool write) {
        io(d.names, write);
        io(d.action, write);
        io(d.type, write);
        io(d.dest, write);
        io(d.has_default, write);
        io(d.default_kind, write);
        io(d.default_text, write);
        io(d.default_num, write);
        io(d.default_int, write);
        Strings c(d.choices.begin(), d.choices.end());
        io(c, write);
        d.choices = std::set<string>(c.begin(), c.end());
        io(d.retype, write);
        io(d.env, write);
        io(d.help, write);
    }
    void io(Model& m, bool write) {
        io(m.prefix, write);
        io(m.handler, write);
        size_t n = m.decls.size();
        io(n, write);
        m.decls.resize(n);
        for (auto& d : m.decls) io(d, write);
    }
};
auto write_all(int fd, const void* p, size_t n) -> bool {
    for (size_t done = 0; done < n;) {
        const auto k = ::write(fd, static_cast<const char*>(p) + done, n - done);
        if (k <= 0) return false;
        done += size_t(k);
    }
    return true;
}
auto read_all(int fd, void* p, size_t n) -> bool {
    for (size_t done = 0; done < n;) {
        const auto k = ::read(fd, static_cast<char*>(p) + done, n - done);
        if (k <= 0) return false;
        done += size_t(k);
    }
    return true;
}
auto send_text(int fd, const string& s) -> bool {
    const size_t n = s.size();
    return write_all(fd, &n, sizeof n) && write_all(fd, s.data(), n);
}
auto receive_text(int fd, string& s) -> bool {
    size_t n = 0;
    if (!read_all(fd, &n, sizeof n) || n > (1U << 26U)) return false;
    s.assign(n, ' ');
    return read_all(fd, s.data(), n);
}
int g_ask = -1, g_answer = -1;
void start_zygote() {
    static bool done = false;
    if (done) return;
    done = true;
    int ask[2], answer[2];
    if (pipe(ask) != 0 || pipe(answer) != 0) return;
    const pid_t pid = fork();
    if (pid < 0) return;
    if (pid > 0) {
        close(ask[0]);
        close(answer[1]);
        signal(SIGPIPE, SIG_IGN);
        g_ask = ask[1];
        g_answer = answer[0];
        return;
    }
    close(ask[1]);
    close(answer[0]);
    pbt::verbose = false;
    pbt::map_shm();  // of its own: nothing of it is part of the case
    signal(SIGPIPE, SIG_DFL);
    Message q;
    while (receive_text(ask[0], q.text)) {
        const pid_t kid = fork();
        if (kid == 0) {
            q.at = 0;
            Model m, shown;
            Strings a;
            q.io(m, false);
            q.io(shown, false);
            q.io(a, false);
            for (size_t k = 0; k < 4; ++k) {
                Strings e;
                q.io(e, false);
                set_env(k, e.empty() ? nullptr : e[0].c_str());
            }
            std::vector<std::vector<uint64_t>> none(1);
            auto plain = Source::replay(none);
            auto p = build(plain, m, true);
            (void)send_text(answer[1], snapshot(*p, Argv(a), shown, false));
            _exit(0);
        }
        int st = 0;
        if (kid > 0) waitpid(kid, &st, 0);
        if (kid < 0) {
            (void)send_text(answer[1], "no process");
        } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            (void)send_text(answer[1], "the parsing process died");
        }
    }
    _exit(0);
}
auto pristine_snapshot(const Model& m, const Model& shown, const Strings& a) -> string {
    Message q;
    Model c = m, s = shown;
    Strings args = a;
    q.io(c, true);
    q.io(s, true);
    q.io(args, true);
    for (size_t k = 0; k < 4; ++k) {
        Strings e;
        if (const char* t = getenv(env_name(k).c_str())) e.emplace_back(t);
        q.io(e, true);
    }
    string r;
    if (g_ask < 0 || !send_text(g_ask, q.text) || !receive_text(g_answer, r)) {
        g_ask = -1;
        return "no process";
    }
    return r;
}

void prop(Source& src) {
    start_zygote();
    gen_env(src);
    src.set_len(3, 14);
    struct Entry {
        Model m;        // as declared
        Model implied;  // with the implied options
        std::unique_ptr<op::OptionParser> p;
        size_t parses = 0;
    };
    std::vector<Entry> pool;
    auto add = [&] {
        Entry e;
        e.m = gen_model(src, false);
        e.implied = e.m;
        e.implied.add_implied();
        e.p = build(src, e.m);
        pool.push_back(std::move(e));
    };
    add();
    size_t again = 0, copies = 0, orders = 0;
    while (src.next_op()) {
        const size_t i = src.below(pool.size());
        switch (src.weighted({10, 2, 2, 2, 1, 2, 2})) {
            case 5: gen_env(src); break;
            case 6: {  // one more option
                auto& e = pool[i];
                if (e.parses == 0) break;
                auto d = gen_decl(src, e.implied, false);
                if (!d) break;
                pbt::log("parser {} gets one more", i);
                log_decl(*d);
                configure(declare(*e.p, d->names, src.below(2)), *d, d->dest);
                e.implied.add(*d);
                e.m = e.implied;
                break;
            }
            case 0: {
                auto& e = pool[i];
                const auto a = gen_args(src, e.implied);
                const bool by_list = src.chance(1, 4);
                pbt::log("parser {} parses{}", i, line(a));
                const Argv av(a), bv(a);
                const auto got = snapshot(*e.p, av, e.implied, by_list);
                auto fresh = build(src, e.m, true);
                const auto want = snapshot(*fresh, bv, e.implied, false);
                CHECK_THAT(got == want, "the outcome differs from that of a fresh parser: {}, expected: {}", got, want);
                if (e.parses++ > 0) ++again;
                if (src.chance(1, 60)) {
                    const auto alone = pristine_snapshot(e.m, e.implied, a);
                    if (alone != "no process") {
                        CHECK_THAT(want == alone, "the outcome differs from that in a process without a history: {}, expected: {}", want, alone);
                        pbt::label("compared with a process without a history");
                    }
                }
                // declared in another order
                if (e.m.handler == op::Error && src.coin()) {
                    Model n = e.m;
                    for (size_t k = n.decls.size(); k > 1; --k) std::swap(n.decls[k - 1], n.decls[src.below(k)]);
                    auto other = build(src, n, true);
                    const auto third = snapshot(*other, bv, e.implied, false);
                    CHECK_THAT(third == want, "the outcome depends on the order of the declarations: {}, expected: {}", third, want);
                    if (n.decls.size() > 1) ++orders;
                }
                break;
            }
            case 1:
                if (pool.size() >= 4) break;
                add();
                break;
            case 2: {
                if (pool.size() >= 4) break;
                pbt::log("parser {} = copy of {}", pool.size(), i);
                Entry e{pool[i].m, pool[i].implied, std::make_unique<op::OptionParser>(*pool[i].p), pool[i].parses};
                pool.push_back(std::move(e));
                ++copies;
                break;
            }
            case 3: {
                pbt::log("parser {} moves", i);
                auto q = std::make_unique<op::OptionParser>(std::move(*pool[i].p));
                pool[i].p = std::move(q);
                ++copies;
                break;
            }
            default:
                if (pool.size() < 2) break;
                pbt::log("parser {} is destroyed", i);
                pool.erase(pool.begin() + std::ptrdiff_t(i));
                break;
        }
    }
    if (again >= 1 && copies + orders >= 1) pbt::nontrivial();
    if (again > 0) pbt::label("repeated parse", again);
    if (copies > 0) pbt::label("copy or move", copies);
    if (orders > 0) pbt::label("other order of declarations", orders);
}
#endif

#ifdef PROP_O04
void prop(Source& src) {
    gen_env(src);
    if (src.chance(1, 40)) {
        src.set_len(20, 90);
    } else {
        src.set_len(2, 14);
    }
    // the prefix itself
    if (src.chance(1, 6)) {
        const char c = char(src.range(1, 126));
        const bool ok = strchr("-+#$&%", c) != nullptr;
        const size_t form = src.below(3);
        pbt::log("prefix {} by constructor {}", int(c), form);
        bool threw = false;
        try {
            if (form == 0) op::OptionParser q(c);
            if (form == 1) op::OptionParser q(c, op::Error);
            if (form == 2) op::OptionParser q(c, op::Replace);
        } catch (const std::logic_error&) {
            threw = true;
        }
        CHECK_THAT(threw == !ok, "the prefix {} was {}", int(c), threw ? "rejected" : "taken");
    }
    Model m;
    g_many = src.chance(1, 40) ? src.range(5, 40) : 0;
    m.prefix = gen_prefix(src);
    if (src.chance(1, 3)) m.handler = op::Replace;
    pbt::log("prefix {} {}", m.prefix, m.handler == op::Replace ? "replacing" : "");
    const size_t form = src.below(4);
    auto p = make_parser(m.prefix, m.handler, form);
    auto twin = make_parser(m.prefix, m.handler, form);  // gets the valid declarations only
    size_t rejected = 0, taken = 0;
    bool all_complete = true;
    std::vector<std::pair<op::Option*, op::Option*>> refs;
    while (src.next_op()) {
        const bool rogue = src.coin();
        Decl d;
        if (!rogue) {
            auto g = gen_decl(src, m);
            if (!g) continue;
            d = *g;
        } else {
            // any names
            const size_t n = src.below(4);
            for (size_t k = 0; k < n; ++k) {
                switch (src.below(7)) {
                    case 0: d.names.push_back(src.pick<string>({"", "a", "alpha", "=", " -a", string(2, m.prefix), string(2, m.prefix) + "a"})); break;
                    case 1: d.names.push_back(gen_name(src, src.pick<char>({'-', '+', '/', '%'}), src.coin())); break;
                    case 2:
                        if (!m.decls.empty()) {
                            const auto& o = m.decls[src.below(m.decls.size())];
                            d.names.push_back(o.names[src.below(o.names.size())]);
                            break;
                        }
                        [[fallthrough]];
                    default: d.names.push_back(gen_name(src, m.prefix, src.coin()));
                }
            }
            d.action = Action::Store;
            d.type = op::Int;
            d.dest = fmt::format("r{}", m.decls.size());
            d.has_default = src.coin();
            d.default_text = "77";
            if (src.chance(1, 6)) {  // no meaning: found when arguments are parsed
                switch (src.below(3)) {
                    case 0: d.action = Action::Null; break;
                    case 1: d.dest.clear(); break;
                    default:
                        d.choices = {"a"};
                        d.retype = true;
                }
            }
        }
        log_decl(d);
        const bool ok = m.accepts(d.names);
        const size_t how = src.below(2);
        bool threw = false;
        op::Option* o = nullptr;
        try {
            o = &declare(*p, d.names, how);
        } catch (const std::logic_error& e) {
            threw = true;
        }
        CHECK_THAT(threw == !ok, "the declaration was {}", threw ? "rejected" : "taken although a name is malformed, taken or missing");
        if (!ok) {
            ++rejected;
            continue;
        }
        ++taken;
        auto& t = declare(*twin, d.names, how);
        configure(*o, d, d.dest);
        configure(t, d, d.dest);
        refs.emplace_back(o, &t);
        m.add(d);
        all_complete = all_complete && Model::complete(m.decls.back());
        CHECK_THAT(o->names().size() == d.names.size() && std::equal(d.names.begin(), d.names.end(), o->names().begin()), "the option has other names than declared");
        CHECK_THAT(o->action() == d.action && o->type() == d.type && o->default_value() == t.default_value() && o->help() == d.help && o->choices() == d.choices,
                   "the option does not keep what was declared");
    }
    // options of a rejected declaration are nowhere to be seen
    const auto h1 = p->format_help(), h2 = twin->format_help();
    CHECK_THAT(h1 == h2, "after a rejected declaration the help text is '{}', without it '{}'", h1, h2);
    auto im = m;
    im.add_implied();
    for (size_t k = 0; k < 3; ++k) {
        const auto a = gen_args(src, im);
        pbt::log("parse{}", line(a));
        const Argv av(a);
        auto got = parse(*p, av, false), ref = parse(*twin, av, false);
        if (!all_complete) {
            CHECK_THAT(!got.store, "an option without a meaning was accepted");
            pbt::label("incomplete option");
            continue;
        }
        CHECK_THAT(got.store.has_value() == ref.store.has_value(), "parsing behaves differently after a rejected declaration");
        const auto want = im.parse(a);
        CHECK_THAT(want.threw == !got.store, "parsing {}: {}", got.store ? "went through" : "threw", got.error);
        if (!got.store) continue;
        CHECK_THAT(lefts(*p) == lefts(*twin), "other arguments are left over after a rejected declaration");
        check_values(*got.store, want, im);
    }
    if (rejected >= 1 && taken >= 1) pbt::nontrivial();
    if (rejected > 0) pbt::label("rejected declaration", rejected);
}
#endif

#ifdef PROP_O05
auto lines_of(const string& s) -> Strings {
    Strings r;
    std::istringstream in(s);
    string l;
    while (std::getline(in, l)) r.push_back(l);
    return r;
}
// the name as a word of its own
auto has_name(const string& l, const string& name) -> bool {
    for (size_t at = l.find(name); at != string::npos; at = l.find(name, at + 1)) {
        const bool before = at == 0 || l[at - 1] == ' ' || l[at - 1] == ',' || l[at - 1] == '[';
        const size_t e = at + name.size();
        const bool after = e == l.size() || strchr(" ,=<]", l[e]) != nullptr;
        if (before && after) return true;
    }
    return false;
}
auto captured(void (*f)(op::OptionParser&), op::OptionParser& p) -> string {
    fflush(stdout);
    const int saved = dup(1);
    char name[] = "/tmp/pbt_optparse_XXXXXX";
    const int fd = mkstemp(name);
    unlink(name);
    dup2(fd, 1);
    f(p);
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    string r;
    char buf[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n = 0; (n = read(fd, buf, sizeof buf)) > 0;) r.append(buf, size_t(n));
    close(fd);
    return r;
}

void prop(Source& src) {
    gen_env(src);
    src.set_len(2, 12);
    Model m;
    g_many = 0;
    m.prefix = gen_prefix(src);
    auto p = make_parser(m.prefix, m.handler, src.below(4));
    pbt::log("prefix {}", m.prefix);
    string program, usage, version;
    std::map<string, string> extra_help;  // name of an implied option -> help text given
    bool parsed = false;
    size_t texts = 0;
    auto add_one = [&](const char* n) {  // the model of add_help_option and the like
        const string s = string(1, m.prefix) + n[0], l = m.longp() + n;
        if (m.names.count(s) != 0 || m.names.count(l) != 0) return;
        Decl d;
        d.names = {s, l};
        d.action = Action::StoreTrue;
        d.type = op::Bool;
        d.dest = n;
        m.add(d);
    };
    auto check_texts = [&] {
        const auto help = p->format_help();
        const auto ls = lines_of(help);
        for (const auto& d : m.decls) {
            bool found = false;
            for (const auto& l : ls) {
                bool here = l.find(type_name(d.type)) != string::npos && (d.help.empty() || l.find(d.help) != string::npos);
                for (const auto& n : d.names) here = here && has_name(l, n);
                found |= here;
            }
            CHECK_THAT(found, "the help text has no line with the names{}, the type {} and the help '{}': {}", line(d.names), type_name(d.type), d.help, help);
        }
        const auto u = p->format_usage();
        if (!usage.empty()) {
            CHECK_THAT(u == usage, "the usage text is '{}', declared was '{}'", u, usage);
            CHECK_THAT(p->usage() == usage, "usage() is '{}'", p->usage());
        } else {
            CHECK_THAT(u.find(program) != string::npos, "the usage text '{}' does not name the program '{}'", u, program);
            for (const auto& d : m.decls) CHECK_THAT(has_name(u, d.names[0]), "the usage text '{}' does not name the option {}", u, d.names[0]);
        }
        CHECK_THAT(help.find(trim(u)) != string::npos, "the help text does not contain the usage text");
        const auto v = p->format_verison();
        if (!version.empty()) {
            CHECK_THAT(v == version, "the version text is '{}', declared was '{}'", v, version);
            CHECK_THAT(p->version() == version, "version() is '{}'", p->version());
        } else {
            CHECK_THAT(v.find(program) != string::npos, "the version text '{}' does not name the program '{}'", v, program);
        }
        CHECK_THAT(p->program() == program, "program() is '{}', expected '{}'", p->program(), program);
        CHECK_THAT(p->format_help() == help && p->format_usage() == u && p->format_verison() == v, "the texts change from call to call");
        ++texts;
        if (src.below(16) == 15) {
            CHECK_THAT(captured([](op::OptionParser& q) { q.print_help(); }, *p) == help, "print_help() prints something else");
            CHECK_THAT(captured([](op::OptionParser& q) { q.print_usage(); }, *p) == u, "print_usage() prints something else");
            CHECK_THAT(captured([](op::OptionParser& q) { q.print_version(); }, *p) == v, "print_version() prints something else");
        }
    };
    while (src.next_op()) {
        switch (src.weighted({6, 1, 1, 1, 1, 1, 1, 4, 4})) {
            case 0: {
                const size_t many = src.chance(1, 60) ? src.range(20, 60) : 1;
                g_many = many == 1 ? 0 : many;
                for (size_t k = 0; k < many; ++k) {
                    auto d = gen_decl(src, m);
                    if (!d) continue;
                    if (!d->help.empty() && src.chance(1, 30)) d->help += string(src.range(60, 3000), 'z');
                    log_decl(*d);
                    auto& o = declare(*p, d->names, src.below(2));
                    configure(o, *d, d->dest);
                    m.add(*d);
                }
                g_many = 0;
                break;
            }
            case 1:
                program = src.pick<const char*>({"prog", "a b", "tool{}", "x"});
                if (src.chance(1, 20)) program += string(src.range(60, 3000), 'p');
                pbt::log("program {}", program);
                p->program(program);
                break;
            case 2:
                usage = src.pick<const char*>({"usage: mine\n", "use it {}", "one\ntwo\n"});
                if (src.chance(1, 20)) usage += string(src.range(60, 3000), 'u');
                pbt::log("usage");
                p->usage(usage);
                break;
            case 3:
                version = src.pick<const char*>({"1.2.3", "tool 0.1", "v%s"});
                if (src.chance(1, 20)) version += string(src.range(60, 3000), '7');
                pbt::log("version {}", version);
                p->version(version);
                break;
            case 4:
            case 5: {
                if (parsed) break;
                const bool help = src.coin();
                const char* msg = src.pick<const char*>({"", "own text"});
                pbt::log("add {} option '{}'", help ? "help" : "usage", msg);
                const auto before = m.decls.size();
                if (help) {
                    p->add_help_option(msg);
                    add_one("help");
                } else {
                    p->add_usage_option(msg);
                    add_one("usage");
                }
                if (m.decls.size() > before) m.decls.back().help = msg;
                break;
            }
            case 6: {
                if (parsed) break;
                const char* v = src.pick<const char*>({"", "4.5.6"});
                pbt::log("add version option '{}'", v);
                p->add_version_option(v);
                add_one("version");
                if (*v != 0) version = v;
                break;
            }
            case 7: {
                auto im = m;
                im.add_implied();
                auto a = gen_args(src, im);
                for (const char* n : {"help", "usage", "version"}) {
                    if (src.below(3) != 0) continue;
                    const auto at = a.begin() + std::ptrdiff_t(1 + src.below(a.size()));
                    a.insert(at, src.coin() ? m.longp() + n : string(1, m.prefix) + n[0]);
                }
                a[0] = src.pick<const char*>({"prog", "prog", "/usr/bin/tool", "x y", ""});
                pbt::log("parse {}{}", a[0], line(a));
                const Argv av(a);
                const auto want = im.parse(a);
                auto got = parse(*p, av, false);
                parsed = true;
                m = im;
                if (program.empty()) program = a[0];
                if (want.threw || !got.store) break;  // O01
                for (const char* n : {"help", "usage", "version"}) {
                    auto it = want.values.find(n);
                    auto own = std::find_if(m.decls.begin(), m.decls.end(), [&](const Decl& d) { return d.dest == n; });
                    if (own == m.decls.end() || own->action != Action::StoreTrue || own->names.size() != 2 || (it != want.values.end() && it->second.v.index() != 0)) continue;
                    if (std::count_if(m.decls.begin(), m.decls.end(), [&](const Decl& d) { return d.dest == n; }) != 1) continue;
                    const auto g = got.store->get<bool>(n);
                    CHECK_THAT(g.has_value() == (it != want.values.end()), "the request for {} was {}", n, g ? "made up" : "not recognised");
                    if (g && !it->second.any) CHECK_THAT(*g == std::get<bool>(it->second.v), "the request for {} is {}", n, *g);
                    if (g) pbt::label("help, usage or version requested");
                }
                break;
            }
            default: check_texts(); break;
        }
    }
    check_texts();
    if (texts >= 2 && m.decls.size() >= 2) pbt::nontrivial();
}
#endif
}  // namespace

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
int main(int argc, char** argv) { return pbt::engine_main(argc, argv, {{PBT_STR(PBT_PROP), prop, true}}); }
