// C18: command lines and tools.
//
// ArgParser is run on generated option tables and command lines against a model of what a command line means.  The tools
// are run as processes on generated inputs; what they print and how they end is compared with the library.
#include "engine.hpp"
#include "sqlast.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/util/ArgParser.hpp>
#include "parse/ASTDumper.hpp"
#include "parse/Sema.hpp"
#include <cmath>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

using vp::Case;
using namespace ast;

namespace {

/*----- Command lines ----------------------------------------------------------------------------------------------------*/
enum Kind { BOOL, INT, LONG, LLONG, UINT, ULONG, ULLONG, FLOAT, DOUBLE, LDOUBLE, STR, LIST, NKINDS };
const char *KINDS[]{"bool", "int", "long", "long long", "unsigned", "unsigned long", "unsigned long long", "float", "double", "long double", "string", "list"};

struct Opt { Kind kind; std::string s, l; /* empty: none */ bool group; };

std::string show(const std::vector<std::string_view> &v) { std::string r = "["; for (auto x : v) r += "<" + std::string(x) + ">"; return r + "]"; }
template<typename T> std::string showf(T v) { char b[64]; if constexpr (std::same_as<T, long double>) snprintf(b, sizeof b, "%La", v); else snprintf(b, sizeof b, "%a", double(v)); return b; }

/// A value of the kind: its spelling and what the callback must be given.
std::pair<std::string, std::string> value(Case &c, Kind k) {
    auto sint = [&](unsigned bits) {
        int64_t v = c.integer(bits);
        std::string t = std::to_string(v), s = t;
        if (v >= 0 and c.chance(1, 8)) { s = "+" + s; c.label("plus sign"); }
        if (c.chance(1, 8)) { size_t at = s[0] == '-' or s[0] == '+'; s.insert(at, "00"); }
        return std::make_pair(s, t);
    };
    auto uint = [&](unsigned bits) {
        uint64_t v = uint64_t(c.integer(64)); if (bits < 64) v &= (uint64_t(1) << bits) - 1;
        if (c.chance(1, 6)) v = bits < 64 ? (uint64_t(1) << bits) - 1 : UINT64_MAX;
        std::string t = std::to_string(v);
        return std::make_pair(c.chance(1, 8) ? "0" + t : t, t);
    };
    auto flt = [&](auto zero) {
        using T = decltype(zero);
        char b[128]; double v;
        switch (c.draw(3)) {
            case 0: v = double(c.integer(20)); snprintf(b, sizeof b, "%.0f", v); break;
            case 1: v = double(c.integer(30)) / 1024; snprintf(b, sizeof b, "%f", v); break;
            case 2: v = double(c.integer(30)) * std::pow(10., double(c.range(-20, 20))); snprintf(b, sizeof b, "%.12e", v); break;
            case 3: v = double(c.integer(40)) / 4096; snprintf(b, sizeof b, "%a", v); break;
        }
        T want; if constexpr (std::same_as<T, float>) want = strtof(b, nullptr); else if constexpr (std::same_as<T, double>) want = strtod(b, nullptr); else want = strtold(b, nullptr);
        return std::make_pair(std::string(b), showf(want));
    };
    switch (k) {
        case INT: return sint(32);
        case LONG: case LLONG: return sint(64);
        case UINT: return uint(32);
        case ULONG: case ULLONG: return uint(64);
        case FLOAT: return flt(0.f);
        case DOUBLE: return flt(0.);
        case LDOUBLE: return flt(0.l);
        case STR: { std::string s = c.oneof<const char*>({"x", "", "--", "-h", "--help", "a,b", "0", "a b", "-", "--x=3"}); return {s, "<" + s + ">"}; }
        case LIST: {
            std::string s, w = "["; size_t n = c.draw(4);
            if (n == 0) return {"", "[]"};
            for (size_t i = 0; i != n; ++i) { std::string x = c.oneof<const char*>({"x", "", "--", "y z", "-a", "="}); if (n == 1 and x.empty()) x = "q"; if (i) s += ","; s += x; w += "<" + x + ">"; }
            return {s, w + "]"};
        }
        default: return {"", "1"};
    }
}

void add(m::ArgParser &AP, const Opt &o, size_t i, std::vector<std::string> &seen) {
    const char *g = o.group ? "Group" : nullptr, *s = o.s.empty() ? nullptr : o.s.c_str(), *l = o.l.empty() ? nullptr : o.l.c_str();
    auto log = [i, &seen](const std::string &v) { seen.push_back(std::to_string(i) + "=" + v); };
    switch (o.kind) {
#define A(K, T, X) case K: AP.add<T>(g, s, l, "description", [log](T v) { log(X); }); break
        A(BOOL, bool, std::to_string(v)); A(INT, int, std::to_string(v)); A(LONG, long, std::to_string(v)); A(LLONG, long long, std::to_string(v));
        A(UINT, unsigned, std::to_string(v)); A(ULONG, unsigned long, std::to_string(v)); A(ULLONG, unsigned long long, std::to_string(v));
        A(FLOAT, float, showf(v)); A(DOUBLE, double, showf(v)); A(LDOUBLE, long double, showf(v));
        A(STR, const char*, "<" + std::string(v) + ">"); A(LIST, std::vector<std::string_view>, show(v));
#undef A
        default: break;
    }
}

std::vector<Opt> gen_opts(Case &c) {
    std::vector<Opt> opts;
    for (size_t n = 1 + c.draw(7), i = 0; i != n; ++i) {
        Opt o; o.kind = Kind(c.draw(NKINDS - 1)); o.group = c.chance(1, 3);
        // names which are prefixes of one another
        if (c.chance(2, 3)) o.s = "-" + std::string(1 + c.draw(1), char('a' + i));
        if (o.s.empty() or c.chance(2, 3)) o.l = "--" + std::string(c.oneof<const char*>({"opt", "option", "o", "opt-"})) + std::string(1 + i / 2, i % 2 ? 'y' : 'x');
        bool dup = false; for (auto &p : opts) dup |= (not o.l.empty() and p.l == o.l) or (not o.s.empty() and p.s == o.s);
        if (dup) continue;
        opts.push_back(o);
    }
    return opts;
}

struct Silence { // the parser writes to std::cerr
    std::ostringstream os; std::streambuf *old = std::cerr.rdbuf(os.rdbuf());
    ~Silence() { std::cerr.rdbuf(old); }
};

VP_PROP("C18", "options", 60000, 600000) {
    auto opts = gen_opts(c);
    std::vector<std::string> seen, want, wantpos;
    m::ArgParser AP;
    for (size_t i = 0; i != opts.size(); ++i) { add(AP, opts[i], i, seen); c.log() << i << ": " << opts[i].s << " " << opts[i].l << " " << KINDS[opts[i].kind] << "\n"; }
    bool values = false, unknown = false;
    std::deque<std::deque<std::string>> cmdlines; // positional arguments refer to the command line
    for (size_t calls = 1 + c.chance(1, 6); calls; --calls) { // one after another
        auto &line = cmdlines.emplace_back(); line.push_back("program"); std::string warned;
        bool rest = false;
        for (size_t n = c.size(12); n; --n) {
            if (rest) { std::string s = c.oneof<const char*>({"x", "--", "-", "--opt", "-a", ""}); if (c.coin()) { auto &o = c.pick(opts); s = o.s.empty() ? o.l : o.s; } line.push_back(s); wantpos.push_back(s); continue; }
            switch (c.weighted({8, 3, 2, 1})) {
                case 0: {
                    size_t i = c.draw(opts.size() - 1); auto &o = opts[i];
                    line.push_back(o.s.empty() or (not o.l.empty() and c.coin()) ? o.l : o.s);
                    if (o.kind == BOOL) { want.push_back(std::to_string(i) + "=1"); break; }
                    auto [s, w] = value(c, o.kind); line.push_back(s); want.push_back(std::to_string(i) + "=" + w); values = true;
                    c.label(KINDS[o.kind]);
                    break;
                }
                case 1: { std::string s = c.oneof<const char*>({"x", "", "-", "file.sql", "op", "5", "-5"}); line.push_back(s); wantpos.push_back(s); break; }
                case 2: {
                    std::string s = c.oneof<const char*>({"--unknown", "--opt", "--OPTX", "--optx=3", "-zz", "---", "-", "-1", "--o"});
                    bool known = false; for (auto &o : opts) known |= o.s == s or o.l == s;
                    if (known) break;
                    line.push_back(s); unknown = true;
                    if (s.substr(0, 2) == "--") warned += "warning: ignore unknown option " + s + "\n"; else wantpos.push_back(s);
                    break;
                }
                case 3: line.push_back("--"); rest = true; c.label("--"); break;
            }
        }
        std::vector<const char*> argv; c.log() << "line:"; for (auto &s : line) { argv.push_back(s.c_str()); c.log() << ' ' << vp::quote(s); } c.log() << "\n"; argv.push_back(nullptr);
        Silence sil;
        AP.parse_args(int(line.size()), argv.data());
        VP_REQUIRE(c, sil.os.str() == warned, "warnings", "printed " << vp::quote(sil.os.str()) << " instead of " << vp::quote(warned));
        VP_REQUIRE(c, AP.args().size() == wantpos.size(), "positional-number", AP.args().size() << " positional arguments instead of " << wantpos.size());
    }
    for (size_t i = 0; i != wantpos.size(); ++i)
        VP_REQUIRE(c, AP.args()[i] == wantpos[i], "positional", "positional argument " << i << " is " << vp::quote(AP.args()[i]) << " instead of " << vp::quote(wantpos[i]));
    VP_REQUIRE(c, seen.size() == want.size(), "values-number", seen.size() << " options were given a value instead of " << want.size());
    for (size_t i = 0; i != want.size(); ++i) VP_REQUIRE(c, seen[i] == want[i], "value", "the " << i << "-th value given to an option is " << seen[i] << " instead of " << want[i]);
    c.nontrivial(values and want.size() + wantpos.size() > 2);
    c.label_if(unknown, "unknown options");
    // all options are listed
    std::ostringstream os; AP.print_args(os);
    std::istringstream is(os.str()); std::string ln; size_t lines = 0;
    while (std::getline(is, ln)) {
        if (ln[0] != ' ') continue;
        ++lines;
        std::istringstream words(ln); std::string a, b; words >> a >> b;
        bool found = false; for (auto &o : opts) found |= (o.s == a and (o.l.empty() or o.l == b)) or (o.s.empty() and o.l == a);
        VP_REQUIRE(c, found, "usage", "no such option: " << vp::quote(ln));
    }
    VP_REQUIRE(c, lines == opts.size(), "usage-lines", lines << " options listed instead of " << opts.size());
}

VP_PROP("C18", "options-rejected", 4000, 40000) {
    Opt o{}; o.kind = Kind(1 + c.draw(LDOUBLE - 1)); o.l = "--opt";
    std::string s;
    const bool integral = o.kind <= ULLONG, uns = o.kind >= UINT and o.kind <= ULLONG;
    const unsigned bits = o.kind == INT or o.kind == UINT ? 32 : 64;
    bool missing = false;
    switch (c.draw(5)) {
        case 0: s = c.oneof<const char*>({"abc", "", "x1", "--", "-", "+", ".", ",", "--opt"}); break;
        case 1: { s = value(c, o.kind).first + c.oneof<const char*>({"abc", " ", "x", ",", "%", ";", "-1"}); c.label("trailing characters"); break; } // trailing characters
        case 2: // out of range
            if (integral) { __int128 lim = uns ? __int128(1) << bits : __int128(1) << (bits - 1); lim += c.draw(5); if (not uns and c.coin()) lim = -lim - 1;
                bool neg = lim < 0; unsigned __int128 u = neg ? -lim : lim; std::string t; while (u) { t.insert(0, 1, char('0' + unsigned(u % 10))); u /= 10; } s = (neg ? "-" : "") + t; }
            else { s = o.kind == FLOAT ? "1e39" : o.kind == DOUBLE ? "1e309" : "1e4933"; if (c.coin()) s = "-" + s; }
            c.label("out of range");
            break;
        case 3: if (uns) { s = "-" + std::to_string(1 + c.draw(1000)); c.label("negative"); } else s = integral ? "1.5" : "1.5.5"; break;
        case 4: s = integral ? c.oneof<const char*>({"1e5", "0x", "1.0", "1_000"}) : c.oneof<const char*>({"1e", "1e+", "0x.p", "1,5", "e5"}); break;
        case 5: missing = true; o.kind = Kind(1 + c.draw(NKINDS - 2)); c.label("missing"); break;
    }
    c.log() << KINDS[o.kind] << " " << (missing ? "missing" : vp::quote(s)) << "\n";
    std::cout.flush(); std::cerr.flush();
    int fd[2]; if (pipe(fd)) c.discard();
    pid_t p = fork();
    if (p < 0) c.discard();
    if (p == 0) {
        int null = open("/dev/null", O_WRONLY); dup2(null, 1); dup2(null, 2);
        std::vector<std::string> seen; m::ArgParser AP; add(AP, o, 0, seen);
        // exit() is what the parser does; leave without running what is registered by the harness
        on_exit([](int st, void*) { _exit(st); }, nullptr);
        const char *argv[]{"program", "--opt", missing ? nullptr : s.c_str(), nullptr};
        AP.parse_args(missing ? 2 : 3, argv);
        std::string t = seen.empty() ? "nothing" : seen[0]; if (write(fd[1], t.data(), t.size())) { }
        _exit(0);
    }
    close(fd[1]);
    std::string t; char b[256]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) t.append(b, k);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    c.nontrivial(); c.label(KINDS[o.kind]);
    VP_REQUIRE(c, WIFEXITED(st) and WEXITSTATUS(st) == 1, "accepted", "the value " << (missing ? "missing" : vp::quote(s)) << " for a " << KINDS[o.kind] << " is not rejected; taken as " << t << "; status " << st);
}

/*----- Tools ------------------------------------------------------------------------------------------------------------*/
std::string slurp(const char *path) { std::ifstream in(path, std::ios::binary); std::ostringstream os; os << in.rdbuf(); return os.str(); }

std::string tool(const char *name) {
    static std::string dir = [] { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); std::string s(b, n > 0 ? n : 0); return s.substr(0, s.rfind('/')); }();
    return dir + "/tool_" + name;
}

struct Run { int status; std::string out, err; };

extern "C" char **environ;

Run run(Case &c, const char *name, const std::vector<std::string> &args, const std::string &input) {
    { std::ofstream o("vp-in", std::ios::binary); o << input; }
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "vp-in", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, "vp-out", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, "vp-err", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    std::string exe = tool(name);
    std::vector<char*> argv{exe.data()}; for (auto &a : args) argv.push_back(const_cast<char*>(a.c_str())); argv.push_back(nullptr);
    static char o1[] = "ASAN_OPTIONS=detect_leaks=0:handle_segv=1:exitcode=99:symbolize=0", o2[] = "UBSAN_OPTIONS=halt_on_error=1:exitcode=98:print_stacktrace=0";
    char *env[]{o1, o2, nullptr};
    pid_t p; int e = posix_spawn(&p, exe.c_str(), &fa, nullptr, argv.data(), env);
    posix_spawn_file_actions_destroy(&fa);
    if (e) { fprintf(stderr, "cannot run %s: %s\n", exe.c_str(), strerror(e)); abort(); }
    int st; waitpid(p, &st, 0);
    Run r{st, slurp("vp-out"), slurp("vp-err")};
    VP_REQUIRE(c, WIFEXITED(st) and WEXITSTATUS(st) < 90, "crash", name << " ended with status " << st << "\n" << r.err.substr(0, 2000));
    r.status = WEXITSTATUS(st);
    return r;
}

/// Names of nested queries are numbered over the lifetime of a process.
std::string renumber(const std::string &s) {
    std::string r; std::map<std::string, size_t> seen;
    for (size_t i = 0; i < s.size();) {
        if (s.compare(i, 3, "$q_") == 0) {
            size_t e = i + 3; while (e < s.size() and isdigit((unsigned char) s[e])) ++e;
            r += "$q_" + std::to_string(seen.emplace(s.substr(i, e - i), seen.size()).first->second); i = e;
        } else r += s[i++];
    }
    return r;
}

/// Compares what a tool did with what it should have done.
void compare(Case &c, const char *name, const Run &r, const std::string &out, const std::string &err, bool failed) {
    VP_REQUIRE(c, r.out == out, std::string(name) + "-output", name << " printed\n" << vp::quote(r.out) << "\ninstead of\n" << vp::quote(out));
    VP_REQUIRE(c, renumber(r.err) == renumber(err), std::string(name) + "-errors", name << " printed as errors\n" << vp::quote(r.err) << "\ninstead of\n" << vp::quote(err));
    VP_REQUIRE(c, r.status == (failed ? EXIT_FAILURE : EXIT_SUCCESS), std::string(name) + "-status", name << " ended with status " << r.status << " after " << (failed ? "an error" : "no error") << "\n" << r.err);
    c.label(failed ? "failure" : "success");
}

struct Input { std::string text, name; bool color; };

/// Writes \p text where the tool finds it.
std::string place(Case &c, const std::string &text, const char *file) {
    if (c.chance(1, 3)) { c.label("standard input"); return "-"; }
    std::ofstream o(file, std::ios::binary); o << text;
    return file;
}

std::vector<std::string> cmdline(Case &c, std::vector<std::string> opts, const std::vector<std::string> &files) {
    if (c.chance(1, 6)) opts.push_back("--no-such-option");
    std::vector<std::string> l;
    if (c.chance(1, 4)) { l = opts; l.push_back("--"); l.insert(l.end(), files.begin(), files.end()); }
    else if (c.coin()) { l = opts; l.insert(l.end(), files.begin(), files.end()); }
    else { l = files; l.insert(l.end(), opts.begin(), opts.end()); }
    c.log() << "arguments:"; for (auto &a : l) c.log() << ' ' << a; c.log() << "\n";
    return l;
}
std::string warnings(const std::vector<std::string> &l) { for (auto &a : l) { if (a == "--") break; if (a == "--no-such-option") return "warning: ignore unknown option --no-such-option\n"; } return ""; }

std::string gen_sql(Case &c) {
    Gen g(c); g.budget = 20;
    std::string s;
    for (size_t n = 1 + c.draw(3); n; --n) { g.t.clear(); g.command(); s += c.chance(1, 3) ? mutate(c, g) : spell(c, g.t, c.coin()); s += "\n"; }
    return s;
}

/// Wrong command lines, the help, files which do not exist.
bool special(Case &c, const char *name, bool many) {
    switch (c.weighted({20, 1, 1, 1})) {
        default: return false;
        case 1: {
            auto r = run(c, name, {c.oneof<const char*>({"-h", "--help"})}, "SELECT");
            VP_REQUIRE(c, r.status == 0 and r.err.empty() and r.out.find("USAGE") != r.out.npos and r.out.find("--color") != r.out.npos and r.out.find("--help") != r.out.npos, "help", name << " does not show its help\n" << r.out << r.err);
            c.log() << "help\n"; break;
        }
        case 2: {
            if (many) return false;
            std::vector<std::string> a; if (c.coin()) { a.push_back("-"); a.push_back("-"); }
            auto r = run(c, name, a, "SELECT 1;");
            VP_REQUIRE(c, r.status == 1 and r.out.empty() and r.err.find("USAGE") != r.err.npos, "usage", name << " accepts " << a.size() << " files\n" << r.out << r.err);
            c.log() << a.size() << " files\n"; break;
        }
        case 3: {
            auto r = run(c, name, {"no-such-file"}, "SELECT 1;");
            VP_REQUIRE(c, r.status == 1 and r.err.find("Failed to open the file 'no-such-file'") != r.err.npos, "missing-file", name << " ends with status " << r.status << " although the file does not exist\n" << r.out << r.err);
            c.log() << "missing file\n"; break;
        }
    }
    c.label("special command line"); return true;
}

VP_PROP("C18", "lex", 8000, 80000) {
    if (special(c, "lex", false)) return;
    const std::string text = c.coin() ? gen_bytes(c) : gen_sql(c); const bool color = c.chance(1, 4);
    c.log() << vp::quote(text) << "\n";
    const std::string file = place(c, text, "vp-file.sql");
    auto l = cmdline(c, color ? std::vector<std::string>{"--color"} : std::vector<std::string>{}, {file});
    std::ostringstream out, err; m::Diagnostic diag(color, out, err);
    std::istringstream in(text); m::ast::Lexer lexer(diag, m::Catalog::Get().get_pool(), file.c_str(), in);
    while (auto t = lexer.next()) { diag(t.pos) << t.text << ' ' << t.type << std::endl; c.nontrivial(); }
    compare(c, "lex", run(c, "lex", l, text), out.str(), warnings(l) + err.str(), diag.num_errors());
}

VP_PROP("C18", "parse", 8000, 80000) {
    if (special(c, "parse", false)) return;
    const std::string text = c.chance(1, 10) ? gen_bytes(c) : gen_sql(c); const bool color = c.chance(1, 4), ast = c.chance(1, 3);
    c.log() << vp::quote(text) << "\n";
    const std::string file = place(c, text, "vp-file.sql");
    std::vector<std::string> o; if (ast) o.push_back("--ast"); if (color) o.push_back("--color");
    auto l = cmdline(c, o, {file});
    std::ostringstream out, err; m::Diagnostic diag(color, out, err);
    std::istringstream in(text); m::ast::Lexer lexer(diag, m::Catalog::Get().get_pool(), file.c_str(), in);
    m::ast::Parser parser(lexer);
    m::ast::ASTPrinter printer(out);
    while (parser.token()) {
        auto cmd = parser.parse();
        if (ast) cmd->dump(out); else { printer(*cmd); out << "\n"; }
        c.nontrivial();
    }
    compare(c, "parse", run(c, "parse", l, text), out.str(), warnings(l) + err.str(), diag.num_errors());
}

VP_PROP("C18", "check", 12000, 120000) {
    if (special(c, "check", true)) return;
    m::Catalog::Clear(); m::Catalog::Get().timer().clear();
    struct Guard { ~Guard() { m::Catalog::Clear(); m::Catalog::Get().timer().clear(); m::Options::Get().quiet = false; } } guard;
    const bool quiet = c.coin(), color = c.chance(1, 4);
    std::vector<std::string> files, texts; std::string stdin_text; bool used = false;
    for (size_t n = 1 + c.draw(2), i = 0; i != n; ++i) {
        std::string s;
        if (i == 0 and not c.chance(1, 8)) {
            s = "CREATE DATABASE db; USE db; CREATE TABLE R ( a INT(4), b CHAR(5), x DOUBLE, d DATE, t1 DECIMAL(8,2), _ BOOL );\n";
            if (c.coin()) s += "CREATE TABLE a ( a INT(8) PRIMARY KEY, b INT(4) REFERENCES R (a), COUNT VARCHAR(3) UNIQUE NOT NULL );\n";
        }
        for (size_t k = c.draw(4); k; --k) switch (c.draw(4)) {
            case 0: { Gen g(c); g.budget = 20; g.rich = true; g.command(); s += (c.chance(1, 4) ? mutate(c, g) : spell(c, g.t, false)) + "\n"; break; }
            case 1: s += c.oneof<const char*>({"SELECT * FROM R;", "SELECT a, COUNT() FROM R GROUP BY a;", "INSERT INTO R VALUES (1, \"a\", 2.5, d'2000-01-01', 1, TRUE);", "CREATE TABLE S ( k INT(4) );", "SELECT S.k FROM S, R;", "DROP TABLE S;", ";"}); break;
            case 2: s += c.oneof<const char*>({"SELECT b FROM R;", "SELECT zz FROM R;", "SELECT SUM(b) FROM R;", "CREATE TABLE R ( a INT(4) );", "INSERT INTO R VALUES (1);", "USE nosuch;", "SELECT 1 FROM nosuch;"}); break;
            case 3: s += c.oneof<const char*>({"SELECT FROM;", "CREATE TABLE;", "SELECT 1 FROM R WHERE;", "@ ;", "SELECT 08;"}); break;
            case 4: { Gen e(c); e.budget = 12; e.rich = true; e.expr(3); s += "SELECT 1 FROM R WHERE " + spell(c, e.t, false) + ";"; break; }
        }
        c.log() << vp::quote(s) << "\n";
        if (s.size() > 3000) c.discard();
        std::string f = "vp-file" + std::to_string(i) + ".sql";
        if (not used and c.chance(1, 3)) { used = true; stdin_text = s; f = "-"; if (n == 1 and c.coin()) f = ""; }
        else { std::ofstream o(f, std::ios::binary); o << s; }
        if (not f.empty()) files.push_back(f);
        texts.push_back(s);
    }
    std::vector<std::string> o; if (quiet) o.push_back(c.coin() ? "-q" : "--quiet"); if (color) o.push_back("--color");
    auto l = cmdline(c, o, files);
    auto r = run(c, "check", l, stdin_text);
    m::Options::Get().quiet = quiet;
    std::ostringstream out, err; m::Diagnostic diag(color, out, err);
    auto &C = m::Catalog::Get(); bool failed = false;
    for (size_t i = 0; i != texts.size(); ++i) {
        std::istringstream in(texts[i]); m::ast::Lexer lexer(diag, C.get_pool(), files.empty() ? "-" : files[i].c_str(), in);
        m::ast::Parser parser(lexer); m::ast::Sema sema(diag);
        while (parser.token()) {
            auto stmt = parser.parse_Stmt();
            std::unique_ptr<m::DatabaseCommand> cmd;
            if (not diag.num_errors()) cmd = sema.analyze(std::move(stmt));
            if (not diag.num_errors() and cmd and m::is<const m::DDLCommand>(cmd)) { cmd->execute(diag); c.nontrivial(); }
            if (diag.num_errors()) { failed = true; diag.clear(); }
        }
    }
    compare(c, "check", r, out.str(), warnings(l) + err.str(), failed);
}

}
