#include "engine.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <nlohmann/json.hpp>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using json = nlohmann::json;

/*----- Coverage counters of the library under test ------------------------------------------------------------------*/
static std::vector<std::pair<uint8_t*, uint8_t*>> & cov_regions() { static std::vector<std::pair<uint8_t*, uint8_t*>> r; return r; }
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) {
    if (start != stop) cov_regions().emplace_back(start, stop);
}
extern "C" const char * __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:max_allocation_size_mb=4096:"
           "hard_rss_limit_mb=3500:quarantine_size_mb=32:malloc_context_size=8:detect_stack_use_after_return=0:"
           "handle_abort=1:check_initialization_order=0:detect_odr_violation=0";
}
extern "C" const char * __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=66"; }

extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace vp {

std::vector<Property> & registry() { static std::vector<Property> r; return r; }

static std::set<std::string> known_ids;
bool known(const std::string &id) { return known_ids.count(id); }

/*----- The choices of the running case, in memory shared with the supervisor ------------------------------------------*/
static constexpr size_t SHM_CHOICES = 1u << 19;
struct Shm { uint64_t prop; uint64_t num; uint64_t choices[SHM_CHOICES]; };
static Shm *shm = nullptr;

uint64_t Case::draw(uint64_t max)
{
    uint64_t v;
    const size_t i = rec_.size();
    if (i >= SHM_CHOICES)
        throw Discard{};
    if (mode_ == RANDOM) {
        v = rng_.upto(max);
    } else if (i < in_.size()) {
        v = std::min(in_[i], max);
    } else {
        v = mode_ == REPLAY ? 0 : rng_.upto(max);
    }
    rec_.push_back(v);
    if (shm) { shm->choices[i] = v; shm->num = i + 1; }
    return v;
}

int64_t Case::integer(unsigned bits)
{
    const int64_t hi = bits >= 64 ? INT64_MAX : (int64_t(1) << (bits - 1)) - 1;
    const int64_t lo = -hi - 1;
    switch (weighted({8, 3, 2, 1, 2})) {
        case 0: return range(0, std::min<int64_t>(hi, 10));
        case 1: { int64_t v = range(0, std::min<int64_t>(hi, 100)); return coin() ? -v : v; }
        case 2: { // power of two or ten, and neighbours
            int64_t v;
            if (coin()) { v = int64_t(1) << draw(bits - 2); }
            else { v = 1; for (size_t n = draw(18); n and v <= hi / 10; --n) v *= 10; }
            v = v - 1 + int64_t(draw(std::min<int64_t>(2, hi - v + 1)));
            return coin() ? -v : v;
        }
        case 3: return oneof<int64_t>({hi, lo, hi - 1, lo + 1});
        default: return range(lo, hi);
    }
}

/*----- Running one case -----------------------------------------------------------------------------------------------*/
struct Outcome {
    bool failed = false, discarded = false;
    std::string key, msg;
};

static void on_hang(int) {
    static const char m[] = "VP-HANG: the case exceeded its CPU time\n";
    (void) !write(2, m, sizeof m - 1);
    _exit(77);
}

static unsigned cpu_limit = 30;

static Outcome run_case(const Property &p, Case &c)
{
    Outcome o;
    struct itimerval it{}; it.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &it, nullptr);
    try {
        p.fn(c);
    } catch (const Discard&) {
        o.discarded = true;
    } catch (const Failure &f) {
        o.failed = true; o.key = f.key; o.msg = f.what();
    } catch (const std::exception &e) {
        o.failed = true; o.key = "unexpected-exception"; o.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        o.failed = true; o.key = "unexpected-exception"; o.msg = "unexpected exception of unknown type";
    }
    memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
    return o;
}

static uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }

/*----- Coverage map ---------------------------------------------------------------------------------------------------*/
struct Coverage {
    std::vector<uint8_t> seen; size_t features = 0;
    static void reset() { for (auto [b, e] : cov_regions()) memset(b, 0, e - b); }
    /// Takes the counters of the last case; returns whether they show anything new.
    bool update() {
        size_t n = 0; for (auto [b, e] : cov_regions()) n += e - b;
        if (seen.size() != n) seen.resize(n);
        bool fresh = false; size_t i = 0;
        for (auto [b, e] : cov_regions()) {
            const size_t len = e - b;
            size_t k = 0;
            for (; k + 8 <= len; k += 8) {
                uint64_t w; memcpy(&w, b + k, 8);
                if (not w) continue;
                for (size_t j = k; j != k + 8; ++j) fresh |= one(i + j, b[j]);
            }
            for (; k < len; ++k) fresh |= one(i + k, b[k]);
            i += len;
        }
        return fresh;
    }
    bool one(size_t i, uint8_t v) {
        if (not v) return false;
        const uint8_t bit = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
        if (seen[i] & bit) return false;
        if (not seen[i]) ++features;
        seen[i] |= bit;
        return true;
    }
};

static std::vector<uint64_t> mutate(Rng &r, const std::vector<std::vector<uint64_t>> &corpus)
{
    std::vector<uint64_t> v = corpus[r.upto(corpus.size() - 1)];
    const size_t n = 1 + r.upto(3);
    for (size_t k = 0; k != n; ++k) {
        if (v.empty()) break;
        const size_t pos = r.upto(v.size() - 1);
        switch (r.upto(6)) {
            case 0: v[pos] = r.next() >> r.upto(63); break;
            case 1: v[pos] += 1; break;
            case 2: if (v[pos]) v[pos] -= 1; break;
            case 3: { size_t len = 1 + r.upto(std::min<size_t>(8, v.size() - pos) - 1); v.erase(v.begin() + pos, v.begin() + pos + len); break; }
            case 4: { size_t len = 1 + r.upto(std::min<size_t>(8, v.size() - pos) - 1);
                std::vector<uint64_t> part(v.begin() + pos, v.begin() + pos + len);
                v.insert(v.begin() + r.upto(v.size()), part.begin(), part.end()); break; }
            case 5: { auto &o = corpus[r.upto(corpus.size() - 1)];
                if (not o.empty()) { size_t q = r.upto(o.size() - 1); v.resize(pos); v.insert(v.end(), o.begin() + q, o.end()); } break; }
            case 6: v.resize(pos); break; // random continuation
        }
    }
    return v;
}

/*----- Saved cases ----------------------------------------------------------------------------------------------------*/
static json load(const char *path) { std::ifstream in(path); return json::parse(in); }
static const Property * find_prop(const std::string &id, const std::string &name) {
    for (auto &p : registry()) if (p.id == id and p.name == name) return &p;
    return nullptr;
}

/// Runs a saved case.  Exit 0: passes, 1: an oracle fails, otherwise: crash.
static int cmd_replay(const char *path, bool quiet)
{
    json j = load(path);
    auto *p = find_prop(j["property"], j["part"]);
    if (not p) { fprintf(stderr, "unknown property\n"); return 3; }
    Case c(Case::REPLAY, 0, j["choices"].get<std::vector<uint64_t>>());
    c.replaying = true;
    static Case *current; current = &c;
    if (not quiet) __sanitizer_set_death_callback([] { fprintf(stderr, "--- case ---\n%s\n", current->log_str().c_str()); fflush(stderr); });
    auto o = run_case(*p, c);
    if (o.failed and not quiet) {
        fflush(stdout);
        fprintf(stderr, "VP-FAIL key=%s\n%s\n--- case ---\n%s\n", o.key.c_str(), o.msg.c_str(), c.log_str().c_str());
    } else if (not quiet) {
        fprintf(stderr, "--- case ---\n%s\n", c.log_str().c_str());
    }
    fflush(stderr);
    _exit(o.failed ? 1 : 0);
}

struct ChildResult { std::string kind; std::string msg, log; std::vector<uint64_t> rec; };

/// Runs \p choices in a child process.
static ChildResult run_child(const Property &p, const std::vector<uint64_t> &choices)
{
    int fd[2]; if (pipe(fd)) abort();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        int null = open("/dev/null", O_WRONLY); dup2(null, 1); dup2(null, 2);
        Case c(Case::REPLAY, 0, choices);
        c.replaying = true;
        auto o = run_case(p, c);
        json j; j["kind"] = o.failed ? "oracle:" + o.key : o.discarded ? "discard" : "pass";
        j["msg"] = o.msg; j["log"] = c.log_str(); j["rec"] = c.choices();
        std::string s = j.dump(-1, ' ', true, json::error_handler_t::replace);
        size_t off = 0; while (off < s.size()) { ssize_t k = write(fd[1], s.data() + off, s.size() - off); if (k <= 0) break; off += k; }
        _exit(0);
    }
    close(fd[1]);
    std::string s; char buf[65536]; ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, k);
    close(fd[0]);
    int st; waitpid(pid, &st, 0);
    ChildResult r;
    if (WIFEXITED(st) and WEXITSTATUS(st) == 0) {
        json j = json::parse(s);
        r.kind = j["kind"]; r.msg = j["msg"]; r.log = j["log"]; r.rec = j["rec"].get<std::vector<uint64_t>>();
    } else {
        r.kind = (WIFEXITED(st) and WEXITSTATUS(st) == 77) ? "hang" : "crash";
        r.rec.assign(shm->choices, shm->choices + shm->num);
    }
    return r;
}

static int cmd_shrink(const char *path, const char *out, double budget)
{
    json j = load(path);
    auto *p = find_prop(j["property"], j["part"]);
    if (not p) return 3;
    auto best = j["choices"].get<std::vector<uint64_t>>();
    auto first = run_child(*p, best);
    if (first.kind == "pass" or first.kind == "discard") { fprintf(stderr, "not reproducible\n"); return 4; }
    const std::string kind = first.kind;
    best = first.rec;
    ChildResult best_r = first;
    unsigned tries = 0;
    const auto t0 = std::chrono::steady_clock::now();
    auto time_left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; };
    auto smaller = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        return a.size() != b.size() ? a.size() < b.size() : a < b;
    };
    auto attempt = [&](const std::vector<uint64_t> &cand) {
        if (not time_left()) return false;
        ++tries;
        auto r = run_child(*p, cand);
        if (r.kind != kind or not smaller(r.rec, best)) return false;
        best = r.rec; best_r = r;
        return true;
    };
    for (bool progress = true; progress and time_left(); ) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len; len /= 2) { // delete chunks
            for (size_t i = 0; i + len <= best.size() and time_left(); ) {
                auto cand = best; cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (attempt(cand)) progress = true; else i += len;
            }
        }
        for (size_t len : {8, 4, 2, 1}) // zero chunks
            for (size_t i = 0; i + len <= best.size() and time_left(); i += len) {
                auto cand = best; bool any = false;
                for (size_t k = i; k != i + len; ++k) { any |= cand[k] != 0; cand[k] = 0; }
                if (any and attempt(cand)) progress = true;
            }
        for (size_t i = 0; i < best.size() and time_left(); ++i) { // lower values
            uint64_t lo = 0;
            while (i < best.size() and lo < best[i] and time_left()) {
                auto cand = best; const uint64_t mid = lo + (best[i] - lo) / 2; cand[i] = mid;
                if (attempt(cand)) progress = true; else lo = mid + 1;
            }
            if (i < best.size() and best[i]) { // lower this one, delete the next
                for (size_t k = 1; k <= 3 and i + 1 + k <= best.size(); ++k) {
                    auto cand = best; cand[i] -= 1; cand.erase(cand.begin() + i + 1, cand.begin() + i + 1 + k);
                    if (attempt(cand)) { progress = true; break; }
                }
            }
        }
    }
    j["choices"] = best; j["kind"] = kind; j["message"] = best_r.msg; j["case"] = best_r.log; j["shrink_tries"] = tries;
    std::ofstream(out) << j.dump(1, ' ', true, json::error_handler_t::replace) << '\n';
    return 0;
}

/*----- Searching ------------------------------------------------------------------------------------------------------*/
static void write_result(const std::string &path, const json &j) {
    std::ofstream(path + ".tmp") << j.dump(-1, ' ', true, json::error_handler_t::replace) << '\n';
    rename((path + ".tmp").c_str(), path.c_str());
}

static int cmd_search(const std::string &id, const std::string &only, uint64_t seed, unsigned worker, unsigned workers, bool thorough,
                      double scale, double time_cap, const std::string &out)
{
    const auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    json res; res["parts"] = json::array(); res["failed"] = false; res["capped"] = false;

    std::vector<const Property*> props;
    double total = 0;
    for (auto &p : registry()) if (p.id == id and (only.empty() or p.name == only)) { props.push_back(&p); ++total; }
    if (props.empty()) { fprintf(stderr, "no such property\n"); return 3; }
    size_t done_props = 0;
    for (auto *p : props) {
        const double cap_here = time_cap * double(++done_props) / total; // every part gets its share of the time
        const size_t n_all = size_t((thorough ? p->thorough : p->quick) * scale);
        const size_t n = n_all / workers + (worker < n_all % workers);
        Coverage cov;
        std::vector<std::vector<uint64_t>> corpus;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples; // evenly spaced non-trivial ones
        size_t evals = 0, discards = 0, nontriv = 0, from_mutation = 0;
        Rng meta(mix64(seed * 1000003 + worker) ^ hash_str(p->id + p->name));
        double t_part = elapsed();
        for (size_t i = 0; i != n; ++i) {
            if (elapsed() > cap_here) { res["capped"] = true; break; }
            const uint64_t case_seed = meta.next();
            const bool mutated = corpus.size() >= 4 and meta.upto(9) < 4;
            Case c = mutated ? Case(Case::MUTATED, case_seed, mutate(meta, corpus)) : Case(Case::RANDOM, case_seed);
            if (shm) { shm->prop = p - registry().data(); shm->num = 0; }
            Coverage::reset();
            auto o = run_case(*p, c);
            if (o.failed) {
                res["failed"] = true; res["part"] = p->name; res["key"] = o.key; res["message"] = o.msg;
                res["choices"] = c.choices(); res["case"] = c.log_str();
                break;
            }
            if (o.discarded) { ++discards; continue; }
            ++evals; from_mutation += mutated;
            if (cov.update() and c.choices().size() < 4000) {
                if (corpus.size() < 512) corpus.push_back(c.choices()); else corpus[meta.upto(511)] = c.choices();
            }
            for (auto &[l, k] : c.labels) labels[l] += 1;
            if (c.is_nontrivial) {
                const auto text = c.log_str();
                if (distinct.insert(hash_str(text)).second) {
                    ++nontriv;
                    if (samples.size() < 2 and text.size() < 3000 and (i > n / 3 * samples.size() or n < 10))
                        samples.push_back(text);
                }
            }
        }
        json pj; pj["name"] = p->name; pj["evaluations"] = evals; pj["discarded"] = discards;
        pj["mutated"] = from_mutation; pj["labels"] = labels; pj["samples"] = samples; pj["features"] = cov.features;
        pj["distinct_nontrivial"] = nontriv; pj["wall_s"] = elapsed() - t_part; pj["planned"] = n;
        pj["hashes"] = std::vector<uint64_t>(distinct.begin(), distinct.end());
        res["parts"].push_back(std::move(pj));
        if (res["failed"]) break;
    }
    write_result(out, res);
    fflush(stdout); fflush(stderr);
    _exit(0); // no destructors of static objects: this is about the cases
}

}

/// A harness may define this to set up process-wide state.
extern "C" __attribute__((weak)) void vp_init();
extern "C" void vp_init() { }

int main(int argc, char **argv)
{
    using namespace vp;
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto get = [&](const char *k, std::string d) { auto it = a.find(k); return it == a.end() ? d : it->second; };
    signal(SIGPROF, on_hang);
    cpu_limit = atoi(get("--cpu-limit", "30").c_str());
    { std::istringstream is(get("--known", "")); std::string s; while (std::getline(is, s, ',')) if (not s.empty()) known_ids.insert(s); }

    if (a.count("--list")) {
        for (auto &p : registry()) printf("%s %s %u %u\n", p.id.c_str(), p.name.c_str(), p.quick, p.thorough);
        return 0;
    }
    { // shared memory
        const auto path = get("--shm", "");
        void *m;
        if (path.empty()) m = mmap(nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        else {
            int fd = open(path.c_str(), O_RDWR|O_CREAT, 0644);
            if (fd < 0 or ftruncate(fd, sizeof(Shm))) { perror("shm"); return 3; }
            m = mmap(nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
        }
        if (m == MAP_FAILED) { perror("mmap"); return 3; }
        shm = static_cast<Shm*>(m);
    }
    vp_init();
    if (a.count("--replay")) return cmd_replay(a["--replay"].c_str(), get("--quiet", "0") == "1");
    if (a.count("--shrink")) return cmd_shrink(a["--shrink"].c_str(), a["--out"].c_str(), atof(get("--budget", "60").c_str()));
    if (a.count("--prop-name")) { // name of the part with this index, for crash reports
        printf("%s\n", registry().at(atoi(a["--prop-name"].c_str())).name.c_str());
        return 0;
    }
    return cmd_search(a["--prop"], get("--only", ""), strtoull(get("--seed", "1").c_str(), nullptr, 10), atoi(get("--worker", "0").c_str()),
                      atoi(get("--workers", "1").c_str()), get("--tier", "quick") == "thorough",
                      atof(get("--scale", "1").c_str()), atof(get("--time-cap", "400").c_str()), a["--out"]);
}
