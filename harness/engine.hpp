// A small property-based testing engine with internal (choice-sequence) shrinking and coverage feedback.
//
// A property is a function of a `Case`.  All randomness comes from `Case` draws; the sequence of draws *is* the test case:
// it is recorded, mutated (guided by the coverage counters of the library under test), replayed and shrunk.
// A draw of 0 is always the simplest choice.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace vp {

using std::size_t;

inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed)) { }
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t upto(uint64_t max) { return max == UINT64_MAX ? next() : next() % (max + 1); }
};

/// An oracle found the property broken.
struct Failure : std::runtime_error {
    std::string key;
    Failure(std::string key, const std::string &msg) : std::runtime_error(msg), key(std::move(key)) { }
};
/// The case turned out to be outside of the domain of the property.
struct Discard { };

struct Case
{
    enum Mode { RANDOM, REPLAY, MUTATED };

    Case(Mode mode, uint64_t seed, std::vector<uint64_t> in = {}) : mode_(mode), rng_(seed), in_(std::move(in)) { }

    /*----- Draws ----------------------------------------------------------------------------------------------------*/
    /// A number in [0, max].
    uint64_t draw(uint64_t max);
    int64_t range(int64_t lo, int64_t hi) { return int64_t(uint64_t(lo) + draw(uint64_t(hi) - uint64_t(lo))); }
    size_t upto(size_t max) { return draw(max); }
    /// True with probability num/den.
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool coin() { return draw(1); }
    /// Index drawn by weights; index 0 is the simplest.
    size_t weighted(std::initializer_list<unsigned> w) {
        unsigned sum = 0; for (auto x : w) sum += x;
        uint64_t v = draw(sum - 1); size_t i = 0;
        for (auto x : w) { if (v < x) return i; v -= x; ++i; }
        return 0;
    }
    template<typename C> auto & pick(C &c) { return c[draw(c.size() - 1)]; }
    template<typename C> const auto & pick(const C &c) { return c[draw(c.size() - 1)]; }
    template<typename T> T oneof(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
    /// A signed integer of at most \p bits bits: small values, powers of two and their neighbours, limits, uniform.
    int64_t integer(unsigned bits);
    /// A size in [0, max], biased towards small ones.
    size_t size(size_t max) {
        switch (weighted({6, 3, 1})) {
            case 0: return draw(max < 4 ? max : 4);
            case 1: return draw(max < 16 ? max : 16);
            default: return draw(max);
        }
    }

    /*----- Bookkeeping ----------------------------------------------------------------------------------------------*/
    void label(const std::string &l) { ++labels[l]; }
    void label_if(bool b, const std::string &l) { if (b) ++labels[l]; }
    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
    /// Describes the case for samples and replay files.
    std::ostream & log() { return log_; }
    std::string log_str() const { return log_.str(); }
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Failure(key, msg); }
    void require(bool b, const std::string &key, const std::string &msg) { if (not b) fail(key, msg); }
    [[noreturn]] void discard() { throw Discard{}; }

    const std::vector<uint64_t> & choices() const { return rec_; }

    std::map<std::string, unsigned> labels;
    bool is_nontrivial = false;
    /// True when a saved case is replayed (and not searched for).
    bool replaying = false;

    private:
    Mode mode_;
    Rng rng_;
    std::vector<uint64_t> in_;
    std::vector<uint64_t> rec_;
    std::ostringstream log_;
};

#define VP_STR(...) (static_cast<std::ostringstream&&>(std::ostringstream{} << __VA_ARGS__).str())
#define VP_REQUIRE(C, COND, KEY, ...) do { if (not (COND)) (C).fail(KEY, VP_STR(__VA_ARGS__)); } while (0)

struct Property
{
    std::string id;    ///< the property, e.g. C01
    std::string name;  ///< the part of it which is checked
    std::function<void(Case&)> fn;
    unsigned quick;    ///< number of cases in the quick tier (over all workers)
    unsigned thorough; ///< number of cases in the thorough tier
};
std::vector<Property> & registry();
struct Register {
    Register(std::string id, std::string name, std::function<void(Case&)> fn, unsigned quick, unsigned thorough)
    { registry().push_back({std::move(id), std::move(name), std::move(fn), quick, thorough}); }
};
#define VP_CONCAT_(A, B) A##B
#define VP_CONCAT(A, B) VP_CONCAT_(A, B)
/// VP_PROP(id, name, quick, thorough) { ... uses `c` ... }
#define VP_PROP(ID, NAME, QUICK, THOROUGH) \
    static void VP_CONCAT(vp_prop_, __LINE__)(::vp::Case &c); \
    static ::vp::Register VP_CONCAT(vp_reg_, __LINE__)(ID, NAME, VP_CONCAT(vp_prop_, __LINE__), QUICK, THOROUGH); \
    static void VP_CONCAT(vp_prop_, __LINE__)([[maybe_unused]] ::vp::Case &c)

/// Is \p id listed as a known finding (and hence to be left out of the search by construction)?
bool known(const std::string &id);

/// Escapes for logs.
inline std::string quote(std::string_view s) {
    std::ostringstream os; os << '"';
    for (unsigned char ch : s) {
        if (ch == '"' or ch == '\\') os << '\\' << ch;
        else if (ch == '\n') os << "\\n";
        else if (ch < 32 or ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); os << b; }
        else os << ch;
    }
    os << '"';
    return os.str();
}

}
