// C14: small bit sets, subset enumeration, graph algorithms against their definitions.
#include "engine.hpp"
#include <mutable/util/ADT.hpp>
#include <mutable/util/AdjacencyMatrix.hpp>
#include <mutable/util/MinCutAGaT.hpp>
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
using namespace vp;
using m::SmallBitset;
using m::AdjacencyMatrix;

namespace {

using Set = std::set<size_t>;

SmallBitset to_bits(const Set &s) { SmallBitset b; for (auto x : s) b[x] = true; return b; }
Set members(uint64_t v) { Set s; for (size_t i = 0; i != 64; ++i) if ((v >> i) & 1) s.insert(i); return s; }
uint64_t u(SmallBitset b) { return uint64_t(b); }
uint64_t val(const Set &s) { uint64_t v = 0; for (auto x : s) v |= uint64_t(1) << x; return v; }

Set gen_set(Case &c, size_t n = 64) {
    Set s;
    switch (c.weighted({3, 3, 1, 1, 1})) {
        case 0: for (size_t k = c.draw(6); k; --k) s.insert(c.draw(n - 1)); break;
        case 1: { uint64_t v = c.draw(UINT64_MAX); for (size_t i = 0; i != n; ++i) if ((v >> i) & 1) s.insert(i); break; }
        case 2: for (size_t i = 0; i != n; ++i) s.insert(i); break;
        case 3: { size_t a = c.draw(n - 1), b = c.draw(n - 1); for (size_t i = std::min(a, b); i <= std::max(a, b); ++i) s.insert(i); break; }
        case 4: for (size_t i = 0; i != n; ++i) s.insert(i); for (size_t k = c.draw(3); k; --k) s.erase(c.draw(n - 1)); break;
    }
    return s;
}

std::string sh(const Set &s) { std::ostringstream o; o << '{'; for (auto x : s) o << ' ' << x; o << " }"; return o.str(); }

void eq(Case &c, SmallBitset got, const Set &want, const char *what) {
    VP_REQUIRE(c, u(got) == val(want), what, what << " gives " << sh(members(u(got))) << ", not " << sh(want));
    VP_REQUIRE(c, got.size() == want.size(), "size", "size of " << what);
    VP_REQUIRE(c, got.empty() == want.empty(), "empty", "empty() of " << what);
    VP_REQUIRE(c, bool(got) == not want.empty(), "bool", "operator bool of " << what);
    VP_REQUIRE(c, got.is_singleton() == (want.size() == 1), "is_singleton", "is_singleton() of " << what);
}

VP_PROP("C14", "bitset", 400000, 6000000) {
    Set a = gen_set(c), b = c.chance(1, 5) ? a : gen_set(c);
    if (c.chance(1, 4)) { for (auto it = b.begin(); it != b.end();) if (not a.count(*it)) it = b.erase(it); else ++it; }
    c.log() << "a = " << sh(a) << ", b = " << sh(b) << "\n";
    c.nontrivial(a.size() > 1 and not b.empty());
    SmallBitset A = to_bits(a), B = to_bits(b);
    eq(c, A, a, "element-wise construction");
    Set un = a, in, di, sy;
    un.insert(b.begin(), b.end());
    for (auto x : a) (b.count(x) ? in : di).insert(x);
    Set co; for (size_t i = 0; i != 64; ++i) if (not a.count(i)) co.insert(i);
    eq(c, A | B, un, "|"); eq(c, A & B, in, "&"); eq(c, A - B, di, "-"); eq(c, ~A, co, "~");
    eq(c, unify(A, B), un, "unify"); eq(c, intersect(A, B), in, "intersect"); eq(c, subtract(A, B), di, "subtract");
    { auto X = A; X |= B; eq(c, X, un, "|="); } { auto X = A; X &= B; eq(c, X, in, "&="); } { auto X = A; X -= B; eq(c, X, di, "-="); }
    VP_REQUIRE(c, (A == B) == (a == b) and (A != B) == (a != b), "==", "equality");
    VP_REQUIRE(c, A.is_subset(B) == std::includes(b.begin(), b.end(), a.begin(), a.end()), "is_subset", "a subset of b");
    VP_REQUIRE(c, B.is_subset(A) == std::includes(a.begin(), a.end(), b.begin(), b.end()), "is_subset", "b subset of a");
    /* Iteration. */
    { std::vector<size_t> v; for (auto x : A) v.push_back(x); VP_REQUIRE(c, std::equal(v.begin(), v.end(), a.begin(), a.end()), "iterate", "iteration of " << sh(a)); }
    { std::vector<size_t> v; for (auto it = A.cbegin(); it != A.cend(); it++) { v.push_back(*it); VP_REQUIRE(c, u(it.as_set()) == uint64_t(1) << *it, "as_set", "as_set"); }
      VP_REQUIRE(c, std::equal(v.begin(), v.end(), a.begin(), a.end()), "iterate", "post-increment iteration of " << sh(a)); }
    { std::vector<size_t> v; for (auto it = A.rbegin(); it != A.rend(); ++it) { v.push_back(*it); VP_REQUIRE(c, u(it.as_set()) == uint64_t(1) << *it, "as_set", "reverse as_set"); }
      VP_REQUIRE(c, std::equal(v.begin(), v.end(), a.rbegin(), a.rend()), "iterate", "reverse iteration of " << sh(a)); }
    { std::vector<size_t> v; for (auto it = A.crbegin(); it != A.crend(); it++) v.push_back(*it);
      VP_REQUIRE(c, std::equal(v.begin(), v.end(), a.rbegin(), a.rend()), "iterate", "reverse post-increment iteration of " << sh(a)); }
    /* Elements. */
    for (size_t k = 0; k != 3; ++k) {
        const size_t i = c.draw(63);
        VP_REQUIRE(c, bool(A[i]) == bool(a.count(i)) and bool(A(i)) == bool(a.count(i)) and bool(A.at(i)) == bool(a.count(i)), "[]", "element " << i);
        const SmallBitset K = A;
        VP_REQUIRE(c, bool(K[i]) == bool(a.count(i)) and bool(K(i)) == bool(a.count(i)) and bool(K.at(i)) == bool(a.count(i)), "[]", "const element " << i);
        const bool v = c.coin();
        auto X = A; Set x = a; if (v) x.insert(i); else x.erase(i);
        X[i] = v; eq(c, X, x, "[]=");
        X = A; X(i) = v; eq(c, X, x, "()=");
        X = A; X.at(i) = v; eq(c, X, x, "at=");
        const size_t j = c.draw(63);
        X = A; x = a; if (a.count(j)) x.insert(i); else x.erase(i);
        X[i] = X[j]; eq(c, X, x, "assignment of an element");
        eq(c, SmallBitset::Singleton(i), Set{i}, "Singleton");
        Set all; for (size_t q = 0; q != i; ++q) all.insert(q);
        eq(c, SmallBitset::All(i), all, "All");
        eq(c, SmallBitset::Singleton(i).singleton_to_lo_mask(), all, "singleton_to_lo_mask");
        for (size_t out : {size_t(64) + i, size_t(64), SIZE_MAX}) {
            bool thrown = false;
            try { (void) bool(K.at(out)); } catch (m::out_of_range&) { thrown = true; }
            VP_REQUIRE(c, thrown, "at", "at(" << out << ") does not throw");
            thrown = false;
            try { X.at(out) = true; } catch (m::out_of_range&) { thrown = true; }
            VP_REQUIRE(c, thrown, "at", "at(" << out << ") does not throw");
        }
    }
    { Set all; for (size_t q = 0; q != 64; ++q) all.insert(q); eq(c, SmallBitset::All(64), all, "All"); }
    if (not a.empty()) {
        eq(c, A.hi(), Set{*a.rbegin()}, "hi");
        Set lo; for (size_t i = 0; i <= *a.begin(); ++i) lo.insert(i);
        eq(c, A.mask_to_lo(), lo, "mask_to_lo");
        eq(c, m::least_subset(A), Set{*a.begin()}, "least_subset");
        auto X = A; auto Y = X--; VP_REQUIRE(c, u(X) == val(a) - 1 and Y == A, "--", "decrement"); --(Y = A); VP_REQUIRE(c, Y == X, "--", "decrement");
        /* the subset following the intersection of a and b, in the order of numbers */
        const uint64_t s = val(in);
        uint64_t nx = (s - val(a)) & val(a);
        VP_REQUIRE(c, u(m::next_subset(A & B, A)) == nx, "next_subset", "next subset");
    }
    if (a.size() != 64) { auto X = A; auto Y = X++; VP_REQUIRE(c, u(X) == val(a) + 1 and Y == A, "++", "increment"); ++(Y = A); VP_REQUIRE(c, Y == X, "++", "increment"); }
    std::string bin; for (size_t i = 64; i--;) bin += a.count(i) ? '1' : '0';
    std::ostringstream os; os << A;
    VP_REQUIRE(c, os.str() == bin, "print", "printed as " << os.str());
    const size_t len = c.draw(64); std::ostringstream os2; A.print_fixed_length(os2, len);
    VP_REQUIRE(c, os2.str() == bin.substr(64 - len), "print", "printed with length " << len << " as " << os2.str());
}

VP_PROP("C14", "subsets", 30000, 400000) {
    Set s;
    const size_t n = c.draw(11);
    while (s.size() < n) s.insert(c.coin() ? c.draw(63) : s.size());
    const size_t k = c.draw(s.size());
    c.log() << k << " of " << sh(s) << "\n";
    c.nontrivial(k >= 1 and k < s.size());
    c.label_if(k == 0, "empty subset"); c.label_if(k == n, "full subset"); c.label_if(s.count(63), "uses element 63");
    const SmallBitset S = to_bits(s);
    /* expected, in ascending order of numbers */
    std::vector<size_t> el(s.begin(), s.end());
    std::vector<uint64_t> want, want_n, power;
    for (uint64_t x = 0; x != uint64_t(1) << n; ++x) {
        uint64_t v = 0; for (size_t i = 0; i != n; ++i) if ((x >> i) & 1) v |= uint64_t(1) << el[i];
        if (size_t(__builtin_popcountll(x)) == k) { want.push_back(v); want_n.push_back(x); }
        if (x) power.push_back(v);
    }
    std::vector<uint64_t> got;
    m::SubsetEnumerator E(S, k);
    for (; E; ++E) { got.push_back(u(*E)); VP_REQUIRE(c, got.size() <= want.size(), "SubsetEnumerator", "too many subsets"); }
    VP_REQUIRE(c, got == want, "SubsetEnumerator", "subsets of size " << k << " of " << sh(s));
    got.clear();
    auto G = m::GospersHack::enumerate_all(k, n);
    for (; G; ++G) { got.push_back(u(*G)); VP_REQUIRE(c, got.size() <= want_n.size(), "GospersHack", "too many subsets"); }
    VP_REQUIRE(c, got == want_n, "GospersHack", "subsets of size " << k << " of " << n);
    if (k) {
        const size_t from = c.draw(want_n.size() - 1);
        got.clear();
        auto F = m::GospersHack::enumerate_from(SmallBitset(want_n[from]), n);
        for (; F; ++F) { got.push_back(u(*F)); VP_REQUIRE(c, got.size() <= want_n.size(), "GospersHack", "too many subsets"); }
        VP_REQUIRE(c, std::equal(got.begin(), got.end(), want_n.begin() + from, want_n.end()), "GospersHack", "remaining subsets");
    }
    got.clear();
    for (SmallBitset x = m::least_subset(S); bool(x); x = m::next_subset(x, S)) got.push_back(u(x));
    VP_REQUIRE(c, got == power, "next_subset", "enumeration of all subsets of " << sh(s));
}

// Big sets: only the first steps of each enumeration.
VP_PROP("C14", "gosper", 60000, 600000) {
    const size_t n = 1 + c.draw(62), k = 1 + c.draw(n - 1);
    c.nontrivial(k > 1 and n > 12);
    uint64_t x = 0; for (size_t i = 0; i != k;) { size_t b = c.draw(n - 1); if (not ((x >> b) & 1)) { x |= uint64_t(1) << b; ++i; } else { for (b = 0; (x >> b) & 1; ++b); x |= uint64_t(1) << b; ++i; } }
    c.log() << "n " << n << " from " << x << "\n";
    auto F = m::GospersHack::enumerate_from(SmallBitset(x), n);
    for (size_t step = 0; step != 40; ++step) {
        VP_REQUIRE(c, bool(F) and u(*F) == x, "GospersHack", "step " << step << ": " << u(*F) << " instead of " << x);
        /* next greater number with as many bits */
        size_t i = 0; while (i < n and not ((x >> i) & 1)) ++i;
        size_t ones = 0; while (i < n and ((x >> i) & 1)) { ++i; ++ones; }
        ++F;
        if (i >= n) { VP_REQUIRE(c, not F, "GospersHack", "does not end"); return; }
        x |= uint64_t(1) << i; x &= ~((uint64_t(1) << i) - 1); x |= (uint64_t(1) << (ones - 1)) - 1;
    }
}

/*----- Graphs -------------------------------------------------------------------------------------------------------*/

struct Graph {
    size_t n;
    std::vector<std::vector<bool>> e;
    Set nodes() const { Set s; for (size_t i = 0; i != n; ++i) s.insert(i); return s; }
    Set reach(const Set &from, const Set &in) const {
        Set r; std::vector<size_t> st;
        for (auto x : from) if (in.count(x)) { r.insert(x); st.push_back(x); }
        while (not st.empty()) { auto x = st.back(); st.pop_back(); for (size_t y = 0; y != n; ++y) if (e[x][y] and in.count(y) and r.insert(y).second) st.push_back(y); }
        return r;
    }
    bool connected(const Set &s) const { return s.empty() or reach({*s.begin()}, s) == s; }
    bool joined(const Set &a, const Set &b) const { for (auto x : a) for (auto y : b) if (e[y][x]) return true; return false; }
    Set neighbors(const Set &s) const { Set r; for (auto x : s) for (size_t y = 0; y != n; ++y) if (e[x][y] and not s.count(y)) r.insert(y); return r; }
};

Graph gen_graph(Case &c, size_t max, bool directed, bool loops = false, bool want_connected = false) {
    Graph g; g.n = 1 + c.draw(max - 1);
    g.e.assign(g.n, std::vector<bool>(g.n));
    auto add = [&](size_t i, size_t j) { if (i != j or loops) { g.e[i][j] = true; if (not directed) g.e[j][i] = true; } };
    const size_t kind = c.weighted({3, 2, 2, 2, 1, 3});
    auto perm = [&](size_t i) { return i; }; (void) perm;
    switch (kind) {
        case 0: for (size_t k = c.draw(2 * g.n); k; --k) { size_t i = c.draw(g.n - 1), j = c.draw(g.n - 1); add(i, j); } break;
        case 1: for (size_t i = 1; i < g.n; ++i) add(i - 1, i); if (c.coin() and g.n > 2) add(g.n - 1, 0); break; // chain, cycle
        case 2: { size_t ctr = c.draw(g.n - 1); for (size_t i = 0; i < g.n; ++i) if (i != ctr) add(ctr, i); break; } // star
        case 3: for (size_t i = 1; i < g.n; ++i) add(c.draw(i - 1), i); break; // tree
        case 4: for (size_t i = 0; i != g.n; ++i) for (size_t j = 0; j != g.n; ++j) add(i, j); break; // clique
        case 5: { const unsigned d = unsigned(1 + c.draw(9)); for (size_t i = 0; i != g.n; ++i) for (size_t j = directed ? 0 : i; j != g.n; ++j) if (c.chance(d, 10)) add(i, j); break; }
    }
    if (want_connected) { for (size_t i = 1; i < g.n; ++i) if (not g.reach({0}, g.nodes()).count(i)) add(c.draw(i - 1), i); }
    if (kind and c.coin()) { // relabel
        std::vector<size_t> p(g.n); for (size_t i = 0; i != g.n; ++i) p[i] = i;
        for (size_t i = g.n; i > 1; --i) std::swap(p[i - 1], p[c.draw(i - 1)]);
        Graph h = g; for (size_t i = 0; i != g.n; ++i) for (size_t j = 0; j != g.n; ++j) h.e[p[i]][p[j]] = g.e[i][j];
        g = h;
    }
    c.log() << g.n << " nodes, edges";
    for (size_t i = 0; i != g.n; ++i) for (size_t j = directed ? 0 : i; j != g.n; ++j) if (g.e[i][j]) c.log() << ' ' << i << '-' << j;
    c.log() << "\n";
    return g;
}
AdjacencyMatrix matrix(const Graph &g) {
    AdjacencyMatrix M(g.n);
    for (size_t i = 0; i != g.n; ++i) for (size_t j = 0; j != g.n; ++j) if (g.e[i][j]) M(i, j) = true;
    return M;
}
Set subset(Case &c, size_t n) {
    Set s; uint64_t v = c.draw(UINT64_MAX);
    if (c.coin()) v |= c.draw(UINT64_MAX);
    for (size_t i = 0; i != n; ++i) if ((v >> i) & 1) s.insert(i);
    return s;
}
Set operator-(const Set &a, const Set &b) { Set r; for (auto x : a) if (not b.count(x)) r.insert(x); return r; }
Set operator&(const Set &a, const Set &b) { Set r; for (auto x : a) if (b.count(x)) r.insert(x); return r; }

void check_entries(Case &c, const AdjacencyMatrix &M, const std::vector<std::vector<bool>> &want, const char *what) {
    for (size_t i = 0; i != want.size(); ++i) for (size_t j = 0; j != want.size(); ++j)
        VP_REQUIRE(c, bool(M(i, j)) == want[i][j] and bool(M.at(i, j)) == want[i][j], what, what << ": entry (" << i << ", " << j << ") is " << bool(M(i, j)));
}

VP_PROP("C14", "graph", 50000, 700000) {
    const bool directed = c.coin();
    Graph g = gen_graph(c, c.chance(1, 6) ? 64 : 14, directed, c.chance(1, 4));
    AdjacencyMatrix M = matrix(g);
    c.nontrivial(g.n > 2);
    c.label_if(directed, "directed"); c.label_if(g.n == 64, "64 nodes");
    check_entries(c, M, g.e, "entries");
    const Set src = subset(c, g.n), in = subset(c, g.n);
    c.log() << "from " << sh(src) << " within " << sh(in) << "\n";
    eq(c, M.reachable(to_bits(src)), g.reach(src, g.nodes()), "reachable");
    eq(c, M.reachable(to_bits(src), to_bits(in)), g.reach(src, in), "reachable within");
    eq(c, M.neighbors(to_bits(src)), g.neighbors(src), "neighbors");
    VP_REQUIRE(c, M.is_connected(to_bits(src), to_bits(in)) == g.joined(src, in), "is_connected", "connection of two sets");
    if (not directed) VP_REQUIRE(c, M.is_connected(to_bits(in)) == g.connected(in), "is_connected", "connectedness of " << sh(in));
    /* closures: an entry is set if there is a path of at least one edge; for an undirected graph a node with an edge reaches itself */
    auto closure = g.e;
    for (size_t k = 0; k != g.n; ++k) for (size_t i = 0; i != g.n; ++i) if (closure[i][k]) for (size_t j = 0; j != g.n; ++j) if (closure[k][j]) closure[i][j] = true;
    if (g.n <= 20) {
        check_entries(c, M.transitive_closure_directed(), closure, "transitive_closure_directed");
        if (not directed) check_entries(c, M.transitive_closure_undirected(), closure, "transitive_closure_undirected");
    }
    AdjacencyMatrix N(M);
    VP_REQUIRE(c, N == M and not (N != M), "==", "a copy differs");
    const size_t i = c.draw(g.n - 1), j = c.draw(g.n - 1);
    N(i, j) = not g.e[i][j];
    VP_REQUIRE(c, not (N == M) and N != M, "==", "matrices which differ are equal");
    check_entries(c, M, g.e, "entries after changing a copy");
    N.at(i, j) = M(i, j);
    VP_REQUIRE(c, N == M, "=", "assignment of an entry");
    for (auto [x, y] : {std::pair<size_t, size_t>{g.n, 0}, {0, g.n}, {g.n + i, j}}) {
        bool thrown = false;
        try { (void) bool(M.at(x, y)); } catch (m::out_of_range&) { thrown = true; }
        VP_REQUIRE(c, thrown, "at", "at(" << x << ", " << y << ") does not throw");
    }
    std::ostringstream want; want << "Adjacency Matrix";
    for (size_t a = 0; a != g.n; ++a) { want << '\n'; for (size_t b = g.n; b--;) want << (g.e[a][b] ? '1' : '0'); }
    VP_REQUIRE(c, to_string(M) == want.str(), "print", "printed as\n" << to_string(M));
}

VP_PROP("C14", "csg", 12000, 150000) {
    Graph g = gen_graph(c, 8, false);
    AdjacencyMatrix M = matrix(g);
    Set super = c.coin() ? g.nodes() : subset(c, g.n), source = c.coin() ? g.nodes() : subset(c, g.n);
    c.log() << "super " << sh(super) << ", source " << sh(source) << "\n";
    c.nontrivial(super.size() > 2);
    std::set<uint64_t> want, got, want_all;
    for (uint64_t x = 1; x != uint64_t(1) << g.n; ++x) {
        Set s = members(x);
        if ((s - super).empty() and g.connected(s)) { want_all.insert(x); if (not (s & source).empty()) want.insert(x); }
    }
    M.for_each_CSG_undirected(to_bits(super), to_bits(source), [&](SmallBitset S) {
        VP_REQUIRE(c, got.insert(u(S)).second, "CSG", "twice: " << sh(members(u(S))));
        VP_REQUIRE(c, want.count(u(S)), "CSG", "not a connected subgraph of the graph: " << sh(members(u(S))));
    });
    VP_REQUIRE(c, got == want, "CSG", "a connected subgraph is missing");
    got.clear();
    M.for_each_CSG_undirected(to_bits(super), [&](SmallBitset S) {
        VP_REQUIRE(c, got.insert(u(S)).second, "CSG", "twice: " << sh(members(u(S))));
    });
    VP_REQUIRE(c, got == want_all, "CSG", "connected subgraphs");
    std::set<std::pair<uint64_t, uint64_t>> pairs, want_pairs;
    for (auto x : want_all) for (auto y : want_all) if (x < y and not (x & y) and g.joined(members(x), members(y))) want_pairs.insert({x, y});
    M.for_each_CSG_pair_undirected(to_bits(super), [&](SmallBitset A, SmallBitset B) {
        std::pair<uint64_t, uint64_t> p = std::minmax(u(A), u(B));
        VP_REQUIRE(c, want_pairs.count(p), "CSG pair", "not a pair of connected subgraphs: " << sh(members(p.first)) << sh(members(p.second)));
        VP_REQUIRE(c, pairs.insert(p).second, "CSG pair", "twice: " << sh(members(p.first)) << sh(members(p.second)));
    });
    VP_REQUIRE(c, pairs == want_pairs, "CSG pair", "a pair is missing");
    c.label_if(want_pairs.size() > 50, "more than 50 pairs");
}

VP_PROP("C14", "mincut", 20000, 300000) {
    Graph g = gen_graph(c, c.chance(1, 4) ? 11 : 7, false, false, true);
    if (g.n < 2) { g.n = 2; g.e.assign(2, {false, false}); g.e[0][1] = g.e[1][0] = true; c.log() << "2 nodes\n"; }
    AdjacencyMatrix M = matrix(g);
    /* a connected set of at least two nodes */
    Set S{size_t(c.draw(g.n - 1))};
    for (size_t k = 1 + c.draw(g.n - 2); k; --k) { Set nb = g.neighbors(S); if (nb.empty()) break; auto it = nb.begin(); std::advance(it, c.draw(nb.size() - 1)); S.insert(*it); }
    c.log() << "partition of " << sh(S) << "\n";
    c.nontrivial(S.size() > 2);
    std::set<std::pair<uint64_t, uint64_t>> want, got;
    const uint64_t s = val(S);
    for (uint64_t x = (s - 1) & s; x; x = (x - 1) & s)
        if (x < (s & ~x) and g.connected(members(x)) and g.connected(members(s & ~x))) want.insert({x, s & ~x});
    m::MinCutAGaT{}.partition(M, [&](SmallBitset A, SmallBitset B) {
        std::pair<uint64_t, uint64_t> p = std::minmax(u(A), u(B));
        VP_REQUIRE(c, want.count(p), "MinCutAGaT", "not a cut into connected parts: " << sh(members(p.first)) << sh(members(p.second)));
        VP_REQUIRE(c, got.insert(p).second, "MinCutAGaT", "twice: " << sh(members(p.first)) << sh(members(p.second)));
    }, to_bits(S));
    VP_REQUIRE(c, got == want, "MinCutAGaT", got.size() << " of " << want.size() << " cuts were found");
    c.label_if(want.size() > 20, "more than 20 cuts");
}

VP_PROP("C14", "spanning", 20000, 300000) {
    Graph g = gen_graph(c, c.chance(1, 8) ? 64 : 10, false);
    AdjacencyMatrix M = matrix(g);
    std::map<std::pair<size_t, size_t>, double> w;
    const size_t wmax = c.pick(std::vector<size_t>{3, 1000, 0});
    const double base = c.pick(std::vector<double>{0, 0, 1e8, 1e11}), unit = c.pick(std::vector<double>{1, 1, 1. / 1024}); // all sums are exact
    for (size_t i = 0; i != g.n; ++i) for (size_t j = i; j != g.n; ++j) if (g.e[i][j]) w[{i, j}] = base + unit * (double(c.draw(wmax)) - double(wmax / 4));
    c.nontrivial(w.size() > 2);
    auto weight = [&](size_t i, size_t j) {
        VP_REQUIRE(c, i < g.n and j < g.n and g.e[i][j], "weight", "weight of an edge which does not exist");
        return w[std::minmax(i, j)];
    };
    AdjacencyMatrix F = M.minimum_spanning_forest(weight);
    /* Kruskal */
    std::vector<std::pair<double, std::pair<size_t, size_t>>> es; for (auto &[e, x] : w) es.push_back({x, e});
    std::sort(es.begin(), es.end());
    std::vector<size_t> comp(g.n); for (size_t i = 0; i != g.n; ++i) comp[i] = i;
    double total = 0; size_t edges = 0;
    for (auto &[x, e] : es) if (comp[e.first] != comp[e.second]) { total += x; ++edges; const size_t o = comp[e.second], k = comp[e.first]; for (auto &y : comp) if (y == o) y = k; }
    double sum = 0; size_t cnt = 0; Graph f; f.n = g.n; f.e.assign(g.n, std::vector<bool>(g.n));
    for (size_t i = 0; i != g.n; ++i) for (size_t j = 0; j != g.n; ++j) if (F(i, j)) {
        f.e[i][j] = true;
        VP_REQUIRE(c, F(j, i), "forest", "the forest is not symmetric");
        VP_REQUIRE(c, g.e[i][j], "forest", "edge " << i << "-" << j << " is not in the graph");
        if (i < j) { sum += w[{i, j}]; ++cnt; }
        VP_REQUIRE(c, i != j, "forest", "loop");
    }
    VP_REQUIRE(c, cnt == edges, "forest", cnt << " edges instead of " << edges);
    for (size_t i = 0; i != g.n; ++i) VP_REQUIRE(c, f.reach({i}, f.nodes()) == g.reach({i}, g.nodes()), "forest", "the forest does not span the component of " << i);
    VP_REQUIRE(c, sum == total, "forest", "the forest weighs " << sum << " instead of " << total);
    /* direct the tree */
    if (edges + 1 == g.n) {
        const size_t root = c.draw(g.n - 1);
        AdjacencyMatrix T = F.tree_directed_away_from(SmallBitset::Singleton(root));
        std::vector<std::vector<bool>> want(g.n, std::vector<bool>(g.n));
        std::function<void(size_t, size_t)> go = [&](size_t x, size_t p) { for (size_t y = 0; y != g.n; ++y) if (f.e[x][y] and y != p) { want[x][y] = true; go(y, x); } };
        go(root, SIZE_MAX);
        c.label("directed tree");
        check_entries(c, T, want, "tree_directed_away_from");
        check_entries(c, F, f.e, "the tree itself");
    }
}

}
