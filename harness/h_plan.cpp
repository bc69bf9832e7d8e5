// C03: plan enumerators against an exhaustive reference over all connected (or, with Cartesian products, all) partitions.
#include "exec.hpp"
#include "IR/PartialPlanGenerator.hpp"
#include <algorithm>
#include <cmath>
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/catalog/CostFunction.hpp>
#include <mutable/catalog/CostFunctionCout.hpp>
#include <mutable/IR/CNF.hpp>
#include <mutable/IR/PlanEnumerator.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/Options.hpp>
#include <nlohmann/json.hpp>
#include <unordered_map>

using namespace db;
using m::QueryGraph;
using S_t = m::SmallBitset;

namespace {

constexpr size_t MAX_SOURCES = 26;

/// The size of the result of every subproblem.
struct Cards {
    size_t n = 0; uint64_t seed = 0; unsigned bits = 10; bool product = false; std::vector<uint64_t> base; std::unordered_map<uint64_t, uint64_t> table;
    uint64_t operator()(uint64_t s) const {
        if (not table.empty()) return table.at(s);
        if (product) { uint64_t p = 1; for (size_t i = 0; i != n; ++i) if (s >> i & 1) p *= base[i]; return p; }
        if ((s & (s - 1)) == 0) return base[size_t(__builtin_ctzll(s))];
        return vp::mix64(seed ^ s * 0x9e3779b97f4a7c15ull) >> (64 - bits); // may be zero
    }
};

/// An estimator which looks every subproblem up.
struct LookupEstimator : m::CardinalityEstimatorCRTP<LookupEstimator>
{
    struct Model : m::DataModel { S_t s; explicit Model(S_t s) : s(s) { } void assign_to(m::Subproblem t) override { s = t; } };
    const Cards &cards;
    explicit LookupEstimator(const Cards &c) : cards(c) { }
    static const Model & get(const m::DataModel &d) { return m::as<const Model>(d); }
    std::unique_ptr<m::DataModel> empty_model() const override { return std::make_unique<Model>(S_t()); }
    std::unique_ptr<m::DataModel> estimate_scan(const QueryGraph&, m::Subproblem P) const override { return std::make_unique<Model>(P); }
    std::unique_ptr<m::DataModel> estimate_filter(const QueryGraph&, const m::DataModel &d, const m::cnf::CNF&) const override { return std::make_unique<Model>(get(d)); }
    std::unique_ptr<m::DataModel> estimate_limit(const QueryGraph&, const m::DataModel &d, std::size_t, std::size_t) const override { return std::make_unique<Model>(get(d)); }
    std::unique_ptr<m::DataModel> estimate_grouping(const QueryGraph&, const m::DataModel &d, const std::vector<group_type>&) const override { return std::make_unique<Model>(get(d)); }
    std::unique_ptr<m::DataModel> estimate_join(const QueryGraph&, const m::DataModel &l, const m::DataModel &r, const m::cnf::CNF&) const override { return std::make_unique<Model>(get(l).s | get(r).s); }
    template<typename PT> std::unique_ptr<m::DataModel> operator()(m::estimate_join_all_tag, PT &&, const QueryGraph&, m::Subproblem s, const m::cnf::CNF&) const { return std::make_unique<Model>(s); }
    std::size_t predict_cardinality(const m::DataModel &d) const override { return cards(uint64_t(get(d).s)); }
    void print(std::ostream &out) const override { out << "lookup"; }
};

/// Not symmetric, e.g. the cost of building and probing a hash table.
struct CostBuildProbe : m::CostFunctionCRTP<CostBuildProbe>
{
    double build, probe, out;
    CostBuildProbe(double b, double p, double o) : build(b), probe(p), out(o) { }
    template<typename PT> double operator()(m::calculate_filter_cost_tag, const PT &pt, const QueryGraph&, const m::CardinalityEstimator &CE, m::SmallBitset s, const m::cnf::CNF&) const { return pt[s].cost; }
    template<typename PT> double operator()(m::calculate_join_cost_tag, const PT &pt, const QueryGraph&, const m::CardinalityEstimator &CE, m::SmallBitset l, m::SmallBitset r, const m::cnf::CNF&) const {
        return pt[l].cost + pt[r].cost + build * double(CE.predict_cardinality(*pt[l].model)) + probe * double(CE.predict_cardinality(*pt[r].model)) + out * double(CE.predict_cardinality(*pt[l | r].model));
    }
    template<typename PT> double operator()(m::calculate_grouping_cost_tag, const PT &pt, const QueryGraph&, const m::CardinalityEstimator &CE, m::SmallBitset s, const std::vector<const m::ast::Expr*>&) const { return pt[s].cost; }
};

struct Cost { bool cout = true; double build = 0, probe = 0, out = 1; };

/// A query graph, its cardinalities and costs.
struct Problem
{
    size_t n = 0;
    std::vector<uint64_t> adj;
    Cards cards;
    Cost cost;
    unsigned est = 0; // 0 lookup, 1 Cartesian product, 2 injected
    std::string shape;

    uint64_t all() const { return n == 64 ? ~0ull : (1ull << n) - 1; }
    uint64_t neighbors(uint64_t s) const { uint64_t r = 0; for (uint64_t t = s; t; t &= t - 1) r |= adj[size_t(__builtin_ctzll(t))]; return r & ~s; }
    bool connected(uint64_t s) const {
        uint64_t r = s & -s;
        for (;;) { uint64_t x = (r | neighbors(r)) & s; if (x == r) break; r = x; }
        return r == s;
    }
    double join(uint64_t l, uint64_t r, double cl, double cr) const {
        return cl + cr + cost.build * double(cards(l)) + cost.probe * double(cards(r)) + cost.out * double(cards(l | r));
    }
    double join_min(uint64_t l, uint64_t r, double cl, double cr) const { return std::min(join(l, r, cl, cr), join(r, l, cl, cr)); }
};

Problem gen_problem(Case &c, size_t max, bool large, bool consistent = false) {
    Problem p;
    p.n = large ? 8 + c.draw(max - 8) : c.weighted({1, 12}) == 0 ? 1 + c.draw(1) : 3 + c.draw(max - 3);
    p.adj.resize(p.n);
    auto edge = [&](size_t a, size_t b) { if (a != b) { p.adj[a] |= 1ull << b; p.adj[b] |= 1ull << a; } };
    std::vector<size_t> id(p.n); for (size_t i = 0; i != p.n; ++i) id[i] = i;
    for (size_t i = p.n; i > 1; --i) std::swap(id[i - 1], id[c.draw(i - 1)]);
    const size_t n = p.n;
    switch (large ? c.draw(2) : c.draw(6)) {
        case 0: p.shape = "chain"; for (size_t i = 1; i < n; ++i) edge(id[i - 1], id[i]); break;
        case 1: p.shape = "cycle"; for (size_t i = 0; i < n; ++i) edge(id[i], id[(i + 1) % n]); break;
        case 2: p.shape = large ? "caterpillar" : "tree";
            for (size_t i = 1; i < n; ++i) edge(id[i], id[large ? (i >= 4 and i % 4 == 3 ? i - 2 : i - 1) : c.draw(i - 1)]); break;
        case 3: p.shape = "star"; for (size_t i = 1; i < n; ++i) edge(id[0], id[i]); break;
        case 4: p.shape = "clique"; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) edge(id[i], id[j]); break;
        case 5: p.shape = "grid"; for (size_t i = 0; i < n; ++i) { if (i % 3) edge(id[i], id[i - 1]); if (i >= 3) edge(id[i], id[i - 3]); } break;
        default: p.shape = "random"; for (size_t i = 1; i < n; ++i) edge(id[i], id[c.draw(i - 1)]);
            for (size_t k = c.draw(n * 2); k; --k) edge(c.draw(n - 1), c.draw(n - 1));
    }
    p.cards.n = n;
    p.est = large ? 0 : consistent ? 2 : unsigned(c.weighted({4, 1, 2}));
    p.cards.seed = c.draw(UINT64_MAX);
    p.cards.bits = unsigned(c.oneof<uint64_t>({12, 3, 20, 30, 1}));
    for (size_t i = 0; i != n; ++i) p.cards.base.push_back(c.draw(p.est == 1 ? 25 : (1ull << p.cards.bits) - 1) + (c.chance(1, 40) ? 0 : 1));
    p.cards.product = p.est == 1;
    if (p.est == 2) { // injected sizes are limited by the product of the inputs, whatever those are
        for (uint64_t s = 1; s <= p.all(); ++s) {
            uint64_t card;
            if ((s & (s - 1)) == 0) card = p.cards.base[size_t(__builtin_ctzll(s))];
            else {
                uint64_t limit = UINT64_MAX;
                for (uint64_t a = (s - 1) & s; a; a = (a - 1) & s) {
                    const uint64_t x = p.cards.table.at(a), y = p.cards.table.at(s & ~a);
                    limit = std::min(limit, x and y > (1ull << 40) / x ? uint64_t(1) << 40 : x * y);
                }
                card = std::min(limit, vp::mix64(p.cards.seed ^ s) >> (64 - p.cards.bits));
                if (vp::mix64(p.cards.seed + s) % 5 == 0) card = limit;
            }
            p.cards.table[s] = card;
        }
    }
    if (c.chance(1, 3)) p.cost = {false, double(c.draw(4)), double(c.draw(4)), double(c.draw(2))};
    return p;
}

/// Reference over all connected subsets (Cartesian products excluded).
struct Reference {
    std::vector<uint64_t> csg; // ascending by size
    std::unordered_map<uint64_t, double> opt;
    bool distinct = true; // no two connected subproblems have the same size
    bool too_many = false;

    explicit Reference(const Problem &p, size_t limit) {
        std::set<uint64_t> seen;
        std::vector<uint64_t> todo;
        for (size_t i = 0; i != p.n; ++i) { todo.push_back(1ull << i); seen.insert(1ull << i); }
        for (size_t i = 0; i != todo.size(); ++i) {
            for (uint64_t t = p.neighbors(todo[i]); t; t &= t - 1) { const uint64_t x = todo[i] | (t & -t); if (seen.insert(x).second) todo.push_back(x); }
            if (todo.size() > limit) { too_many = true; return; }
        }
        csg = todo;
        std::stable_sort(csg.begin(), csg.end(), [](uint64_t a, uint64_t b) { return __builtin_popcountll(a) < __builtin_popcountll(b); });
        std::set<uint64_t> sizes;
        for (auto s : csg) distinct &= sizes.insert(p.cards(s)).second;
        for (auto s : csg) {
            if ((s & (s - 1)) == 0) { opt[s] = 0; continue; }
            double best = std::numeric_limits<double>::infinity();
            for (auto a : csg) {
                if (__builtin_popcountll(a) >= __builtin_popcountll(s)) break;
                if ((a & ~s) or a > (s & ~a)) continue;
                if (auto it = opt.find(s & ~a); it != opt.end()) best = std::min(best, p.join_min(a, s & ~a, opt[a], it->second));
            }
            opt[s] = best;
        }
    }
};

/// The graph of the query over tables T0, T1, ..., as built by the system.
struct Built {
    std::unique_ptr<m::ast::Stmt> stmt; std::unique_ptr<QueryGraph> G; std::string text;
};

m::Database & tables() {
    auto &C = m::Catalog::Get();
    auto &d = C.get_database_in_use();
    if (d.begin_tables() == d.end_tables()) {
        for (size_t i = 0; i != MAX_SOURCES; ++i) {
            auto &t = d.add_table(C.pool(("T" + std::to_string(i)).c_str()));
            for (size_t j = 0; j != MAX_SOURCES; ++j) t.push_back(C.pool(("c" + std::to_string(j)).c_str()), m::Type::Get_Integer(m::Type::TY_Vector, 4));
            t.layout(C.data_layout());
        }
    }
    return d;
}

Built build(Case &c, const Problem &p) {
    auto &C = m::Catalog::Get();
    auto &d = tables();
    Built b;
    std::ostringstream os; os << "SELECT 1 FROM ";
    for (size_t i = 0; i != p.n; ++i) {
        auto &t = d.get_table(C.pool(("T" + std::to_string(i)).c_str()));
        t.store(C.create_store(t));
        if (p.est == 1) for (uint64_t k = p.cards.base[i]; k; --k) t.store().append();
        os << (i ? ", T" : "T") << i;
    }
    bool first = true;
    for (size_t i = 0; i != p.n; ++i) for (size_t j = 0; j != i; ++j) if (p.adj[i] >> j & 1) {
        os << (first ? " WHERE " : " AND "); first = false;
        os << 'T' << i << ".c" << j << " = T" << j << ".c" << i;
    }
    os << ';';
    b.text = os.str();
    Diag dg;
    try { b.stmt = m::statement_from_string(dg.diag, b.text); } catch (m::frontend_exception &) { c.fail("rejected", b.text + dg.err.str()); }
    b.G = QueryGraph::Build(*b.stmt);
    VP_REQUIRE(c, b.G->num_sources() == p.n, "graph", "wrong number of sources: " << b.text);
    const auto &M = b.G->adjacency_matrix();
    for (size_t i = 0; i != p.n; ++i) for (size_t j = 0; j != p.n; ++j)
        VP_REQUIRE(c, M.is_connected(S_t::Singleton(i), S_t::Singleton(j)) == bool(p.adj[i] >> j & 1), "graph", "edge between sources " << i << " and " << j << " is wrong: " << b.text);
    return b;
}

void set_estimator(Case &c, const Problem &p) {
    auto &C = m::Catalog::Get();
    auto &d = C.get_database_in_use();
    std::unique_ptr<m::CardinalityEstimator> CE;
    if (p.est == 0) CE = std::make_unique<LookupEstimator>(p.cards);
    else if (p.est == 1) CE = std::make_unique<m::CartesianProductEstimator>();
    else {
        nlohmann::json j = nlohmann::json::array();
        for (uint64_t s = 1; s <= p.all(); ++s) {
            nlohmann::json names = nlohmann::json::array();
            for (size_t i = 0; i != p.n; ++i) { const size_t k = vp::mix64(s) & 1 ? i : p.n - 1 - i; if (s >> k & 1) names.push_back("T" + std::to_string(k)); }
            j.push_back({{"relations", names}, {"size", p.cards(s)}});
        }
        nlohmann::json top; top["db"] = j;
        std::istringstream in(top.dump());
        Diag dg;
        CE = std::make_unique<m::InjectionCardinalityEstimator>(dg.diag, C.pool("db"), in);
        VP_REQUIRE(c, dg.err.str().empty() and dg.out.str().empty(), "injection", "complaint about well-formed cardinalities: " << dg.err.str() << dg.out.str());
    }
    d.cardinality_estimator(std::move(CE));
}

std::unique_ptr<m::CostFunction> cost_function(const Problem &p) {
    if (p.cost.cout) return std::make_unique<m::CostFunctionCout>();
    return std::make_unique<CostBuildProbe>(p.cost.build, p.cost.probe, p.cost.out);
}

template<typename PT> void init(PT &pt, const QueryGraph &G) {
    auto &CE = m::Catalog::Get().get_database_in_use().cardinality_estimator();
    for (auto &ds : G.sources()) {
        const auto s = S_t::Singleton(ds->id());
        pt[s].cost = 0; pt[s].model = CE.estimate_scan(G, s);
    }
}

std::string bits(uint64_t s) { std::string r = "{"; for (; s; s &= s - 1) r += (r.size() > 1 ? "," : "") + std::to_string(__builtin_ctzll(s)); return r + "}"; }

template<typename PT> std::string show_plan(const PT &pt, uint64_t s) {
    if ((s & (s - 1)) == 0) return std::to_string(__builtin_ctzll(s));
    auto &e = pt[S_t(s)];
    if (e.left.empty() or e.right.empty()) return "?";
    return "(" + show_plan(pt, uint64_t(e.left)) + " " + show_plan(pt, uint64_t(e.right)) + ")";
}

/// Is the plan for \p s a tree over all its sources?  Returns its cost, computed from the tree.
template<typename PT> double check_tree(Case &c, const Problem &p, const PT &pt, uint64_t s, bool cross, const std::string &who, std::vector<uint64_t> &nodes) {
    auto &CE = m::Catalog::Get().get_database_in_use().cardinality_estimator();
    auto &e = pt[S_t(s)];
    VP_REQUIRE(c, bool(e.model), "model", who << ": no model for " << bits(s));
    VP_REQUIRE(c, CE.predict_cardinality(*e.model) == p.cards(s), "cardinality", who << ": size of " << bits(s) << " is " << CE.predict_cardinality(*e.model) << " instead of " << p.cards(s));
    if ((s & (s - 1)) == 0) { VP_REQUIRE(c, e.cost == 0, "cost", who << ": cost of source " << bits(s) << " is " << e.cost); return 0; }
    const uint64_t l = uint64_t(e.left), r = uint64_t(e.right);
    VP_REQUIRE(c, l and r and not (l & r) and (l | r) == s, "partition", who << ": " << bits(s) << " is joined from " << bits(l) << " and " << bits(r));
    VP_REQUIRE(c, cross or p.neighbors(l) & r, "cross-product", who << ": Cartesian product of " << bits(l) << " and " << bits(r));
    nodes.push_back(s);
    const double cl = check_tree(c, p, pt, l, cross, who, nodes), cr = check_tree(c, p, pt, r, cross, who, nodes);
    const double cost = p.join(l, r, cl, cr);
    VP_REQUIRE(c, e.cost == cost, "cost", who << ": cost of " << show_plan(pt, s) << " is recorded as " << e.cost << " instead of " << cost);
    return cost;
}

void describe(Case &c, const Problem &p, const std::string &text) {
    c.log() << p.shape << " of " << p.n << " sources; estimator " << (p.est == 0 ? "lookup" : p.est == 1 ? "Cartesian product" : "injected") << "; cost ";
    if (p.cost.cout) c.log() << "C_out"; else c.log() << p.cost.build << "*left + " << p.cost.probe << "*right + " << p.cost.out << "*result";
    c.log() << "\n" << text << "\nsizes:";
    size_t shown = 0;
    for (uint64_t s = 1; s <= p.all() and shown < 40; ++s) if (p.connected(s)) { c.log() << ' ' << bits(s) << '=' << p.cards(s); ++shown; }
    c.log() << "\n";
    c.label(p.shape); c.label(VP_STR("estimator " << p.est)); c.label(p.cost.cout ? "C_out" : "asymmetric costs");
    c.nontrivial(p.n >= 3);
}

enum Kind { EXACT, CROSS, HEURISTIC };
struct Enumerator { const char *name; Kind kind; bool large; };
const Enumerator ENUMS[] = {
    {"DPccp", EXACT, true}, {"DPsize", EXACT, false}, {"DPsizeOpt", EXACT, false}, {"DPsizeSub", EXACT, false}, {"DPsub", EXACT, false}, {"DPsubOpt", EXACT, false},
    {"TDbasic", EXACT, false}, {"TDMinCutAGaT", EXACT, true}, {"GOO", HEURISTIC, true}, {"TDGOO", HEURISTIC, true}, {"IKKBZ", HEURISTIC, true}, {"LinearizedDP", HEURISTIC, true},
    {"PEall", CROSS, false},
};

void partial_plans(Case &c, const Problem &p, const auto &pt, const QueryGraph &G) {
    std::unordered_map<uint64_t, uint64_t> count;
    std::function<uint64_t(uint64_t)> f = [&](uint64_t s) -> uint64_t { if ((s & (s - 1)) == 0) return 1; auto &e = pt[S_t(s)]; return 1 + f(uint64_t(e.left)) * f(uint64_t(e.right)); };
    const uint64_t want = f(p.all());
    if (want > 3000) return;
    std::set<std::vector<uint64_t>> seen;
    std::set<uint64_t> nodes;
    std::function<void(uint64_t)> g = [&](uint64_t s) { nodes.insert(s); if (s & (s - 1)) { g(uint64_t(pt[S_t(s)].left)); g(uint64_t(pt[S_t(s)].right)); } };
    g(p.all());
    m::PartialPlanGenerator gen;
    auto collect = [&](const std::vector<S_t> &plan) {
        uint64_t all = 0; std::vector<uint64_t> k;
        for (auto s : plan) {
            VP_REQUIRE(c, not (all & uint64_t(s)), "partial-plan", "parts of a partial plan overlap");
            VP_REQUIRE(c, nodes.count(uint64_t(s)), "partial-plan", bits(uint64_t(s)) << " is no part of the plan " << show_plan(pt, p.all()));
            all |= uint64_t(s); k.push_back(uint64_t(s));
        }
        VP_REQUIRE(c, all == p.all(), "partial-plan", "a partial plan lacks sources");
        std::sort(k.begin(), k.end());
        VP_REQUIRE(c, seen.insert(k).second, "partial-plan", "a partial plan is repeated");
    };
    gen.for_each_complete_partial_plan(pt, collect);
    VP_REQUIRE(c, seen.size() == want, "partial-plan", seen.size() << " partial plans instead of " << want << " for " << show_plan(pt, p.all()));
    // as JSON
    std::ostringstream os;
    gen.write_partial_plans_JSON(os, G, pt, [&](m::PartialPlanGenerator::callback_type cb) { gen.for_each_complete_partial_plan(pt, cb); });
    nlohmann::json j = nlohmann::json::parse(os.str(), nullptr, false);
    VP_REQUIRE(c, not j.is_discarded() and j.is_array(), "partial-plan-json", "no valid JSON: " << os.str().substr(0, 200));
    VP_REQUIRE(c, j.size() == want, "partial-plan-json", j.size() << " partial plans instead of " << want << ": " << os.str().substr(0, 200));
    std::set<std::vector<uint64_t>> in_json;
    for (auto &plan : j) {
        std::vector<uint64_t> k;
        for (auto &tree : plan) {
            std::istringstream is(tree.get<std::string>());
            std::function<uint64_t()> parse = [&]() -> uint64_t {
                std::string w; if (not (is >> w)) return 0;
                if (w == "@") { const uint64_t l = parse(), r = parse(); VP_REQUIRE(c, uint64_t(pt[S_t(l | r)].left) == l and uint64_t(pt[S_t(l | r)].right) == r, "partial-plan-json", "tree " << tree); return l | r; }
                return 1ull << std::stoul(w.substr(1));
            };
            k.push_back(parse());
        }
        std::sort(k.begin(), k.end());
        in_json.insert(k);
    }
    VP_REQUIRE(c, in_json == seen, "partial-plan-json", "the partial plans written differ from those enumerated: " << os.str().substr(0, 300));
}

/// Greedy operator ordering joins, in each step, the two subproblems with the smallest result.
void check_goo(Case &c, const Problem &p, const std::vector<uint64_t> &nodes) {
    std::vector<uint64_t> state; for (size_t i = 0; i != p.n; ++i) state.push_back(1ull << i);
    std::set<uint64_t> in(nodes.begin(), nodes.end());
    while (state.size() > 1) {
        size_t bi = 0, bj = 0; uint64_t best = UINT64_MAX;
        for (size_t i = 0; i != state.size(); ++i) for (size_t j = i + 1; j != state.size(); ++j)
            if (p.neighbors(state[i]) & state[j] and p.cards(state[i] | state[j]) < best) { best = p.cards(state[i] | state[j]); bi = i; bj = j; }
        VP_REQUIRE(c, in.count(state[bi] | state[bj]), "greedy", "GOO does not join " << bits(state[bi]) << " and " << bits(state[bj]) << " although their result is the smallest, " << best);
        state[bi] |= state[bj]; state.erase(state.begin() + long(bj));
    }
}
template<typename PT> void check_tdgoo(Case &c, const Problem &p, const Reference &ref, const PT &pt, const std::vector<uint64_t> &nodes) {
    for (auto s : nodes) {
        double best = std::numeric_limits<double>::infinity();
        for (auto a : ref.csg) if (not (a & ~s) and a != s and ref.opt.count(s & ~a)) best = std::min(best, double(p.cards(a)) + double(p.cards(s & ~a)));
        auto &e = pt[S_t(s)];
        const double got = double(p.cards(uint64_t(e.left))) + double(p.cards(uint64_t(e.right)));
        VP_REQUIRE(c, got == best, "greedy", "TDGOO cuts " << bits(s) << " into " << bits(uint64_t(e.left)) << " and " << bits(uint64_t(e.right)) << " of total size " << got << " although " << best << " is possible");
    }
}

template<typename PT> double run(Case &c, const Problem &p, const Reference &ref, const QueryGraph &G, const m::CostFunction &CF, const m::pe::PlanEnumerator &PE, const char *name, Kind kind,
                                 const char *table, double opt_cross, PT &pt)
{
    const std::string who = std::string(name) + " (" + table + ")";
    init(pt, G);
    PE(G, CF, pt);
    const uint64_t all = p.all();
    VP_REQUIRE(c, pt.has_plan(S_t(all)), "no-plan", who << " finds no plan");
    std::vector<uint64_t> nodes;
    const double cost = check_tree(c, p, pt, all, kind == CROSS, who, nodes);
    if (p.n == 1) return cost;
    VP_REQUIRE(c, nodes.size() == p.n - 1, "no-plan", who << ": plan of " << nodes.size() << " joins");
    const double best = kind == CROSS ? opt_cross : ref.opt.at(all);
    if (kind == HEURISTIC) VP_REQUIRE(c, cost >= best, "below-optimum", who << ": plan " << show_plan(pt, all) << " of cost " << cost << " is cheaper than the minimum " << best);
    else VP_REQUIRE(c, cost == best, "not-optimal", who << ": plan " << show_plan(pt, all) << " costs " << cost << " but the minimum is " << best);
    if (kind == EXACT)
        for (auto s : ref.csg) if (s & (s - 1) and pt.has_plan(S_t(s))) {
            std::vector<uint64_t> unused;
            const double x = check_tree(c, p, pt, s, false, who, unused);
            VP_REQUIRE(c, x == ref.opt.at(s), "not-optimal", who << ": plan " << show_plan(pt, s) << " of a subproblem costs " << x << " but the minimum is " << ref.opt.at(s));
        }
    if (ref.distinct and name == std::string("GOO")) check_goo(c, p, nodes);
    if (name == std::string("TDGOO")) check_tdgoo(c, p, ref, pt, nodes);
    if (name == std::string("IKKBZ")) for (auto s : nodes) { auto &e = pt[S_t(s)]; VP_REQUIRE(c, e.left.is_singleton() or e.right.is_singleton(), "bushy", who << ": bushy plan " << show_plan(pt, all)); }
    return cost;
}

double cross_optimum(const Problem &p) {
    std::vector<double> opt(p.all() + 1, 0);
    for (uint64_t s = 1; s <= p.all(); ++s) if (s & (s - 1)) {
        double best = std::numeric_limits<double>::infinity();
        for (uint64_t a = (s - 1) & s; a; a = (a - 1) & s) if (a < (s & ~a)) best = std::min(best, p.join_min(a, s & ~a, opt[a], opt[s & ~a]));
        opt[s] = best;
    }
    return opt[p.all()];
}

void quiet() { m::Options::Get().quiet = true; }

VP_PROP("C03", "enumerate", 3000, 40000) {
    quiet();
    Db db;
    auto p = gen_problem(c, c.chance(1, 12) ? 9 : 7, false);
    auto b = build(c, p);
    describe(c, p, b.text);
    set_estimator(c, p);
    auto CF = cost_function(p);
    Reference ref(p, 100000);
    const double cross = cross_optimum(p);
    double ikkbz = 0;
    for (auto &e : ENUMS) {
        auto &PE = db.C.plan_enumerator(db.C.pool(e.name));
        m::PlanTableSmallOrDense small(*b.G);
        const double x = run(c, p, ref, *b.G, *CF, PE, e.name, e.kind, "small", cross, small);
        m::PlanTableLargeAndSparse sparse(*b.G);
        const double y = run(c, p, ref, *b.G, *CF, PE, e.name, e.kind, "large", cross, sparse);
        VP_REQUIRE(c, x == y, "tables-differ", e.name << ": costs " << x << " and " << y << " by the kind of plan table");
        for (uint64_t s = 1; s <= p.all(); ++s) {
            VP_REQUIRE(c, small.has_plan(S_t(s)) == sparse.has_plan(S_t(s)), "tables-differ", e.name << ": " << bits(s) << " has a plan in one kind of table only");
            if (s & (s - 1) and small.has_plan(S_t(s))) VP_REQUIRE(c, small[S_t(s)] == sparse[S_t(s)], "tables-differ", e.name << ": plan of " << bits(s) << " depends on the kind of plan table");
        }
        if (e.name == std::string("IKKBZ")) ikkbz = x;
        if (e.name == std::string("LinearizedDP") and p.n > 1) VP_REQUIRE(c, x <= ikkbz, "linearized", "LinearizedDP costs " << x << ", the linearization itself only " << ikkbz);
        if (e.name == std::string("GOO") or e.name == std::string("DPccp")) { partial_plans(c, p, small, *b.G); if (p.n < 6) partial_plans(c, p, sparse, *b.G); }
    }
}

VP_PROP("C03", "large", 600, 8000) {
    quiet();
    Db db;
    auto p = gen_problem(c, MAX_SOURCES, true);
    Reference ref(p, 400);
    if (ref.too_many) c.discard();
    auto b = build(c, p);
    describe(c, p, b.text);
    set_estimator(c, p);
    auto CF = cost_function(p);
    double ikkbz = 0;
    for (auto &e : ENUMS) if (e.large) {
        m::PlanTableLargeAndSparse sparse(*b.G);
        const double x = run(c, p, ref, *b.G, *CF, db.C.plan_enumerator(db.C.pool(e.name)), e.name, e.kind, "large", 0, sparse);
        if (e.name == std::string("IKKBZ")) ikkbz = x;
        if (e.name == std::string("LinearizedDP")) VP_REQUIRE(c, x <= ikkbz, "linearized", "LinearizedDP costs " << x << ", the linearization itself only " << ikkbz);
    }
}

/*----- Heuristic search -----------------------------------------------------------------------------------------------*/

struct Config { const char *expand, *heuristic, *search; };
const Config CONFIGS[] = {
#define BU(H, S) {"BottomUpComplete", #H, #S},
#define TD(H, S) {"TopDownComplete", #H, #S},
    BU(zero, AStar) BU(zero, AStar_with_cbp) BU(zero, beam_search) BU(zero, beam_search_with_cbp) BU(zero, dynamic_beam_search) BU(zero, anytimeAStar) BU(zero, weighted_anytimeAStar) BU(zero, anytimeAStar_with_cbp) BU(zero, weighted_anytimeAStar_with_cbp)
    BU(sum, AStar) BU(sum, AStar_with_cbp) BU(sum, weighted_AStar) BU(sum, lazyAStar) BU(sum, beam_search) BU(sum, dynamic_beam_search) BU(sum, anytimeAStar) BU(sum, weighted_anytimeAStar) BU(sum, anytimeAStar_with_cbp) BU(sum, weighted_anytimeAStar_with_cbp)
    BU(scaled_sum, AStar) BU(scaled_sum, beam_search) BU(scaled_sum, dynamic_beam_search) BU(avg_sel, AStar) BU(avg_sel, beam_search) BU(product, AStar)
    BU(GOO, AStar) BU(GOO, AStar_with_cbp) BU(GOO, weighted_AStar) BU(GOO, beam_search) BU(GOO, dynamic_beam_search) BU(GOO, anytimeAStar) BU(GOO, weighted_anytimeAStar) BU(GOO, anytimeAStar_with_cbp) BU(GOO, weighted_anytimeAStar_with_cbp)
    TD(zero, AStar) TD(zero, AStar_with_cbp) TD(zero, beam_search) TD(zero, dynamic_beam_search) TD(zero, anytimeAStar) TD(zero, weighted_anytimeAStar) TD(zero, anytimeAStar_with_cbp) TD(zero, weighted_anytimeAStar_with_cbp)
    TD(sqrt_sum, AStar) TD(sum, AStar) TD(sum, AStar_with_cbp) TD(sum, weighted_AStar) TD(sum, beam_search) TD(sum, dynamic_beam_search) TD(sum, anytimeAStar) TD(sum, weighted_anytimeAStar) TD(sum, anytimeAStar_with_cbp) TD(sum, weighted_anytimeAStar_with_cbp)
    TD(GOO, AStar) TD(GOO, AStar_with_cbp) TD(GOO, weighted_AStar) TD(GOO, beam_search) TD(GOO, dynamic_beam_search) TD(GOO, anytimeAStar) TD(GOO, weighted_anytimeAStar) TD(GOO, anytimeAStar_with_cbp) TD(GOO, weighted_anytimeAStar_with_cbp)
#undef BU
#undef TD
};

void set_search(const Config &k, float wf, uint64_t budget) {
    static std::string w, n; // the options keep pointers
    w = std::to_string(wf); n = std::to_string(budget);
    const char *argv[] = {"x", "--hs-expand", k.expand, "--hs-heuristic", k.heuristic, "--hs-search", k.search, "--hs-wf", w.c_str(), "--hs-budget", n.c_str(), nullptr};
    m::Catalog::Get().arg_parser().parse_args(11, argv);
}

void search(Case &c, bool bound) {
    quiet();
    Db db;
    const auto &k = CONFIGS[c.draw(std::size(CONFIGS) - 1)];
    const std::string s = k.search, h = k.heuristic;
    auto p = gen_problem(c, 7, false, h == "avg_sel"); // selectivities do not exceed one
    p.cost = {}; // the search is made for C_out
    const float wf = s.find("weighted") != s.npos ? float(c.oneof<int>({1, 2, 5})) : 1.f;
    const bool limited = s.find("anytime") != s.npos and c.coin();
    const uint64_t budget = limited ? c.size(60) : UINT64_MAX;
    auto b = build(c, p);
    describe(c, p, b.text);
    c.log() << "search " << k.expand << ' ' << h << ' ' << s << " weight " << wf << " budget " << budget << (bound ? " with an initial bound" : "") << "\n";
    c.label(std::string(k.expand) + " " + h + " " + s); c.label_if(limited, "limited budget");
    set_estimator(c, p);
    auto CF = cost_function(p);
    Reference ref(p, 100000);
    set_search(k, wf, budget);
    auto &PE = db.C.plan_enumerator(db.C.pool("HeuristicSearch"));
    // A* with an admissible heuristic finds an optimum: zero always is, and the total size of what is yet to be joined is when going top down
    const bool exact = not limited and wf == 1 and s.find("beam") == s.npos and (h == "zero" or (h == "sum" and k.expand[0] == 'T'));
    c.label_if(exact, "optimum required");
    m::PlanTableSmallOrDense small(*b.G);
    const std::string who = std::string("HeuristicSearch ") + k.expand + " " + h + " " + s;
    run(c, p, ref, *b.G, *CF, PE, who.c_str(), exact ? EXACT : HEURISTIC, "small", 0, small);
    m::PlanTableLargeAndSparse sparse(*b.G);
    run(c, p, ref, *b.G, *CF, PE, who.c_str(), exact ? EXACT : HEURISTIC, "large", 0, sparse);
}

VP_PROP("C03", "search", 4000, 60000) { search(c, false); }

// The option cannot be unset, hence this part is the last one.
VP_PROP("C03", "search-bounded", 2000, 30000) {
    const char *argv[] = {"x", "--hs-init-upper-bound", nullptr};
    m::Catalog::Get().arg_parser().parse_args(2, argv);
    search(c, true);
}

}
