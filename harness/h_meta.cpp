// C02: one query under many physical configurations, and many equivalent forms of one query, against one result.
#include "exec.hpp"
#include <algorithm>
#include <fstream>
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/catalog/CostFunction.hpp>
#include <mutable/catalog/CostFunctionCout.hpp>
#include <mutable/IR/CNF.hpp>
#include <mutable/IR/Optimizer.hpp>
#include <mutable/IR/PlanEnumerator.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/Options.hpp>

using namespace db;

namespace {

/// Answers with arbitrary cardinalities, which depend on the operation and its inputs only.
struct ArbitraryEstimator : m::CardinalityEstimatorCRTP<ArbitraryEstimator>
{
    struct Model : m::DataModel { uint64_t h; explicit Model(uint64_t h) : h(h) { } void assign_to(m::Subproblem) override { } };
    uint64_t seed, limit;
    ArbitraryEstimator(uint64_t seed, uint64_t limit) : seed(seed), limit(limit) { }
    static uint64_t get(const m::DataModel &d) { return m::as<const Model>(d).h; }
    std::unique_ptr<m::DataModel> mk(uint64_t kind, uint64_t x) const { return std::make_unique<Model>(vp::mix64(x ^ (seed + kind * 0x9e3779b97f4a7c15ull))); }
    std::unique_ptr<m::DataModel> empty_model() const override { return mk(0, 0); }
    std::unique_ptr<m::DataModel> estimate_scan(const m::QueryGraph&, m::Subproblem P) const override { return mk(1, uint64_t(P)); }
    std::unique_ptr<m::DataModel> estimate_filter(const m::QueryGraph&, const m::DataModel &d, const m::cnf::CNF&) const override { return mk(2, get(d)); }
    std::unique_ptr<m::DataModel> estimate_limit(const m::QueryGraph&, const m::DataModel &d, std::size_t, std::size_t) const override { return mk(3, get(d)); }
    std::unique_ptr<m::DataModel> estimate_grouping(const m::QueryGraph&, const m::DataModel &d, const std::vector<group_type>&) const override { return mk(4, get(d)); }
    std::unique_ptr<m::DataModel> estimate_join(const m::QueryGraph&, const m::DataModel &l, const m::DataModel &r, const m::cnf::CNF&) const override { return mk(5, get(l) + get(r)); }
    template<typename PT> std::unique_ptr<m::DataModel> operator()(m::estimate_join_all_tag, PT &&, const m::QueryGraph&, m::Subproblem s, const m::cnf::CNF&) const { return mk(6, uint64_t(s)); }
    std::size_t predict_cardinality(const m::DataModel &d) const override { return get(d) % (limit + 1); }
    void print(std::ostream &out) const override { out << "arbitrary"; }
};

/// Costs of building and probing.
struct CostBuildProbe : m::CostFunctionCRTP<CostBuildProbe>
{
    double build, probe, out;
    CostBuildProbe(double b, double p, double o) : build(b), probe(p), out(o) { }
    template<typename PT> double operator()(m::calculate_filter_cost_tag, const PT &pt, const m::QueryGraph&, const m::CardinalityEstimator&, m::SmallBitset s, const m::cnf::CNF&) const { return pt[s].cost; }
    template<typename PT> double operator()(m::calculate_join_cost_tag, const PT &pt, const m::QueryGraph&, const m::CardinalityEstimator &CE, m::SmallBitset l, m::SmallBitset r, const m::cnf::CNF&) const {
        return pt[l].cost + pt[r].cost + build * double(CE.predict_cardinality(*pt[l].model)) + probe * double(CE.predict_cardinality(*pt[r].model)) + out * double(CE.predict_cardinality(*pt[l | r].model));
    }
    template<typename PT> double operator()(m::calculate_grouping_cost_tag, const PT &pt, const m::QueryGraph&, const m::CardinalityEstimator&, m::SmallBitset s, const std::vector<const m::ast::Expr*>&) const { return pt[s].cost; }
};

const char *const ENUMS[] = {"DPccp", "DPsub", "DPsubOpt", "DPsize", "DPsizeOpt", "DPsizeSub", "GOO", "TDGOO", "IKKBZ", "LinearizedDP", "TDbasic", "TDMinCutAGaT", "PEall", "HeuristicSearch"};
const char *const STORES[] = {"PaxStore", "RowStore", "ColumnStore"};

struct Config {
    const char *layout, *store, *pe; unsigned how, est, cf, pt; uint64_t seed, limit; double w[3]; bool permute, post;
    std::string str() const { return VP_STR("layout " << layout << ", store " << store << ", insert mode " << how << (permute ? ", permuted rows" : "") << (post ? ", post-optimized" : "") << ", enumerator " << pe << ", estimator " << est << ", cost function " << cf << ", plan table " << pt); }
};
Config gen_config(Case &c) {
    Config k;
    k.layout = LAYOUTS[c.draw(7)]; k.store = STORES[c.draw(2)]; k.pe = ENUMS[c.draw(std::size(ENUMS) - 1)];
    k.how = unsigned(c.draw(3)); k.permute = c.coin(); k.post = c.coin();
    k.est = unsigned(c.weighted({2, 4, 3})); // Cartesian product, arbitrary, injected
    k.cf = unsigned(c.draw(1)); k.pt = unsigned(c.draw(2));
    k.seed = c.draw(UINT64_MAX); k.limit = c.oneof<uint64_t>({30, 0, 1, 300, 3000});
    for (auto &w : k.w) w = double(c.draw(3));
    return k;
}

std::vector<Table> gen_tables(Case &c, size_t max_tables, size_t max_rows, size_t max_cols) {
    std::vector<Table> ts;
    const size_t n = 1 + c.draw(max_tables - 1);
    for (size_t i = 0; i != n; ++i) ts.push_back(gen_table(c, "T" + std::to_string(i), max_rows, max_cols));
    return ts;
}
void describe(Case &c, const std::vector<Table> &ts) {
    for (auto &t : ts) {
        c.log() << create_sql(t) << "\n";
        std::vector<Ty> ty; for (auto &x : t.cols) ty.push_back(x.ty);
        c.log() << show(ty, t.rows, 100);
    }
}

/// Injected cardinalities of some of the subproblems of the query.
std::string injected(const Query &q, uint64_t seed, uint64_t limit) {
    std::ostringstream os; os << "{ \"db\": ["; bool first = true;
    const size_t n = std::min<size_t>(q.from.size(), 6);
    limit = std::min(limit, uint64_t(std::pow(std::max(1., 2e5 / q.est), 1. / double(std::max<size_t>(1, n))))); // hash tables are allocated by the estimate
    for (size_t s = 1; s < (1ull << n); ++s) {
        const uint64_t h = vp::mix64(seed ^ s);
        if (h % 4 == 0) continue;
        os << (first ? "" : ",") << "\n{ \"relations\": ["; first = false; bool f = true;
        for (size_t i = 0; i != n; ++i) if (s >> i & 1) { os << (f ? "" : ", ") << '"' << q.from[i].alias << '"'; f = false; }
        os << "], \"size\": " << (h >> 8) % (limit + 1) << " }";
    }
    os << "] }";
    return os.str();
}

/// Executes \p text under the configuration.
Db::Out run(Case &c, Db &db, const Query &q, const std::string &text, const Config &k) {
    m::Options::Get().quiet = true;
    Diag d;
    std::unique_ptr<m::CardinalityEstimator> CE;
    if (k.est == 1) CE = std::make_unique<ArbitraryEstimator>(k.seed, k.limit);
    else if (k.est == 2) { std::istringstream in(injected(q, k.seed, k.limit)); CE = std::make_unique<m::InjectionCardinalityEstimator>(d.diag, db.C.pool("db"), in); }
    else CE = std::make_unique<m::CartesianProductEstimator>(db.C.pool("db"));
    VP_REQUIRE(c, d.diag.num_errors() == 0, "injection", "cardinalities rejected: " << d.err.str());
    db.database().cardinality_estimator(std::move(CE));
    m::Options::Get().plan_table_type = k.pt == 1 ? m::Options::PT_SmallOrDense : k.pt == 2 ? m::Options::PT_LargeAndSparse : m::Options::PT_auto;
    std::unique_ptr<m::ast::Stmt> stmt;
    try { stmt = m::statement_from_string(d.diag, text); }
    catch (m::frontend_exception &) { m::Options::Get().plan_table_type = m::Options::PT_auto; c.fail("rejected", "valid query rejected: " + text + "\n" + d.err.str()); }
    Db::Out out;
    auto op = std::make_unique<m::CallbackOperator>([&](const m::Schema &S, const m::Tuple &tup) {
        if (not out.called) {
            out.called = true;
            for (auto &e : S) { out.types.push_back(from_type(e.type)); out.names.push_back(*e.id.name); }
        }
        Row r;
        for (size_t i = 0; i != S.num_entries(); ++i) r.push_back(get_tuple(tup, i, S[i].type));
        out.rows.push_back(std::move(r));
    });
    CostBuildProbe bp(k.w[0], k.w[1], k.w[2]);
    const m::CostFunction &CF = k.cf ? static_cast<const m::CostFunction&>(bp) : db.C.cost_function();
    auto G = m::QueryGraph::Build(*stmt);
    m::Optimizer Opt(db.C.plan_enumerator(db.C.pool(k.pe)), CF);
    std::unique_ptr<m::Producer> lplan = Opt(*G);
    if (k.post) for (auto &f : db.C.logical_post_optimizations()) lplan = (*f.second).operator()(std::move(lplan));
    op->add_child(lplan.release());
    m::Options::Get().plan_table_type = m::Options::PT_auto;
    static auto backend = db.C.create_backend();
    auto plan = m::physical_plan_from_logical_plan(d.diag, *op, *backend);
    if (k.post) for (auto &f : db.C.physical_post_optimizations()) plan = (*f.second).operator()(std::move(plan));
    m::execute_physical_plan(d.diag, *plan, *backend);
    return out;
}

void permute(Case &c, std::vector<Table> &ts) { for (auto &t : ts) for (size_t i = t.rows.size(); i > 1; --i) std::swap(t.rows[i - 1], t.rows[c.draw(i - 1)]); }

void load(Case &c, Db &db, std::vector<Table> ts, const Config &k) {
    db.layout(k.layout); db.C.default_store(db.C.pool(k.store));
    if (k.permute) permute(c, ts);
    for (auto &t : ts) db.create(c, t, k.how);
    db.C.default_store(db.C.pool("PaxStore"));
}

VP_PROP("C02", "configurations", 6000, 60000) {
    auto ts = gen_tables(c, 3, c.chance(1, 15) ? 600 : 40, 4);
    describe(c, ts);
    unsigned fresh = 0;
    QueryShape shape; shape.max_sources = 5; shape.max_product = 3000;
    auto q = gen_query(c, ts, shape, 0, fresh);
    const std::string text = str(*q) + ";";
    c.log() << text << "\n";
    const Result want = eval(*q);
    c.nontrivial(q->from.size() > 1 and not want.rows.empty());
    c.label(VP_STR(q->from.size() << " sources"));
    c.label_if(q->limit and q->order_by.empty(), "LIMIT without ORDER BY");
    for (size_t n = 2 + c.draw(2); n; --n) {
        auto k = gen_config(c);
        c.log() << k.str() << "\n";
        c.label(k.pe); c.label(k.layout); c.label(k.store); c.label(k.est == 0 ? "Cartesian product estimates" : k.est == 1 ? "arbitrary estimates" : "injected estimates");
        Db db; load(c, db, ts, k);
        check_result(c, *q, run(c, db, *q, text, k), want, text + "\n" + k.str());
    }
}

/*----- Equivalent queries ---------------------------------------------------------------------------------------------*/

using Fn = std::function<EP(EP)>;
/// Copies the expression, applying \p f to every node, from the leaves up.
EP rewrite(const EP &e, const Fn &f) {
    auto x = std::make_shared<E>(*e);
    for (auto &ch : x->ch) ch = rewrite(ch, f);
    return f(x);
}
void rewrite(Query &q, const Fn &f) {
    for (auto &it : q.items) it.e = rewrite(it.e, f);
    if (q.where) q.where = rewrite(q.where, f);
    for (auto &g : q.group_by) g = rewrite(g, f);
    if (q.having) q.having = rewrite(q.having, f);
    for (auto &o : q.order_by) if (o.e) o.e = rewrite(o.e, f);
}
EP lnot(EP e) { return mk_un(NOT, std::move(e), mk(BOOL)); }
EP land(EP a, EP b) { return mk_bin(AND, std::move(a), std::move(b), mk(BOOL)); }
EP lor(EP a, EP b) { return mk_bin(OR, std::move(a), std::move(b), mk(BOOL)); }
bool is_bool_op(const EP &e, OP op) { return e->k == BIN and e->op == op; }
void flatten(const EP &e, OP op, std::vector<EP> &out) { if (is_bool_op(e, op)) { flatten(e->ch[0], op, out); flatten(e->ch[1], op, out); } else out.push_back(e); }
EP shuffle(Case &c, const EP &e, OP op) {
    std::vector<EP> xs; flatten(e, op, xs);
    while (xs.size() > 1) { // random order and shape
        auto take = [&] { size_t i = c.draw(xs.size() - 1); auto x = xs[i]; xs.erase(xs.begin() + long(i)); return x; };
        auto a = take(), b = take(); xs.push_back(mk_bin(op, a, b, mk(BOOL)));
    }
    return xs[0];
}
OP flip(OP o) { switch (o) { case LT: return GT; case GT: return LT; case LE: return GE; case GE: return LE; default: return o; } }
OP complement(OP o) { switch (o) { case LT: return GE; case GT: return LE; case LE: return GT; case GE: return LT; case EQ: return NE; case NE: return EQ; default: return o; } }

/// One step of rewriting of a condition; never changes its value.
EP rewrite_condition(Case &c, const EP &e, std::string &how) {
    const unsigned kind = unsigned(c.draw(7));
    size_t budget = 2;
    auto some = [&] { if (not budget or not c.coin()) return false; --budget; return true; };
    switch (kind) {
        case 0: how += " shuffle"; return shuffle(c, e, AND);
        case 1: how += " commute"; return rewrite(e, [&](EP x) -> EP {
            if (x->k != BIN or not c.coin()) return x;
            if (x->op == ADD or x->op == MUL) { std::swap(x->ch[0], x->ch[1]); return x; }
            if (x->op >= LT and x->op <= NE) { std::swap(x->ch[0], x->ch[1]); x->op = flip(x->op); }
            else if (x->op == AND or x->op == OR) std::swap(x->ch[0], x->ch[1]);
            return x; });
        case 2: how += " complement"; return rewrite(e, [&](EP x) -> EP {
            if (x->k == BIN and x->op >= LT and x->op <= NE and some()) { x->op = complement(x->op); return lnot(x); }
            return x; });
        case 3: how += " de-morgan"; return rewrite(e, [&](EP x) -> EP {
            if ((is_bool_op(x, AND) or is_bool_op(x, OR)) and some()) return lnot(mk_bin(x->op == AND ? OR : AND, lnot(x->ch[0]), lnot(x->ch[1]), mk(BOOL)));
            return x; });
        case 4: how += " double-negation"; return rewrite(e, [&](EP x) -> EP { if (x->ty.k == BOOL and x->k != COL and x->k != REF and some()) return lnot(lnot(x)); return x; });
        case 5: how += " neutral"; return rewrite(e, [&](EP x) -> EP {
            if (x->ty.k != BOOL or not some()) return x;
            return c.coin() ? land(x, mk_const(mk(BOOL), V::B(true))) : lor(mk_const(mk(BOOL), V::B(false)), x); });
        case 6: how += " idempotent"; return rewrite(e, [&](EP x) -> EP { if (x->ty.k == BOOL and not x->has_sub() and some()) return c.coin() ? land(x, x) : lor(x, x); return x; });
        default: how += " distribute"; return rewrite(e, [&](EP x) -> EP {
            if (x->has_sub()) return x;
            if (is_bool_op(x, AND) and is_bool_op(x->ch[1], OR)) return lor(land(x->ch[0], x->ch[1]->ch[0]), land(x->ch[0], x->ch[1]->ch[1]));
            if (is_bool_op(x, OR) and is_bool_op(x->ch[1], AND)) return land(lor(x->ch[0], x->ch[1]->ch[0]), lor(x->ch[0], x->ch[1]->ch[1]));
            return x; });
    }
}
bool good_where(const EP &e) { return not e or (binary_clauses(*e) and moderate_cnf(*e)); }
bool good_having(const EP &e) { return not e or (moderate_cnf(*e) and binary_having(*e)); }

/// The sources in another order.
bool permute_sources(Case &c, Query &q) {
    if (q.star or q.from.size() < 2) return false;
    std::vector<size_t> to(q.from.size()); for (size_t i = 0; i != to.size(); ++i) to[i] = i;
    for (size_t i = to.size(); i > 1; --i) std::swap(to[i - 1], to[c.draw(i - 1)]);
    std::vector<Source> from(q.from.size()); for (size_t i = 0; i != to.size(); ++i) from[to[i]] = q.from[i];
    q.from = from;
    rewrite(q, [&](EP x) { if (x->k == COL) x->src = to[x->src]; return x; });
    return true;
}

/// Replaces a nested query in FROM by its sources.
bool inline_nested(Query &q) {
    if (q.star) return false;
    for (size_t s = 0; s != q.from.size(); ++s) {
        if (not q.from[s].sub) continue;
        const Query &sub = *q.from[s].sub;
        if (sub.grouped or sub.limit or sub.star or sub.from.empty()) continue;
        bool ok = true; for (auto &it : sub.items) ok &= it.e->has_col() and not it.e->has_sub();
        for (auto &f : sub.from) for (size_t k = 0; k != q.from.size(); ++k) if (k != s) ok &= f.alias != q.from[k].alias;
        for (size_t i = 0; i != q.group_by.size(); ++i) ok &= not q.group_alias[i].empty(); // an expression needs a name of its own
        for (auto &o : q.order_by) ok &= not o.e and q.order_by_alias and not q.items[o.item].alias.empty(); // likewise
        if (not ok) continue;
        const size_t delta = sub.from.size() - 1;
        std::vector<Source> from(q.from.begin(), q.from.begin() + long(s));
        from.insert(from.end(), sub.from.begin(), sub.from.end());
        from.insert(from.end(), q.from.begin() + long(s) + 1, q.from.end());
        auto inner = [&](EP x) { if (x->k == COL) x->src += s; return x; };
        EP where = sub.where ? rewrite(sub.where, inner) : nullptr;
        rewrite(q, [&](EP x) -> EP {
            if (x->k != COL) return x;
            if (x->src == s) return rewrite(sub.items[x->col].e, inner);
            if (x->src > s) x->src += delta;
            return x;
        });
        if (where) q.where = q.where ? land(q.where, where) : where;
        q.from = from;
        return true;
    }
    return false;
}

/// Nests the query into FROM.
std::string wrap(Query &q, unsigned fresh) {
    const std::string a = "w" + std::to_string(fresh);
    std::string s = "SELECT ";
    for (size_t i = 0; i != q.items.size(); ++i) { if (q.items[i].alias.empty()) q.items[i].alias = "x" + std::to_string(i); s += (i ? ", " : "") + a + "." + q.items[i].alias; }
    return s + " FROM (" + str(q) + ") AS " + a;
}

/// An equality or comparison of columns of one source, or some other condition
EP gen_condition(Case &c, const Query &q) {
    Scope sc;
    for (size_t src = 0; src != q.from.size(); ++src) {
        auto &f = q.from[src];
        if (f.sub) { for (size_t k = 0; k != f.sub->out.size(); ++k) { auto &o = f.sub->out[k]; if (not o.approx) sc.cols.push_back({src, k, f.alias + "." + o.name, o.name, o.ty, o.wide, o.maxabs, o.frac}); } }
        else for (size_t k = 0; k != f.table->cols.size(); ++k) { auto &col = f.table->cols[k];
            const double bound = col.ty.k == DEC ? 24. * double(sql::pow10(col.ty.scale)) : col.ty.fp() ? 6 : 9;
            sc.cols.push_back({src, k, f.alias + "." + col.name, col.name, col.ty, col.wide, bound, 2}); }
    }
    GenE g{c, sc};
    return g.boolean(1 + c.draw(1));
}

VP_PROP("C02", "rewritings", 10000, 100000) {
    auto ts = gen_tables(c, 3, 30, 4);
    describe(c, ts);
    auto k = gen_config(c); k.how = unsigned(c.draw(1)); k.permute = false;
    c.log() << k.str() << "\n";
    unsigned fresh = 0;
    QueryShape shape; shape.max_sources = 4; shape.max_product = 2000;
    auto q = gen_query(c, ts, shape, 0, fresh);
    const std::string text = str(*q) + ";";
    c.log() << text << "\n";
    const Result want = eval(*q);
    Db db; load(c, db, ts, k);
    size_t done = 0;
    for (size_t n = 1 + c.draw(3); n; --n) {
        Query r = *q;
        std::string how;
        for (size_t steps = 1 + c.draw(2); steps; --steps) {
            Query before = r; const std::string how_before = how;
            switch (c.weighted({2, 4, 2, 3})) {
                case 0: if (permute_sources(c, r)) how += " permuted-sources"; break;
                case 1: if (r.where) r.where = rewrite_condition(c, r.where, how); break;
                case 2: if (r.having) { r.having = rewrite_condition(c, r.having, how); how += "(having)"; } break;
                default: if (inline_nested(r)) how += " inlined"; break;
            }
            if (not good_where(r.where) or not good_having(r.having)) { r = before; how = how_before; }
        }
        std::string t = str(r) + ";";
        if (not r.star and not r.limit and r.order_by.empty() and c.chance(1, 4)) { t = wrap(r, 90 + unsigned(n)) + ";"; how += " wrapped"; }
        if (t == text) continue;
        ++done;
        std::istringstream hs(how); for (std::string h; hs >> h; ) c.label(h);
        c.log() << "rewritten (" << how << " ): " << t << "\n";
        check_result(c, r, run(c, db, r, t, k), want, text + "\nrewritten (" + how + " ):\n" + t + "\n" + k.str());
    }
    c.nontrivial(done and not want.rows.empty());
}

/// The rows which fulfil a condition, those which do not, and those for which it is unknown, are all the rows.
VP_PROP("C02", "partitions", 6000, 60000) {
    auto ts = gen_tables(c, 3, 40, 4);
    describe(c, ts);
    auto k = gen_config(c); k.how = unsigned(c.draw(1)); k.permute = false;
    c.log() << k.str() << "\n";
    unsigned fresh = 0;
    QueryShape shape; shape.max_sources = 3; shape.max_product = 2000;
    auto q = gen_query(c, ts, shape, 0, fresh);
    q->limit.reset(); q->offset.reset(); q->order_by.clear();
    if (q->grouped or q->from.empty()) c.discard();
    EP p = gen_condition(c, *q);
    if (not p->has_col()) c.discard(); // ISNULL needs a column
    const std::string text = str(*q) + ";";
    c.log() << text << "\npartitioned by " << str(*p) << "\n";
    const Result want = eval(*q);
    Db db; load(c, db, ts, k);
    Db::Out all; size_t parts = 0;
    for (auto &cond : {p, lnot(p), mk_un(ISNULL, p, mk(BOOL))}) {
        Query r = *q; r.where = r.where ? (c.coin() ? land(r.where, cond) : land(cond, r.where)) : cond;
        if (not good_where(r.where)) c.discard();
        auto out = run(c, db, r, str(r) + ";", k);
        parts += not out.rows.empty();
        if (out.called) { all.called = true; all.types = out.types; all.names = out.names; }
        all.rows.insert(all.rows.end(), out.rows.begin(), out.rows.end());
    }
    c.label(VP_STR(parts << " parts are not empty"));
    c.nontrivial(parts > 1);
    check_result(c, *q, all, want, text + "\npartitioned by " + str(*p) + "\n" + k.str());
}

}
