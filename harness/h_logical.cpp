// C21: logical plans contain what the statement says, columns are available where they are needed, constraints hold.
#include "exec.hpp"
#include <algorithm>
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/IR/CNF.hpp>
#include <mutable/IR/Optimizer.hpp>
#include <mutable/IR/PlanEnumerator.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/Options.hpp>

using namespace db;

namespace {

const char *const ENUMS[] = {"DPccp", "DPsub", "DPsubOpt", "DPsize", "DPsizeOpt", "DPsizeSub", "GOO", "TDGOO", "IKKBZ", "LinearizedDP", "TDbasic", "TDMinCutAGaT", "PEall"};

/*----- What the statement says ----------------------------------------------------------------------------------------*/
struct Facts {
    std::map<std::string, size_t> scans; size_t grouping = 0, aggregation = 0, sorting = 0, limit = 0;
    std::map<std::string, size_t> clauses; ///< number of occurrences
    std::set<std::string> constants; ///< clauses without columns, which apply to every source
    std::multiset<std::pair<size_t, size_t>> limits;
    std::multiset<std::string> keys, orders, aggregates;
};

template<typename T> std::string text(const T &x) { std::ostringstream os; os << x; return os.str(); }
std::string canonical(const m::cnf::Clause &cl) {
    std::set<std::string> ps; // a set of literals
    for (auto &p : cl) ps.insert((p.negative() ? "NOT " : "") + text(*p));
    std::string s; for (auto &p : ps) s += p + " | ";
    return s;
}
bool constant(const m::cnf::Clause &cl) {
    bool is = true;
    for (auto &p : cl) m::ast::visit([&](auto &e) { using T = std::decay_t<decltype(e)>; if constexpr (std::is_same_v<T, m::ast::Designator>) { if (e.type()->is_primitive()) is = false; } if constexpr (std::is_same_v<T, m::ast::QueryExpr>) is = false; }, *p, m::tag<m::ast::ConstPreOrderExprVisitor>());
    return is;
}
void facts(const m::ast::SelectStmt &s, Facts &f);
void nested(const m::ast::Expr &e, Facts &f) {
    m::ast::visit([&](auto &x) { using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, m::ast::QueryExpr>) { facts(m::as<const m::ast::SelectStmt>(*x.query), f); } }, e, m::tag<m::ast::ConstPreOrderExprVisitor>());
}
void aggregates(const m::ast::Expr &e, std::set<std::string> &out) {
    m::ast::visit([&](auto &x) { using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, m::ast::FnApplicationExpr>) if (x.get_function().is_aggregate()) out.insert(text(x)); }, e, m::tag<m::ast::ConstPreOrderExprVisitor>());
}
void facts(const m::ast::SelectStmt &s, Facts &f) {
    using namespace m::ast;
    std::set<std::string> aggs;
    for (auto &it : m::as<SelectClause>(*s.select).select) { nested(*it.first, f); aggregates(*it.first, aggs); }
    if (s.from) for (auto &it : m::as<FromClause>(*s.from).from) {
        if (auto tok = std::get_if<m::ast::Token>(&it.source)) ++f.scans[*(it.alias ? it.alias.text : tok->text) + std::string(" = ") + *tok->text];
        else facts(m::as<SelectStmt>(*std::get<m::ast::Stmt*>(it.source)), f);
    }
    auto conditions = [&](const Expr &e) {
        for (auto &cl : m::cnf::to_CNF(e)) { if (constant(cl)) f.constants.insert(canonical(cl)); else ++f.clauses[canonical(cl)]; }
        nested(e, f);
    };
    if (s.where) conditions(*m::as<WhereClause>(*s.where).where);
    if (s.group_by) { ++f.grouping; for (auto &k : m::as<GroupByClause>(*s.group_by).group_by) f.keys.insert(text(*k.first)); }
    if (s.having) { auto &h = *m::as<HavingClause>(*s.having).having; conditions(h); aggregates(h, aggs); }
    if (s.order_by) { ++f.sorting; for (auto &o : m::as<OrderByClause>(*s.order_by).order_by) { f.orders.insert(text(*o.first) + (o.second ? " ASC" : " DESC")); aggregates(*o.first, aggs); } }
    if (not s.group_by and not aggs.empty()) ++f.aggregation;
    f.aggregates.insert(aggs.begin(), aggs.end());
    if (s.limit) { auto &l = m::as<LimitClause>(*s.limit); ++f.limit;
        f.limits.insert({strtoull(*l.limit.text, nullptr, 0), l.offset ? strtoull(*l.offset.text, nullptr, 0) : 0}); }
}

/*----- The plan -------------------------------------------------------------------------------------------------------*/
struct Walk {
    Case &c; Facts f; std::set<std::string> seen_aggs; size_t depth = 0;

    void need(const m::Operator &op, const m::Schema &have, const m::Schema &need, const char *what) {
        for (auto &e : need) {
            if (e.id.is_constant()) continue;
            const auto n = std::count_if(have.begin(), have.end(), [&](auto &x) { return x.id == e.id; });
            VP_REQUIRE(c, n == 1, "column", what << " needs " << text(e.id) << " which its input offers " << n << " times: " << text(have) << "\n");
            auto it = have.find(e.id);
            VP_REQUIRE(c, *m::as<const m::PrimitiveType>(it->type)->as_vectorial() == *m::as<const m::PrimitiveType>(e.type)->as_vectorial(), "column-type", what << " needs " << text(e.id) << " of type " << text(*e.type) << ", its input is of type " << text(*it->type));
        }
        (void) op;
    }
    void subset(const m::Schema &s, const m::Schema &of, const char *what) {
        for (auto &e : s) {
            auto it = std::find_if(of.begin(), of.end(), [&](auto &x) { return x.id == e.id; });
            VP_REQUIRE(c, it != of.end(), "column-lost", what << " offers " << text(e.id) << " which it does not get: " << text(of));
        }
    }
    void clauses(const m::cnf::CNF &cnf) { for (auto &cl : cnf) { if (constant(cl)) f.constants.insert(canonical(cl)); else ++f.clauses[canonical(cl)]; } }

    void walk(const m::Producer &p) {
        m::Schema in; // all that the children offer
        size_t children = 0;
        if (auto cons = dynamic_cast<const m::Consumer*>(&p)) for (auto *ch : cons->children()) {
            walk(*ch); in += ch->schema(); ++children;
            VP_REQUIRE(c, ch->parent() == cons, "tree", "an operator is not the parent of its child");
        }
        VP_REQUIRE(c, p.has_info(), "info", "operator without information: " << typeid(p).name());
        if (auto op = dynamic_cast<const m::ScanOperator*>(&p)) {
            VP_REQUIRE(c, children == 0, "tree", "scan has children");
            ++f.scans[*op->alias() + std::string(" = ") + *op->store().table().name()];
            for (auto &e : op->schema()) {
                VP_REQUIRE(c, e.id.prefix.has_value() and std::string(*e.id.prefix) == *op->alias(), "scan", "scan of " << *op->alias() << " offers " << text(e.id));
                VP_REQUIRE(c, op->store().table().has_attribute(e.id.name), "scan", "scan offers " << text(e.id) << " which the table lacks");
                VP_REQUIRE(c, op->store().table().at(e.id.name).type == e.type, "scan", "scan offers " << text(e.id) << " of type " << text(*e.type));
            }
        } else if (auto op = dynamic_cast<const m::FilterOperator*>(&p)) {
            VP_REQUIRE(c, children == 1, "tree", "filter has " << children << " children");
            clauses(op->filter()); need(p, in, op->filter().get_required(), "filter"); subset(op->schema(), in, "filter");
        } else if (auto op = dynamic_cast<const m::JoinOperator*>(&p)) {
            VP_REQUIRE(c, children == 2, "tree", "join has " << children << " children");
            clauses(op->predicate()); need(p, in, op->predicate().get_required(), "join"); subset(op->schema(), in, "join");
        } else if (auto op = dynamic_cast<const m::ProjectionOperator*>(&p)) {
            VP_REQUIRE(c, children <= 1, "tree", "projection has " << children << " children");
            VP_REQUIRE(c, op->projections().size() == op->schema().num_entries(), "projection", "projection of " << op->projections().size() << " expressions offers " << text(op->schema()));
            size_t i = 0;
            for (auto &[e, alias] : op->projections()) {
                if (not in.has(m::Schema::Identifier(e.get()))) // computed below
                    need(p, in, e.get().get_required(), "projection");
                auto &en = op->schema()[i++];
                VP_REQUIRE(c, *m::as<const m::PrimitiveType>(en.type)->as_vectorial() == *m::as<const m::PrimitiveType>(e.get().type())->as_vectorial(), "projection", "projected " << text(e.get()) << " is offered as " << text(*en.type));
                if (alias.has_value()) VP_REQUIRE(c, alias.assert_not_none() == en.id.name, "projection", "projected " << text(e.get()) << " is called " << text(en.id) << " instead of " << *alias);
            }
        } else if (auto op = dynamic_cast<const m::GroupingOperator*>(&p)) {
            VP_REQUIRE(c, children == 1, "tree", "grouping has " << children << " children");
            ++f.grouping;
            for (auto &[k, alias] : op->group_by()) { f.keys.insert(text(k.get())); need(p, in, k.get().get_required(), "grouping"); }
            for (auto &a : op->aggregates()) { f.aggregates.insert(text(a.get())); for (auto &arg : a.get().args) need(p, in, arg->get_required(), "grouping"); }
            VP_REQUIRE(c, op->schema().num_entries() == op->group_by().size() + op->aggregates().size(), "grouping", "grouping offers " << text(op->schema()));
        } else if (auto op = dynamic_cast<const m::AggregationOperator*>(&p)) {
            VP_REQUIRE(c, children == 1, "tree", "aggregation has " << children << " children");
            ++f.aggregation;
            for (auto &a : op->aggregates()) { f.aggregates.insert(text(a.get())); for (auto &arg : a.get().args) need(p, in, arg->get_required(), "aggregation"); }
            VP_REQUIRE(c, op->schema().num_entries() == op->aggregates().size(), "aggregation", "aggregation offers " << text(op->schema()));
        } else if (auto op = dynamic_cast<const m::SortingOperator*>(&p)) {
            VP_REQUIRE(c, children == 1, "tree", "sorting has " << children << " children");
            ++f.sorting;
            for (auto &[e, asc] : op->order_by()) { f.orders.insert(text(e.get()) + (asc ? " ASC" : " DESC")); need(p, in, e.get().get_required(), "sorting"); }
            subset(op->schema(), in, "sorting");
        } else if (auto op = dynamic_cast<const m::LimitOperator*>(&p)) {
            VP_REQUIRE(c, children == 1, "tree", "limit has " << children << " children");
            ++f.limit; f.limits.insert({op->limit(), op->offset()});
            VP_REQUIRE(c, op->schema().num_entries() == in.num_entries(), "limit", "limit changes the columns");
        } else c.fail("operator", VP_STR("unknown operator " << typeid(p).name()));
    }
};

template<typename M> std::string show_map(const M &x) { std::string s; for (auto &[k, n] : x) s += VP_STR("\n    " << n << " x " << k); return s; }

void compare(Case &c, const Facts &want, const Facts &got, bool grouped_without_keys) {
    VP_REQUIRE(c, want.scans == got.scans, "scans", "the plan scans:" << show_map(got.scans) << "\n  instead of:" << show_map(want.scans));
    for (auto &[k, n] : want.clauses) VP_REQUIRE(c, got.clauses.count(k), "lost-condition", "the plan lacks the condition " << k);
    for (auto &[k, n] : got.clauses) {
        VP_REQUIRE(c, want.clauses.count(k), "invented-condition", "the plan has the condition " << k << " which the statement lacks");
        VP_REQUIRE(c, n <= want.clauses.at(k), "repeated-condition", "the plan has the condition " << k << ' ' << n << " times");
    }
    VP_REQUIRE(c, want.constants == got.constants, "constant-conditions", "the plan has other constant conditions than the statement");
    VP_REQUIRE(c, want.grouping == got.grouping, "grouping", got.grouping << " groupings instead of " << want.grouping);
    VP_REQUIRE(c, want.keys == got.keys, "grouping-keys", "the plan groups by other expressions than the statement");
    VP_REQUIRE(c, want.sorting == got.sorting, "sorting", got.sorting << " sortings instead of " << want.sorting);
    VP_REQUIRE(c, want.orders == got.orders, "order", "the plan sorts by other expressions than the statement");
    VP_REQUIRE(c, want.limit == got.limit and want.limits == got.limits, "limit", got.limit << " limits instead of " << want.limit);
    VP_REQUIRE(c, want.aggregation == got.aggregation, "aggregation", got.aggregation << " aggregations instead of " << want.aggregation);
    for (auto &a : got.aggregates) VP_REQUIRE(c, want.aggregates.count(a), "invented-aggregate", "the plan computes " << a << " which the statement lacks");
    (void) grouped_without_keys;
}

/// Tables some columns of which are declared and are unique.
std::vector<Table> gen_tables(Case &c, size_t max_tables, size_t max_rows, size_t max_cols) {
    std::vector<Table> ts;
    const size_t n = 1 + c.draw(max_tables - 1);
    for (size_t i = 0; i != n; ++i) {
        auto t = gen_table(c, "T" + std::to_string(i), max_rows, max_cols);
        for (size_t k = 0; k != t.cols.size(); ++k) if (t.cols[k].ty.k == INT and c.chance(1, 3)) {
            t.cols[k].unique = true; size_t r = 0; // values stay small
            const size_t shift = c.draw(5); if (t.rows.size() + 5 > (t.cols[k].ty.bits == 8 ? 100u : 1000u)) { t.cols[k].unique = false; continue; }
            for (auto &row : t.rows) row[k] = t.cols[k].notnull or not c.chance(1, 8) ? V::I(int64_t(shift + r++) - 4) : V::N();
        }
        ts.push_back(std::move(t));
    }
    return ts;
}
std::string create_sql_unique(const Table &t) {
    std::ostringstream os; os << "CREATE TABLE " << t.name << " (";
    for (size_t i = 0; i != t.cols.size(); ++i)
        os << (i ? ", " : " ") << t.cols[i].name << ' ' << t.cols[i].ty.sql() << (t.cols[i].notnull ? " NOT NULL" : "") << (t.cols[i].unique ? " UNIQUE" : "");
    os << " );";
    return os.str();
}

VP_PROP("C21", "plans", 8000, 100000) {
    m::Options::Get().quiet = true;
    auto ts = gen_tables(c, 3, 25, 5);
    for (auto &t : ts) {
        c.log() << create_sql_unique(t) << "\n";
        std::vector<Ty> ty; for (auto &x : t.cols) ty.push_back(x.ty);
        c.log() << show(ty, t.rows, 100);
    }
    Db db;
    for (auto &t : ts) { db.exec(c, create_sql_unique(t)); db.insert(c, t, 2); }
    unsigned fresh = 0;
    QueryShape shape; shape.max_sources = 5; shape.max_product = 3000;
    auto q = gen_query(c, ts, shape, 0, fresh);
    const std::string sqltext = str(*q) + ";";
    c.log() << sqltext << "\n";
    const Result want = eval(*q);
    Diag d;
    std::unique_ptr<m::ast::Stmt> stmt;
    try { stmt = m::statement_from_string(d.diag, sqltext); }
    catch (m::frontend_exception &) { c.fail("rejected", "valid query rejected: " + sqltext + "\n" + d.err.str()); }
    auto G = m::QueryGraph::Build(*stmt);
    Facts expected; facts(m::as<const m::ast::SelectStmt>(*stmt), expected); // after decorrelation, which names results
    const char *pe = ENUMS[c.draw(std::size(ENUMS) - 1)];
    m::Optimizer Opt(db.C.plan_enumerator(db.C.pool(pe)), db.C.cost_function());
    const bool again = c.chance(1, 4); // minimize a second time
    auto plan = Opt(*G);
    { std::ostringstream os; plan->dump(os); plan->dot(os); G->dump(os); G->dot(os); } // must be printable
    Walk w{c, {}, {}, 0};
    w.walk(*plan);
    { std::ostringstream os; os << *plan; c.log() << os.str() << "\n"; }
    compare(c, expected, w.f, false);
    // the columns of the result
    auto &S = plan->schema();
    VP_REQUIRE(c, S.num_entries() == q->out.size(), "schema", "the plan offers " << text(S) << ", not " << q->out.size() << " columns");
    for (size_t i = 0; i != q->out.size(); ++i) {
        const Ty g = from_type(S[i].type), x = q->out[i].ty;
        VP_REQUIRE(c, g.k == x.k, "schema", "column " << i << " is of type " << text(*S[i].type) << " instead of " << x.sql());
        if (q->star) { VP_REQUIRE(c, *S[i].id.name == q->out[i].name, "schema", "column " << i << " is called " << text(S[i].id)); continue; }
        auto &it = q->items[i];
        std::string name = it.alias.empty() and it.e->k == COL ? it.e->text_name.substr(it.e->text_name.find('.') + 1) : it.alias;
        if (name.empty() and it.e->k == REF) name = it.e->text_name;
        if (not name.empty()) VP_REQUIRE(c, *S[i].id.name == name, "schema", "column " << i << " is called " << text(S[i].id) << " instead of " << name);
    }
    std::vector<std::pair<bool, bool>> promised; // not NULL, unique
    for (auto &e : S) promised.emplace_back(not e.nullable(), e.unique());
    size_t not_null = 0, unique = 0;
    for (auto &[a, b] : promised) { not_null += a; unique += b; }
    c.label_if(not_null, "columns without NULL"); c.label_if(unique, "unique columns"); c.label(pe); c.label(VP_STR(q->from.size() << " sources"));
    c.label_if(not expected.clauses.empty(), "conditions"); c.label_if(expected.grouping, "grouping"); c.label_if(expected.aggregation, "aggregation"); c.label_if(expected.sorting, "sorting"); c.label_if(expected.limit, "limit");
    c.label_if(expected.scans.size() > q->from.size(), "nested queries");
    c.nontrivial(q->from.size() > 1 or expected.grouping or expected.aggregation or expected.sorting or expected.limit or expected.scans.size() > q->from.size());
    // execution
    Db::Out out;
    auto cb = std::make_unique<m::CallbackOperator>([&](const m::Schema &S, const m::Tuple &tup) {
        if (not out.called) { out.called = true; for (auto &e : S) { out.types.push_back(from_type(e.type)); out.names.push_back(*e.id.name); } }
        Row r; for (size_t i = 0; i != S.num_entries(); ++i) r.push_back(get_tuple(tup, i, S[i].type));
        out.rows.push_back(std::move(r));
    });
    cb->add_child(plan.release());
    if (again) {
        cb->minimize_schema();
        Walk w2{c, {}, {}, 0};
        w2.walk(*m::as<const m::CallbackOperator>(*cb).child(0));
        compare(c, expected, w2.f, false);
        c.label("minimized twice");
    }
    static auto backend = db.C.create_backend();
    auto phys = m::physical_plan_from_logical_plan(d.diag, *cb, *backend);
    m::execute_physical_plan(d.diag, *phys, *backend);
    check_result(c, *q, out, want, sqltext);
    // what the plan promises about its columns holds
    for (size_t i = 0; i != promised.size(); ++i) {
        std::vector<V> seen;
        for (auto &r : out.rows) {
            if (promised[i].first) VP_REQUIRE(c, not r[i].null, "promised-not-null", "column " << i << " (" << out.names[i] << ") is marked as never NULL\n" << sqltext);
            if (promised[i].second and not r[i].null) {
                for (auto &x : seen) VP_REQUIRE(c, cmp_val(out.types[i], x, r[i]) != 0, "promised-unique", "column " << i << " (" << out.names[i] << ") is marked as unique but repeats " << sql::show(out.types[i], r[i]) << "\n" << sqltext);
                seen.push_back(r[i]);
            }
        }
    }
}

}
