// Drives the real system: catalog, tables, inserts, queries.
#pragma once
#include "sqlmodel.hpp"
#include <mutable/mutable.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/Schema.hpp>
#include <mutable/catalog/Type.hpp>
#include <mutable/IR/Operator.hpp>
#include <mutable/IR/Optimizer.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/IR/PhysicalOptimizer.hpp>
#include <mutable/IR/Tuple.hpp>
#include <mutable/storage/Store.hpp>
#include <mutable/util/Diagnostic.hpp>
#include <sstream>

namespace db {

using namespace sql;

inline m::Type const *to_type(const Ty &t) {
    using namespace m;
    switch (t.k) {
        case INT: return m::Type::Get_Integer(m::Type::TY_Vector, t.bits / 8);
        case F32: return m::Type::Get_Float(m::Type::TY_Vector);
        case F64: return m::Type::Get_Double(m::Type::TY_Vector);
        case DEC: return m::Type::Get_Decimal(m::Type::TY_Vector, t.prec, t.scale);
        case CHR: return t.varying ? m::Type::Get_Varchar(m::Type::TY_Vector, t.len) : m::Type::Get_Char(m::Type::TY_Vector, t.len);
        case BOOL: return m::Type::Get_Boolean(m::Type::TY_Vector);
        case DATE: return m::Type::Get_Date(m::Type::TY_Vector);
        case DT: return m::Type::Get_Datetime(m::Type::TY_Vector);
        case NONE: return m::Type::Get_None();
    }
    return nullptr;
}
inline Ty from_type(const m::Type *t) {
    if (t->is_boolean()) return mk(BOOL);
    if (t->is_date()) return mk(DATE);
    if (t->is_date_time()) return mk(DT);
    if (auto cs = m::cast<const m::CharacterSequence>(t)) return mk_chr(unsigned(cs->length), cs->is_varying);
    if (auto n = m::cast<const m::Numeric>(t)) {
        switch (n->kind) {
            case m::Numeric::N_Int: return mk_int(n->precision * 8);
            case m::Numeric::N_Decimal: return mk_dec(n->precision, n->scale);
            case m::Numeric::N_Float: return n->precision == 32 ? mk(F32) : mk(F64);
        }
    }
    return mk(NONE);
}

inline m::Value to_value(const Ty &t, const V &v) {
    switch (t.k) {
        case INT: case DEC: case DATE: case DT: return m::Value(v.i);
        case F32: return m::Value(float(v.d));
        case F64: return m::Value(v.d);
        case BOOL: return m::Value(bool(v.i));
        default: return m::Value();
    }
}
inline void set_tuple(m::Tuple &tup, size_t i, const Ty &t, const V &v) {
    if (v.null) { tup.null(i); return; }
    if (t.k == CHR) {
        tup.not_null(i);
        char *p = reinterpret_cast<char*>(tup[i].as_p());
        memcpy(p, v.s.c_str(), v.s.size()); p[v.s.size()] = 0;
    } else tup.set(i, to_value(t, v));
}
inline V get_tuple(const m::Tuple &tup, size_t i, const m::Type *ty) {
    if (tup.is_null(i)) return V::N();
    const Ty t = from_type(ty);
    const m::Value &v = tup.get(i);
    switch (t.k) {
        case INT: case DEC: case DATE: case DT: return V::I(v.as_i());
        case F32: return V::D(v.as_f());
        case F64: return V::D(v.as_d());
        case BOOL: return V::B(v.as_b());
        case CHR: return V::S(reinterpret_cast<const char*>(v.as_p()));
        case NONE: return V::N();
    }
    return V::N();
}

inline const char *const LAYOUTS[] = {"PAX4M", "PAX4K", "PAX64K", "PAX512K", "PAX16Tup", "PAX128Tup", "PAX1024Tup", "Row"};

struct Diag {
    std::ostringstream out, err; m::Diagnostic diag;
    Diag() : diag(false, out, err) { }
};

struct Rejected { std::string msg; };

struct Db {
    m::Catalog &C;
    Db() : C(m::Catalog::Get()) {
        m::Catalog::Clear();
        C.timer().clear();
        C.default_backend(C.pool("Interpreter"));
        auto &d = C.add_database(C.pool("db"));
        C.set_database_in_use(d);
    }
    ~Db() { C.timer().clear(); }
    Db(const Db&) = delete;

    m::Database & database() { return C.get_database_in_use(); }
    m::Table & table(const std::string &n) { return database().get_table(C.pool(n.c_str())); }
    void layout(const char *name) { C.default_data_layout(C.pool(name)); }

    /// Executes any one statement by the API.
    void exec(Case &c, const std::string &sqltext) {
        Diag d;
        std::unique_ptr<m::ast::Stmt> stmt;
        try { stmt = m::statement_from_string(d.diag, sqltext); }
        catch (m::frontend_exception &) { c.fail("rejected", "valid statement rejected: " + sqltext + "\n" + d.err.str()); }
        m::execute_statement(d.diag, *stmt, false);
        if (d.diag.num_errors()) c.fail("rejected", "statement failed: " + sqltext + "\n" + d.err.str());
    }

    /// How rows came into a table: 0 one INSERT for all of them, 1 several INSERTs, 2 the C++ API, else mixed
    void insert(Case &c, const Table &t, unsigned how) {
        size_t i = 0;
        while (i != t.rows.size()) {
            const unsigned h = how == 3 ? unsigned(c.draw(2)) : how;
            const size_t n = h == 0 or (h == 2 and how == 2) ? t.rows.size() - i : 1 + c.draw(std::min<size_t>(t.rows.size() - i - 1, 40));
            if (h == 2) {
                auto &store = table(t.name).store();
                m::StoreWriter W(store);
                m::Tuple tup(W.schema());
                for (size_t k = i; k != i + n; ++k) {
                    for (size_t j = 0; j != t.cols.size(); ++j) set_tuple(tup, j, t.cols[j].ty, t.rows[k][j]);
                    W.append(tup);
                }
            } else {
                std::ostringstream os; os << "INSERT INTO " << t.name << " VALUES ";
                for (size_t k = i; k != i + n; ++k) {
                    os << (k == i ? "(" : ", (");
                    for (size_t j = 0; j != t.cols.size(); ++j) os << (j ? ", " : "") << lit(t.cols[j].ty, t.rows[k][j]);
                    os << ')';
                }
                os << ';';
                exec(c, os.str());
            }
            i += n;
        }
    }
    void create(Case &c, const Table &t, unsigned how) {
        exec(c, create_sql(t));
        insert(c, t, how);
    }

    struct Out { std::vector<Row> rows; std::vector<Ty> types; std::vector<std::string> names; bool called = false; };
    /// Runs a query by the API.
    /// Executes a query like `m::execute_query()`, or with the post-optimizations of plans like the shell does.
    Out query(const std::string &sqltext, bool post_optimize = false) {
        Diag d;
        std::unique_ptr<m::ast::Stmt> stmt;
        try { stmt = m::statement_from_string(d.diag, sqltext); }
        catch (m::frontend_exception &) { throw Rejected{d.err.str()}; }
        Out out;
        auto op = std::make_unique<m::CallbackOperator>([&](const m::Schema &S, const m::Tuple &tup) {
            if (not out.called) {
                out.called = true;
                for (auto &e : S) { out.types.push_back(from_type(e.type)); out.names.push_back(*e.id.name); }
            }
            Row r;
            for (size_t i = 0; i != S.num_entries(); ++i) r.push_back(get_tuple(tup, i, S[i].type));
            out.rows.push_back(std::move(r));
        });
        if (not post_optimize) { m::execute_query(d.diag, m::as<const m::ast::SelectStmt>(*stmt), std::move(op)); return out; }
        auto G = m::QueryGraph::Build(*stmt);
        for (auto &f : C.pre_optimizations()) (*f.second).operator()(*G);
        m::Optimizer opt(C.plan_enumerator(), C.cost_function());
        std::unique_ptr<m::Producer> plan = opt(*G);
        for (auto &f : C.logical_post_optimizations()) plan = (*f.second).operator()(std::move(plan));
        op->add_child(plan.release());
        static auto backend = C.create_backend();
        auto phys = m::physical_plan_from_logical_plan(d.diag, *op, *backend);
        for (auto &f : C.physical_post_optimizations()) phys = (*f.second).operator()(std::move(phys));
        m::execute_physical_plan(d.diag, *phys, *backend);
        return out;
    }
};

/*----- Comparison -----------------------------------------------------------------------------------------------------*/
inline std::string show(const std::vector<Ty> &ty, const Row &r) {
    std::string s = "(";
    for (size_t i = 0; i != r.size(); ++i) s += (i ? ", " : "") + (i < ty.size() ? sql::show(ty[i], r[i]) : "?");
    return s + ")";
}
inline std::string show(const std::vector<Ty> &ty, const std::vector<Row> &rows, size_t max = 30) {
    std::string s; size_t n = 0;
    for (auto &r : rows) { if (n++ == max) { s += "  ...\n"; break; } s += "  " + show(ty, r) + "\n"; }
    return s + VP_STR("  [" << rows.size() << " rows]\n");
}
inline int cmp_row(const std::vector<Ty> &ty, const std::vector<bool> &approx, const Row &a, const Row &b) {
    for (int pass = 0; pass != 2; ++pass)
        for (size_t i = 0; i != ty.size(); ++i) if (approx[i] == bool(pass)) { int r = cmp_null(ty[i], a[i], b[i]); if (r) return r; }
    return 0;
}
inline bool close(const Ty &t, bool approx, const V &a, const V &b) {
    if (a.null or b.null) return a.null == b.null;
    if (approx and t.fp()) return std::fabs(a.d - b.d) <= 1e-9 * std::max({1., std::fabs(a.d), std::fabs(b.d)}) * (t.k == F32 ? 1e3 : 1);
    return cmp_val(t, a, b) == 0;
}
inline bool same_row(const std::vector<Ty> &ty, const std::vector<bool> &approx, const Row &a, const Row &b) {
    for (size_t i = 0; i != ty.size(); ++i) if (not close(ty[i], approx[i], a[i], b[i])) return false;
    return true;
}

/// Compares what a query returned with what it should return.
inline void check_result(Case &c, const Query &q, const Db::Out &got, const Result &want_all, const std::string &text) {
    std::vector<Ty> ty; std::vector<bool> approx;
    for (auto &o : q.out) { ty.push_back(o.ty); approx.push_back(o.approx or o.approx_src); }
    const size_t total = want_all.rows.size();
    size_t off = q.limit and q.offset ? std::min(*q.offset, total) : 0;
    size_t cnt = q.limit ? std::min(*q.limit, total - off) : total;
    auto context = [&] { return text + "\n got:\n" + show(ty, got.rows) + " want" + (q.limit ? " (before LIMIT)" : "") + ":\n" + show(ty, want_all.rows); };
    VP_REQUIRE(c, got.rows.size() == cnt, "row-count", "wrong number of rows: " << got.rows.size() << " instead of " << cnt << "\n" << context());
    if (got.called) {
        VP_REQUIRE(c, got.types.size() == ty.size(), "schema", "wrong number of columns: " << got.types.size() << "\n" << context());
        for (size_t i = 0; i != ty.size(); ++i) {
            const auto &g = got.types[i], &w = ty[i];
            bool ok = g.k == w.k and (w.k != DEC or g.scale == w.scale);
            VP_REQUIRE(c, ok, "column-type", "column " << i << " is of type " << g.sql() << " instead of " << w.sql() << "\n" << context());
        }
    }
    auto less = [&](const Row *a, const Row *b) { return cmp_row(ty, approx, *a, *b) < 0; };
    auto cmp_exact = [&](const Row &a, const Row &b) {
        for (size_t i = 0; i != ty.size(); ++i) if (not approx[i]) { int r = cmp_null(ty[i], a[i], b[i]); if (r) return r; }
        return 0;
    };
    auto cmp_key = [&](size_t a, size_t b) {
        for (size_t i = 0; i != q.order_by.size(); ++i) {
            auto &o = q.order_by[i]; const V &x = want_all.keys[a][i], &y = want_all.keys[b][i];
            if (x.null or y.null) { if (x.null != y.null) return x.null ? -1 : 1; continue; } // NULL goes first, always
            int r = cmp_val(o.e ? o.e->ty : ty[o.item], x, y); if (r) return (r < 0) == o.asc ? -1 : 1;
        }
        return 0;
    };
    std::vector<size_t> order(total); for (size_t i = 0; i != total; ++i) order[i] = i;
    std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return cmp_key(a, b) < 0; });
    // rows of equal keys come in any order
    for (size_t s = 0, e = 0; s != total; s = e) {
        while (e != total and cmp_key(order[s], order[e]) == 0) ++e;
        std::vector<const Row*> want, have;
        for (size_t i = s; i != e; ++i) want.push_back(&want_all.rows[order[i]]);
        for (size_t i = std::max(s, off); i < std::min(e, off + cnt); ++i) have.push_back(&got.rows[i - off]);
        std::sort(want.begin(), want.end(), less);
        std::sort(have.begin(), have.end(), less);
        // each row gets a partner of its own; approximate values leave the order of near rows open, hence search among the rows with the same exact values
        std::vector<bool> used(want.size());
        size_t from = 0;
        for (auto h : have) {
            while (from != want.size() and cmp_exact(*want[from], *h) < 0) ++from;
            size_t w = from;
            while (w != want.size() and cmp_exact(*want[w], *h) == 0 and (used[w] or not same_row(ty, approx, *h, *want[w]))) ++w;
            const bool found = w != want.size() and cmp_exact(*want[w], *h) == 0;
            if (not found and not q.order_by.empty()) for (auto &x : want_all.rows) VP_REQUIRE(c, not same_row(ty, approx, *h, x), "order", "row " << show(ty, *h) << " is out of order\n" << context());
            VP_REQUIRE(c, found, "rows", "unexpected row " << show(ty, *h) << "\n" << context());
            used[w] = true;
        }
    }
}

}
