#include "exec.hpp"
using namespace db;

namespace {

std::vector<Table> gen_tables(Case &c, size_t max_tables, size_t max_rows, size_t max_cols) {
    std::vector<Table> ts;
    const size_t n = 1 + c.draw(max_tables - 1);
    for (size_t i = 0; i != n; ++i) ts.push_back(gen_table(c, "T" + std::to_string(i), max_rows, max_cols));
    return ts;
}

void describe(Case &c, const std::vector<Table> &ts, const char *layout, unsigned how) {
    c.log() << "layout " << layout << ", insert mode " << how << "\n";
    for (auto &t : ts) {
        c.log() << create_sql(t) << "\n";
        std::vector<Ty> ty; for (auto &x : t.cols) ty.push_back(x.ty);
        c.log() << show(ty, t.rows, 100);
    }
}

void label_query(Case &c, const Query &q, const Result &want) {
    bool nested = q.where and q.where->has_sub(); if (q.having) nested |= q.having->has_sub(); for (auto &it : q.items) nested |= it.e->has_sub();
    c.label_if(nested, "nested query in an expression");
    c.label_if(q.from.empty(), "no source");
    c.label_if(q.from.size() > 1, "join");
    c.label_if(q.from.size() > 2, "join of three or more");
    for (auto &s : q.from) c.label_if(bool(s.sub), "nested query in FROM");
    c.label_if(q.grouped and not q.group_by.empty(), "grouping");
    c.label_if(q.grouped and q.group_by.empty(), "aggregation");
    c.label_if(bool(q.where), "where");
    c.label_if(bool(q.having), "having");
    c.label_if(not q.order_by.empty(), "order by");
    c.label_if(bool(q.limit), "limit");
    c.label_if(want.rows.empty(), "empty result");
    c.label_if(want.rows.size() > 64, "more than 64 rows");
    for (auto &r : want.rows) for (auto &v : r) if (v.null) { c.label("NULL in the result"); goto done; }
done:;
}

void run_one(Case &c, Db &db, const Query &q) {
    const std::string text = "SELECT" + str(q).substr(6) + ";";
    c.log() << text << "\n";
    Result want = eval(q);
    label_query(c, q, want);
    c.nontrivial(not want.rows.empty() or q.where or q.from.size() > 1);
    Db::Out got;
    const bool post = c.coin(); // with post-optimizations of the plan
    c.log() << (post ? "(post-optimized)\n" : ""); c.label_if(post, "post-optimized");
    try { got = db.query(text, post); }
    catch (Rejected &r) { c.fail("rejected", "valid query rejected: " + text + "\n" + r.msg); }
    check_result(c, q, got, want, text);
}

VP_PROP("C01", "select", 24000, 200000) {
    const char *layout = LAYOUTS[c.draw(7)];
    const unsigned how = unsigned(c.draw(3));
    auto ts = c.chance(1, 25) ? gen_tables(c, 2, 1200, 4) : gen_tables(c, 3, 90, 5);
    describe(c, ts, layout, how);
    Db db; db.layout(layout);
    for (auto &t : ts) db.create(c, t, how);
    unsigned fresh = 0;
    for (size_t n = 1 + c.draw(2); n; --n) {
        auto q = gen_query(c, ts, {}, 0, fresh);
        run_one(c, db, *q);
    }
}

}
