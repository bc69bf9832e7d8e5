// C17: estimators of cardinalities stay within their bounds, injected cardinalities are returned.
#include "exec.hpp"
#include <algorithm>
#include <map>
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/IR/CNF.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/Options.hpp>
#include <set>

using namespace db;

namespace {

using u64 = uint64_t;
using S_t = m::SmallBitset;

u64 sat_mul(u64 a, u64 b) { unsigned __int128 p = (unsigned __int128)a * b; return p > ~u64(0) ? ~u64(0) : u64(p); }
template<typename T> std::string text(const T &x) { std::ostringstream os; os << x; return os.str(); }

/// A query over tables of given sizes.
struct Problem {
    Db d;
    std::vector<u64> rows; ///< of the tables
    std::vector<size_t> src; ///< table of each source
    std::vector<std::string> name; ///< of each source
    std::string sql;
    std::unique_ptr<m::ast::Stmt> stmt; std::unique_ptr<m::QueryGraph> G;

    const char *attr(Case &c, bool keys) { static const char *const A[] = {"a", "b", "f", "id"}; return A[c.draw(keys ? 3 : 2)]; }
    void build(Case &c, bool self_joins, bool simple) {
        const size_t n = src.size();
        std::ostringstream os; std::string where;
        auto add = [&](const std::string &s) { where += (where.empty() ? "" : " AND ") + s; };
        for (size_t i = 0; i != n; ++i) {
            if (i and c.chance(2, 3)) { const size_t j = c.draw(i - 1); add(name[j] + "." + (simple ? attr(c, true) : "a") + " = " + name[i] + "." + (simple ? attr(c, true) : "b")); }
            std::set<std::string> used;
            for (size_t k = c.draw(2); k; --k) {
                const std::string at = simple ? attr(c, false) : c.oneof<const char*>({"a", "b"});
                if (simple and not used.insert(at).second) continue;
                std::string lit = std::to_string(c.range(-4, 8)); if (simple and at == "f") lit += c.oneof<const char*>({".0", ".25", ".5"});
                const std::string op = c.oneof<const char*>({"=", "<", "<=", ">", ">="});
                if (simple and c.chance(1, 6)) { if (lit[0] != '-') add(lit + " " + op + " " + name[i] + "." + at); else add(name[i] + "." + at + " " + op + " " + lit.substr(1)); }
                else add(name[i] + "." + at + " " + op + " " + (simple and lit[0] == '-' ? lit.substr(1) : lit));
            }
        }
        std::string group;
        if (c.coin()) for (size_t k = 1 + c.draw(2); k; --k) {
            std::string e = name[c.draw(n - 1)] + "." + (simple ? attr(c, true) : c.oneof<const char*>({"a", "b"}));
            if (not simple and c.chance(1, 3)) e = "(" + e + " + 1) AS g" + std::to_string(k); else if (c.chance(1, 4)) e += " AS g" + std::to_string(k);
            group += (group.empty() ? " GROUP BY " : ", ") + e;
        }
        os << "SELECT " << (group.empty() ? "1" : "COUNT()") << " FROM ";
        for (size_t i = 0; i != n; ++i) { os << (i ? ", " : "") << 'T' << src[i]; if (name[i] != "T" + std::to_string(src[i])) os << " AS " << name[i]; }
        if (not where.empty()) os << " WHERE " << where;
        os << group << ';';
        sql = os.str(); (void) self_joins;
        Diag dg;
        try { stmt = m::statement_from_string(dg.diag, sql); } catch (m::frontend_exception &) { c.fail("rejected", sql + "\n" + dg.err.str()); }
        G = m::QueryGraph::Build(*stmt);
        VP_REQUIRE(c, G->num_sources() == n, "graph", sql);
        c.log() << sql << "\n";
    }
};

struct Est { std::unique_ptr<m::DataModel> model; u64 set = 0; u64 size = 0; std::string how; };

u64 predict(const m::CardinalityEstimator &CE, const m::DataModel &d) { return CE.predict_cardinality(d); }

/*----- exact estimators -----------------------------------------------------------------------------------------------*/
void exact(Case &c, bool injected) {
    Problem p; auto &C = p.d.C;
    const size_t tables = 1 + c.size(5), n = std::min<size_t>(12, 1 + c.size(7));
    for (size_t i = 0; i != tables; ++i) {
        p.d.exec(c, VP_STR("CREATE TABLE T" << i << " ( a INT(4), b INT(4) );"));
        const u64 k = c.chance(1, 8) ? 0 : c.chance(1, 3) ? 1 + c.draw(5000) : 1 + c.draw(60);
        auto &store = p.d.table("T" + std::to_string(i)).store();
        for (u64 j = 0; j != k; ++j) store.append();
        p.rows.push_back(k);
    }
    std::set<std::string> used;
    for (size_t i = 0; i != n; ++i) {
        p.src.push_back(c.draw(tables - 1));
        std::string s = "T" + std::to_string(p.src[i]); if (used.count(s) or c.chance(1, 3)) s = "x" + std::to_string(i);
        used.insert(s); p.name.push_back(s);
    }
    p.build(c, true, false);
    for (size_t i = 0; i != tables; ++i) c.log() << 'T' << i << ": " << p.rows[i] << " rows; ";
    c.log() << "\n";

    /* cardinalities to inject */
    std::map<std::multiset<std::string>, u64> inj; std::map<std::string, u64> groups; std::set<std::multiset<std::string>> ambiguous;
    std::unique_ptr<m::CardinalityEstimator> CE; bool odd = false;
    std::string gkey; for (auto &[e, alias] : p.G->group_by()) gkey += "#" + (alias.has_value() ? std::string(*alias) : text(e.get()));
    if (injected) {
        std::string entries;
        auto ws = [&]{ return std::string(c.chance(1, 6) ? " " : c.chance(1, 8) ? "\n\t" : ""); };
        auto entry = [&](const std::string &names, const std::string &size) {
            std::string a = "\"relations\":" + ws() + names, b = "\"size\":" + ws() + size;
            entries += (entries.empty() ? "" : ",") + ws() + "{" + ws() + (c.coin() ? a + "," + b : b + ws() + "," + a) + (c.chance(1, 12) ? ", \"note\": null" : "") + "}";
        };
        for (size_t k = c.size(14); k; --k) {
            std::vector<std::string> names; std::multiset<std::string> key;
            for (size_t i = 0; i != n; ++i) if (c.chance(1, n > 3 ? 3 : 2)) names.push_back(p.name[i]);
            if (c.chance(1, 10)) names.push_back("unrelated");
            if (names.empty()) names.push_back(p.name[c.draw(n - 1)]);
            for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[c.draw(i - 1)]);
            key.insert(names.begin(), names.end());
            const u64 size = c.chance(1, 10) ? 0 : c.coin() ? c.draw(100) : c.chance(1, 8) ? ~u64(0) : c.draw(u64(1) << c.range(1, 45));
            std::string js; for (auto &x : names) js += (js.empty() ? "" : ",") + ws() + "\"" + x + "\"" + ws();
            if (c.chance(1, 12)) { // malformed entries are ignored
                odd = true;
                switch (c.draw(6)) {
                    case 0: entries += (entries.empty() ? "" : ",") + std::string("{\"relations\":[") + js + "]}"; break;
                    case 1: entries += (entries.empty() ? "" : ",") + std::string("{\"size\": 5}"); break;
                    case 2: entry("[" + js + "]", "\"many\""); break;
                    case 3: entry("[" + js + ", 7]", "3"); break;
                    case 4: entries += (entries.empty() ? "" : ",") + c.oneof<std::string>({"17", "null", "[1]", "\"x\"", "{}"}); break;
                    case 5: entry("[" + js + "]", c.oneof<std::string>({"null", "[1]", "{}"})); break;
                    case 6: entry(c.oneof<std::string>({"7", "null", "\"T0\""}), "3"); break;
                }
                continue;
            }
            if (inj.count(key)) { if (not c.chance(1, 4)) continue; odd = true; if (inj[key] != size) ambiguous.insert(key); }
            else inj[key] = size;
            entry("[" + js + "]", std::to_string(size));
        }
        if (not gkey.empty() and c.coin()) { groups["g" + gkey] = c.draw(500); std::string k = vp::quote("g" + gkey); if (k.find('\\') == std::string::npos) entry("[" + k + "]", std::to_string(groups["g" + gkey])); else groups.clear(); }
        std::string json = "{" + ws() + "\"other\": [], \"" + (c.chance(1, 15) ? "dbx" : "db") + "\":" + ws() + "[" + entries + "]" + ws() + "}";
        if (json.find("\"dbx\"") != std::string::npos) { inj.clear(); groups.clear(); ambiguous.clear(); odd = true; }
        if (c.chance(1, 25)) { json.resize(c.draw(json.size() - 1)); inj.clear(); groups.clear(); ambiguous.clear(); odd = true; }
        if (c.chance(1, 40)) { json = c.oneof<std::string>({"[]", "[" + json + "]", "17", "null", "\"db\"", ""}); inj.clear(); groups.clear(); ambiguous.clear(); odd = true; }
        c.log() << json << "\n";
        Diag dg; std::istringstream in(json);
        try { CE = std::make_unique<m::InjectionCardinalityEstimator>(dg.diag, C.pool("db"), in); }
        catch (std::exception &e) { c.fail("exception", std::string("reading cardinalities throws ") + e.what()); }
        VP_REQUIRE(c, odd or dg.err.str().empty(), "complaint", dg.err.str());
        VP_REQUIRE(c, not odd or not dg.err.str().empty() , "silent", "no warning");
    } else CE = std::make_unique<m::CartesianProductEstimator>();
    if (not ambiguous.empty()) c.discard();
    auto lookup = [&](u64 s) -> const u64* {
        std::multiset<std::string> k; for (size_t i = 0; i != n; ++i) if (s >> i & 1) k.insert(p.name[i]);
        auto it = inj.find(k); return it == inj.end() ? nullptr : &it->second;
    };
    const auto &G = *p.G;
    std::vector<Est> parts; unsigned hits = 0, ops = 0;
    auto check = [&](const Est &e) {
        const u64 got = predict(*CE, *e.model);
        VP_REQUIRE(c, got == e.size, "size", VP_STR("size of " << e.how << " is " << got << " instead of " << e.size));
        c.log() << e.how << " = " << e.size << "\n";
    };
    { auto e = CE->empty_model(); VP_REQUIRE(c, predict(*CE, *e) == 0, "size", "empty model"); }
    m::PlanTableLargeAndSparse PTl(G); m::PlanTableSmallOrDense PTs(G); const bool small = c.coin();
    for (size_t i = 0; i != n; ++i) {
        Est e{CE->estimate_scan(G, S_t::Singleton(i)), u64(1) << i, p.rows[p.src[i]], p.name[i]};
        if (auto x = lookup(e.set)) { e.size = *x; ++hits; }
        check(e);
        (small ? PTs[S_t::Singleton(i)].model : PTl[S_t::Singleton(i)].model) = CE->estimate_scan(G, S_t::Singleton(i));
        if (G.sources()[i]->filter().size() and c.coin()) { e.model = CE->estimate_filter(G, *e.model, G.sources()[i]->filter()); e.how = "filter(" + e.how + ")"; check(e); }
        parts.push_back(std::move(e));
    }
    const std::vector<u64> base = [&]{ std::vector<u64> v; for (size_t i = 0; i != n; ++i) { auto x = lookup(u64(1) << i); v.push_back(x ? *x : p.rows[p.src[i]]); } return v; }();
    /* all at once */
    for (int k = 0; k != 3; ++k) {
        u64 s = 0, prod = 1; for (size_t i = 0; i != n; ++i) if (k == 0 or c.coin()) { s |= u64(1) << i; prod = sat_mul(prod, base[i]); }
        if (not s) continue;
        // a single source is found in the table by its size; no entry is larger than the product
        m::cnf::CNF cond; for (auto &j : G.joins()) if (c.coin()) cond = j->condition();
        auto e = small ? CE->estimate_join_all(G, PTs, S_t(s), cond) : CE->estimate_join_all(G, PTl, S_t(s), cond);
        auto x = lookup(s);
        const u64 want = x ? std::min(*x, prod) : prod; hits += bool(x);
        VP_REQUIRE(c, predict(*CE, *e) == want, "join_all", VP_STR("size of the join of all sources in " << S_t(s) << " is " << predict(*CE, *e) << " instead of " << want));
    }
    /* one by one, in any order */
    auto unary = [&](Est &e) {
        ++ops;
        switch (c.draw(2)) {
            case 0: { u64 l = c.chance(1, 10) ? ~u64(0) : c.draw(c.coin() ? 20 : 5000), o = c.coin() ? 0 : c.chance(1, 10) ? ~u64(0) : c.draw(c.coin() ? 20 : 5000);
                e.model = CE->estimate_limit(G, *e.model, l, o); e.size = std::min(l, o > e.size ? 0 : e.size - o); e.how = VP_STR("limit(" << e.how << ", " << l << ", " << o << ")"); break; }
            case 1: { e.model = CE->estimate_grouping(G, *e.model, G.group_by()); auto it = groups.find("g" + gkey);
                if (injected and G.group_by().empty()) e.size = 1; else if (injected and it != groups.end()) { e.size = std::min(e.size, it->second); ++hits; }
                e.how = "group(" + e.how + ")"; break; }
            case 2: { m::cnf::CNF f; for (auto &s : G.sources()) if (s->filter().size() and c.coin()) f = s->filter(); e.model = CE->estimate_filter(G, *e.model, f); e.how = "filter(" + e.how + ")"; break; }
        }
        check(e);
    };
    while (parts.size() > 1) {
        if (c.chance(1, 8)) unary(parts[c.draw(parts.size() - 1)]);
        const size_t i = c.draw(parts.size() - 1); Est l = std::move(parts[i]); parts.erase(parts.begin() + i);
        const size_t j = c.draw(parts.size() - 1); Est r = std::move(parts[j]); parts.erase(parts.begin() + j);
        m::cnf::CNF cond; for (auto &x : G.joins()) if (c.coin()) cond = x->condition();
        Est e{CE->estimate_join(G, *l.model, *r.model, cond), l.set | r.set, sat_mul(l.size, r.size), "(" + l.how + " x " + r.how + ")"};
        if (auto x = lookup(e.set)) { e.size = std::min(e.size, *x); ++hits; }
        check(e); ++ops;
        parts.push_back(std::move(e));
    }
    while (c.chance(1, 2)) unary(parts[0]);
    c.label_if(hits, "injected"); c.label_if(odd, "malformed entries");
    c.nontrivial(injected ? hits >= 2 and ops >= 2 : ops >= 2);
}

VP_PROP("C17", "cartesian", 30000, 300000) { m::Options::Get().quiet = true; exact(c, false); }
VP_PROP("C17", "injected", 40000, 400000) { m::Options::Get().quiet = true; exact(c, true); }

/*----- sum-product networks -------------------------------------------------------------------------------------------*/
VP_PROP("C17", "spn", 6000, 60000) {
    m::Options::Get().quiet = true;
    Problem p; auto &C = p.d.C;
    const size_t n = 1 + c.size(3);
    for (size_t i = 0; i != n; ++i) {
        const u64 k = c.chance(1, 20) ? 0 : c.chance(1, 10) ? 1 : 1 + c.size(40);
        p.rows.push_back(k); p.src.push_back(i); p.name.push_back("T" + std::to_string(i));
        std::string sql = VP_STR("CREATE TABLE T" << i << " ( id INT(4) PRIMARY KEY, a INT(4), b INT(4), f DOUBLE );");
        p.d.exec(c, sql); c.log() << sql << "\n";
        std::string ins = VP_STR("INSERT INTO T" << i << " VALUES ");
        const int64_t da = c.oneof<int64_t>({0, 2, 9}), db = c.oneof<int64_t>({0, 1, 30}); const bool corr = c.chance(1, 3), nulls = c.chance(1, 3);
        for (u64 r = 0; r != k; ++r) {
            const int64_t a = c.range(-1, da), b = corr ? a * 2 : c.range(0, db);
            ins += VP_STR((r ? ", " : "") << "( " << r << ", " << (nulls and c.chance(1, 4) ? "NULL" : std::to_string(a)) << ", " << (nulls and c.chance(1, 4) ? "NULL" : std::to_string(b)) << ", " << (nulls and c.chance(1, 4) ? "NULL" : VP_STR(c.range(0, 12) << ".25")) << " )");
        }
        ins += ";"; if (k) p.d.exec(c, ins); c.log() << ins << "\n";
    }
    auto CEp = C.create_cardinality_estimator(C.pool("Spn"), C.pool("db"));
    auto &CE = m::as<m::SpnEstimator>(*CEp);
    CE.learn_spns();
    p.build(c, false, true);
    const auto &G = *p.G;
    std::vector<Est> parts; m::PlanTableLargeAndSparse PTl(G);
    auto bound = [&](Est &e, u64 most, u64 least = 0) {
        const u64 got = predict(CE, *e.model); c.log() << e.how << " = " << got << "\n";
        VP_REQUIRE(c, got <= most and got >= least, "bound", VP_STR("size of " << e.how << " is " << got << ", expected " << least << " to " << most));
        e.size = got;
    };
    { auto e = CE.empty_model(); VP_REQUIRE(c, predict(CE, *e) == 0, "size", "empty model"); }
    for (size_t i = 0; i != n; ++i) {
        Est e{CE.estimate_scan(G, S_t::Singleton(i)), u64(1) << i, 0, p.name[i]};
        bound(e, p.rows[i], p.rows[i]);
        if (G.sources()[i]->filter().size()) { e.model = CE.estimate_filter(G, *e.model, G.sources()[i]->filter()); e.how = "filter(" + e.how + ")"; bound(e, e.size); }
        if (c.chance(1, 8)) { u64 l = c.draw(30); e.model = CE.estimate_limit(G, *e.model, l, 0); e.how = VP_STR("limit(" << e.how << ", " << l << ")"); bound(e, std::min(e.size, l)); }
        PTl[S_t::Singleton(i)].model = CE.estimate_scan(G, S_t::Singleton(i));
        parts.push_back(std::move(e));
    }
    { u64 prod = 1; for (auto r : p.rows) prod = sat_mul(prod, r);
      Est all{CE.estimate_join_all(G, PTl, S_t::All(n), m::cnf::CNF()), 0, 0, "product of all"}; bound(all, prod, prod);
      if (G.num_joins()) { m::cnf::CNF cond; for (auto &j : G.joins()) cond = cond and j->condition(); Est x{CE.estimate_join_all(G, PTl, S_t::All(n), cond), 0, 0, "join of all"}; bound(x, prod); } }
    unsigned joins = 0;
    while (parts.size() > 1) {
        // a join of two connected parts, otherwise a product
        const size_t i = c.draw(parts.size() - 1); Est l = std::move(parts[i]); parts.erase(parts.begin() + i);
        const size_t j = c.draw(parts.size() - 1); Est r = std::move(parts[j]); parts.erase(parts.begin() + j);
        m::cnf::CNF cond;
        for (auto &x : G.joins()) { u64 s = 0; for (auto &ds : x->sources()) s |= u64(1) << ds.get().id(); if ((s & l.set) and (s & r.set)) { cond = x->condition(); break; } }
        Est e{CE.estimate_join(G, *l.model, *r.model, cond), l.set | r.set, 0, "(" + l.how + " x " + r.how + ")"};
        const u64 prod = sat_mul(l.size, r.size);
        bound(e, prod, cond.empty() ? prod : 0); joins += not cond.empty();
        parts.push_back(std::move(e));
    }
    { Est &e = parts[0]; const u64 in = e.size; e.model = CE.estimate_grouping(G, *e.model, G.group_by()); e.how = "group(" + e.how + ")";
      if (G.group_by().empty()) bound(e, 1, 1); else bound(e, in); }
    c.nontrivial(joins >= 1);
}

/// With a single column, there is nothing to approximate.
VP_PROP("C17", "spn-column", 20000, 200000) {
    m::Options::Get().quiet = true;
    Db d; auto &C = d.C; const bool key = c.coin();
    d.exec(c, std::string("CREATE TABLE T ( ") + (key ? "id INT(4) PRIMARY KEY, " : "") + "a INT(4) );");
    const size_t n = 1 + c.size(50); const int64_t lo = c.range(-9, 3), hi = lo + c.oneof<int64_t>({0, 1, 6, 60}); const bool nulls = c.chance(1, 3);
    std::vector<std::optional<int64_t>> vals; std::string ins = "INSERT INTO T VALUES ";
    for (size_t i = 0; i != n; ++i) {
        std::optional<int64_t> v; if (not(nulls and c.chance(1, 4))) v = c.range(lo, hi);
        ins += VP_STR((i ? ", " : "") << "( "); if (key) ins += VP_STR(i << ", "); ins += (v ? std::to_string(*v) : "NULL") + " )"; vals.push_back(v);
    }
    ins += ";"; d.exec(c, ins); c.log() << ins << "\n";
    auto CEp = C.create_cardinality_estimator(C.pool("Spn"), C.pool("db"));
    auto &CE = m::as<m::SpnEstimator>(*CEp); CE.learn_spns();
    std::set<int64_t> distinct; for (auto &v : vals) if (v) distinct.insert(*v);
    unsigned some = 0;
    for (int k = 0; k != 4; ++k) {
        const unsigned op = unsigned(c.draw(4)); const int64_t x = c.range(std::max<int64_t>(lo - 1, 0), std::max<int64_t>(hi + 1, 0)); const bool flip = c.coin();
        static const char *const OPS[] = {"=", "<", "<=", ">", ">="}, *const FLIP[] = {"=", ">", ">=", "<", "<="};
        const std::string sql = flip ? VP_STR("SELECT 1 FROM T WHERE " << x << " " << FLIP[op] << " T.a GROUP BY T.a;") : VP_STR("SELECT 1 FROM T WHERE T.a " << OPS[op] << " " << x << " GROUP BY T.a;");
        Diag dg; std::unique_ptr<m::ast::Stmt> stmt;
        try { stmt = m::statement_from_string(dg.diag, sql); } catch (m::frontend_exception &) { c.fail("rejected", sql + "\n" + dg.err.str()); }
        auto G = m::QueryGraph::Build(*stmt);
        auto scan = CE.estimate_scan(*G, S_t::Singleton(0)); auto f = CE.estimate_filter(*G, *scan, G->sources()[0]->filter());
        u64 want = 0; for (auto &v : vals) if (v) want += op == 0 ? *v == x : op == 1 ? *v < x : op == 2 ? *v <= x : op == 3 ? *v > x : *v >= x;
        const u64 got = predict(CE, *f); c.log() << sql << " -- " << want << "\n"; some += want > 0 and want < n;
        VP_REQUIRE(c, got == want or got + 1 == want, "filter", VP_STR(got << " instead of " << want << " of " << n << " rows: " << sql)); // rounded towards zero
        auto g = CE.estimate_grouping(*G, *scan, G->group_by());
        VP_REQUIRE(c, predict(CE, *g) == distinct.size(), "distinct", VP_STR(predict(CE, *g) << " instead of " << distinct.size() << " groups"));
    }
    c.nontrivial(some >= 2);
}

}
