// C12: histories of statements against a model of the catalog.  C13: the scheduler and multi-versioned tables.
#include "exec.hpp"
#include <mutable/catalog/Scheduler.hpp>
#include <mutable/catalog/TableFactory.hpp>
#include <mutable/Options.hpp>
#include "lex/Lexer.hpp"
#include "parse/Parser.hpp"
#include <mutable/storage/Index.hpp>
#include <atomic>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <thread>
#include <unistd.h>

using namespace db;

namespace {

/// Everything written to standard output while this object lives.
struct Capture {
    std::ostringstream os; std::streambuf *old;
    Capture() : old(std::cout.rdbuf(os.rdbuf())) { }
    ~Capture() { std::cout.rdbuf(old); }
};

/// The value as printed in results.
std::string printed(const Ty &t, const V &v) {
    if (v.null) return "NULL";
    char b[64];
    switch (t.k) {
        case F32: snprintf(b, sizeof b, "%.8g", double(float(v.d))); return b;
        case F64: snprintf(b, sizeof b, "%.16g", v.d); return b;
        case CHR: return '"' + v.s + '"';
        case BOOL: return v.i ? "TRUE" : "FALSE";
        case DATE: { const int y = int(v.i >> 9); snprintf(b, sizeof b, "%s%04d-%02d-%02d", y < 0 ? "-" : "", std::abs(y), int(v.i >> 5 & 15), int(v.i & 31)); return b; }
        case DT: return dt_str(v.i);
        default: return lit(t, v);
    }
}

std::string line(const std::vector<Ty> &ty, const Row &r) { std::string s; for (size_t i = 0; i != r.size(); ++i) s += (i ? "," : "") + printed(ty[i], r[i]); return s; }

std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::istringstream is(s); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }

/*======================================================================================================================
 * Statements
 *====================================================================================================================*/

struct TCol { std::string name; Ty ty; bool notnull = false, unique = false, key = false; std::string ref_table, ref_attr; };
struct TTab { std::vector<TCol> cols; std::vector<Row> rows; std::vector<Ty> types() const { std::vector<Ty> t; for (auto &x : cols) t.push_back(x.ty); return t; } };
struct TIdx { std::string name, table, attr; bool rmi = false, valid = true; };
struct TDb { std::map<std::string, TTab> tabs; std::vector<TIdx> idxs; };
struct World { std::map<std::string, TDb> dbs; std::string use; };

struct Session {
    Case &c; m::Catalog &C; World W; unsigned accepted = 0, rejected = 0, selects = 0;
    std::string dir; unsigned files = 0;
    explicit Session(Case &c) : c(c), C(m::Catalog::Get()) {
        m::Catalog::Clear(); C.timer().clear();
        C.default_backend(C.pool("Interpreter"));
        W.dbs["start"]; auto &d = C.add_database(C.pool("start")); C.set_database_in_use(d); W.use = "start";
        if (c.chance(1, 4)) { C.unset_database_in_use(); W.use.clear(); }
    }
    ~Session() { C.timer().clear(); for (unsigned i = 0; i != files; ++i) unlink(file(i).c_str()); }
    std::string file(unsigned i) const { return VP_STR("/tmp/vp-stmt-" << getpid() << '-' << i << ".csv"); }

    m::ThreadSafePooledString pool(const std::string &s) { return C.pool(s.c_str()); }

    struct Run { bool ok; std::string out, log, err; };
    Run run(const std::string &text) {
        Diag d; Run r; Capture cap;
        std::istringstream in(text);
        // errors are reset before every statement: observe those of the last one
        m::ast::Lexer lexer(d.diag, C.get_pool(), "-", in);
        m::ast::Parser parser(lexer);
        r.ok = true; unsigned n = 0;
        while (parser.token()) {
            d.diag.clear();
            auto ast = parser.parse();
            r.ok &= C.scheduler().autocommit(std::move(ast), d.diag);
            r.ok &= d.diag.num_errors() == 0;
            ++n;
        }
        if (n != 1) r.ok = false;
        r.out = cap.os.str(); r.log = d.out.str(); r.err = d.err.str();
        return r;
    }

    /// Compares the whole catalog with the model.
    void compare(const std::string &after) {
        VP_REQUIRE(c, C.num_databases() == W.dbs.size(), "databases", after);
        VP_REQUIRE(c, C.has_database_in_use() == not W.use.empty(), "database in use", after);
        if (not W.use.empty()) VP_REQUIRE(c, *C.get_database_in_use().name == W.use, "database in use", after);
        for (auto &[name, D] : W.dbs) {
            VP_REQUIRE(c, C.has_database(pool(name)), "database missing", name + " after " + after);
            auto &db = C.get_database(pool(name));
            VP_REQUIRE(c, db.size() == D.tabs.size(), "tables", VP_STR(db.size() << " tables in " << name << " after " << after));
            for (auto &[tn, T] : D.tabs) {
                VP_REQUIRE(c, db.has_table(pool(tn)), "table missing", tn + " after " + after);
                auto &t = db.get_table(pool(tn));
                VP_REQUIRE(c, *t.name() == tn and t.num_attrs() == T.cols.size() and t.num_all_attrs() == T.cols.size(), "columns", tn + " after " + after);
                size_t keys = 0;
                for (size_t i = 0; i != T.cols.size(); ++i) {
                    auto &a = t[i]; auto &k = T.cols[i]; keys += k.key;
                    VP_REQUIRE(c, *a.name == k.name and a.type == to_type(k.ty) and a.not_nullable == k.notnull and a.unique == k.unique, "column", tn + "." + k.name + " after " + after);
                    VP_REQUIRE(c, bool(a.reference) == not k.ref_table.empty(), "reference", tn + "." + k.name + " after " + after);
                    if (a.reference) VP_REQUIRE(c, *a.reference->table.name() == k.ref_table and *a.reference->name == k.ref_attr, "reference", tn + "." + k.name + " after " + after);
                }
                auto pk = t.primary_key(); VP_REQUIRE(c, pk.size() == keys, "primary key", tn + " after " + after);
                for (auto &a : pk) VP_REQUIRE(c, T.cols[a.get().id].key, "primary key", tn + " after " + after);
                VP_REQUIRE(c, t.store().num_rows() == T.rows.size(), "number of rows", VP_STR(t.store().num_rows() << " instead of " << T.rows.size() << " rows in " << tn << " after " << after));
                (void) t.schema(); // follows references
            }
            for (auto &x : D.idxs) {
                VP_REQUIRE(c, db.has_index(pool(x.name)), "index missing", x.name + " after " + after);
                bool arr = false, rmi = false; for (auto &y : D.idxs) if (y.table == x.table and y.attr == x.attr and y.valid) (y.rmi ? rmi : arr) = true;
                VP_REQUIRE(c, db.has_index(pool(x.table), pool(x.attr), m::idx::IndexMethod::Array) == arr and db.has_index(pool(x.table), pool(x.attr), m::idx::IndexMethod::Rmi) == rmi,
                           "usable index", x.table + "." + x.attr + " after " + after);
            }
            for (auto n : {"i0", "i1", "i2", "i3"}) { bool has = false; for (auto &x : D.idxs) has |= x.name == n; VP_REQUIRE(c, db.has_index(pool(n)) == has, "index which should not exist", std::string(n) + " after " + after); }
        }
    }
    void compare_rows(const std::string &text) {
        if (W.use.empty()) return;
        for (auto &[tn, T] : W.dbs[W.use].tabs) {
            auto r = run("SELECT * FROM " + tn + ";");
            VP_REQUIRE(c, r.ok, "SELECT * rejected", tn + ": " + r.err);
            check_rows(T.types(), T.rows, r, "SELECT * FROM " + tn + " after " + text);
        }
    }
    void check_rows(const std::vector<Ty> &ty, const std::vector<Row> &rows, const Run &r, const std::string &text) {
        auto got = lines(r.out);
        std::vector<std::string> want; for (auto &x : rows) want.push_back(line(ty, x));
        if (not m::Options::Get().quiet) {
            VP_REQUIRE(c, not got.empty() and got.back() == std::to_string(rows.size()) + " rows", "row count line", text + ": " + r.out);
            got.pop_back();
        }
        auto g = got, w = want; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
        if (g != w) { std::string s = text + "\n"; for (auto &x : got) s += "got  " + x + "\n"; for (auto &x : want) s += "want " + x + "\n"; c.fail("rows", s); }
    }

    std::string tname() { return c.oneof<std::string>({"t0", "t1", "t2", "T2", "u"}); }
    std::string dname() { return c.oneof<std::string>({"start", "d1", "d2"}); }
    std::string iname() { return c.oneof<std::string>({"i0", "i1", "i2", "i3"}); }
    TTab *any_table(std::string &name) {
        if (W.use.empty() or W.dbs[W.use].tabs.empty()) return nullptr;
        auto &t = W.dbs[W.use].tabs; auto it = t.begin(); std::advance(it, long(c.draw(t.size() - 1))); name = it->first; return &it->second;
    }

    void step() {
        World before = W; bool ok = true; std::string text; std::function<void()> effect = []{}; int select = -1; std::vector<Ty> sty; std::vector<Row> srows; bool unspecified = false;
        TDb *D = W.use.empty() ? nullptr : &W.dbs[W.use];
        switch (c.weighted({2, 2, 2, 10, 3, 18, 10, 5, 3, 4, 3})) {
            case 0: { auto n = dname(); text = "CREATE DATABASE " + n + ";"; ok = not W.dbs.count(n); effect = [=, this]{ W.dbs[n]; }; break; }
            case 1: { auto n = dname(); const bool ie = c.coin(); text = std::string("DROP DATABASE ") + (ie ? "IF EXISTS " : "") + n + ";"; ok = W.use != n and (ie or W.dbs.count(n)); effect = [=, this]{ W.dbs.erase(n); }; break; }
            case 2: { auto n = dname(); text = "USE " + n + ";"; ok = W.dbs.count(n); effect = [=, this]{ W.use = n; }; break; }
            case 3: { // CREATE TABLE
                auto n = tname(); TTab T; std::ostringstream os; os << "CREATE TABLE " << n << " ("; ok = D and not D->tabs.count(n); bool haskey = false;
                for (size_t i = 0, k = 1 + c.size(6); i != k; ++i) {
                    TCol col; col.name = c.chance(1, 25) ? "c0" : "c" + std::to_string(i); for (auto &o : T.cols) if (o.name == col.name) ok = false;
                    col.ty = gen_type(c);
                    std::string tysql = col.ty.sql();
                    os << (i ? ", " : " ") << col.name << ' ';
                    if (c.chance(1, 50)) { os << c.oneof<std::string>({"INT(3)", "INT(16)", "DECIMAL(30, 2)", "DECIMAL(3, 5)"}); ok = false; } else os << tysql;
                    for (size_t q = c.weighted({3, 3, 1, 1}); q; --q)
                        switch (c.weighted({4, 3, 2, 2, 2})) {
                            case 0: os << " NOT NULL"; col.notnull = true; break;
                            case 1: os << " UNIQUE"; col.unique = true; break;
                            case 2: os << " PRIMARY KEY"; if (haskey) ok = false; haskey = col.key = true; break;
                            case 3: if (c.coin()) os << " CHECK (" << col.name << " = " << col.name << ')'; else if (c.coin()) { os << " CHECK (" << lit(mk(BOOL), V::I(1)) << ')'; } else { os << " CHECK (nosuch > 1)"; ok = false; } break;
                            case 4: { std::string rt; TTab *R = any_table(rt);
                                if (not R) { os << " REFERENCES nosuch(a)"; ok = false; break; }
                                auto &ra = R->cols[c.draw(R->cols.size() - 1)]; os << " REFERENCES " << rt << '(' << ra.name << ')';
                                if (not col.ref_table.empty() or not (ra.ty == col.ty)) ok = false;
                                col.ref_table = rt; col.ref_attr = ra.name; break; }
                        }
                    T.cols.push_back(col);
                }
                os << " );"; text = os.str(); effect = [=, this]{ W.dbs[W.use].tabs[n] = T; };
                break;
            }
            case 4: { // DROP TABLE
                std::vector<std::string> ns{tname()}; while (c.chance(1, 3)) ns.push_back(tname()); const bool ie = c.coin();
                if (c.chance(2, 3)) { std::string n; if (any_table(n)) ns = {n}; }
                text = std::string("DROP TABLE ") + (ie ? "IF EXISTS " : ""); for (size_t i = 0; i != ns.size(); ++i) text += (i ? ", " : "") + ns[i]; text += ";";
                ok = D; if (D and not ie) for (auto &n : ns) ok &= D->tabs.count(n) > 0;
                effect = [=, this]{ auto &D = W.dbs[W.use]; for (auto &n : ns) {
                    D.tabs.erase(n); std::erase_if(D.idxs, [&](auto &x) { return x.table == n; });
                    for (auto &[tn, T] : D.tabs) for (auto &k : T.cols) if (k.ref_table == n) k.ref_table.clear(); } };
                break;
            }
            case 5: { // INSERT
                std::string n; TTab *T = any_table(n);
                if (not T or c.chance(1, 12)) { n = tname(); T = D and D->tabs.count(n) ? &D->tabs[n] : nullptr; }
                std::ostringstream os; os << "INSERT INTO " << n << " VALUES "; ok = T; std::vector<Row> rows;
                static const TTab none{{{"c0", mk_int(32)}}, {}}; const TTab &shape = T ? *T : none;
                for (size_t i = 0, k = 1 + c.size(12); i != k; ++i) {
                    os << (i ? ", (" : "("); Row r; size_t w = shape.cols.size();
                    if (c.chance(1, 60)) { w += c.coin() ? 1 : size_t(-1); ok = false; if (not w) w = shape.cols.size() + 1; }
                    for (size_t j = 0; j != w; ++j) {
                        os << (j ? ", " : "");
                        if (j >= shape.cols.size()) { os << "1"; continue; }
                        auto &col = shape.cols[j];
                        const bool null = c.chance(1, col.notnull ? 60 : 6);
                        if (null) { if (c.coin()) os << "NULL"; else os << "DEFAULT"; if (col.notnull) ok = false; r.push_back(V::N()); }
                        else if (c.chance(1, 80)) { // a value of another kind
                            os << (col.ty.num() ? "\"text\"" : "17"); ok = false; r.push_back(V::N());
                        } else if (c.chance(1, 120)) { os << c.oneof<std::string>({"c0", "nosuch", "nosuch(1)"}); ok = false; r.push_back(V::N()); }
                        else { V v = gen_val(c, col.ty, false); os << lit(col.ty, v); r.push_back(v); }
                    }
                    os << ')'; rows.push_back(r);
                }
                os << ';'; text = os.str();
                effect = [=, this]{ auto &T = W.dbs[W.use].tabs[n]; T.rows.insert(T.rows.end(), rows.begin(), rows.end()); for (auto &x : W.dbs[W.use].idxs) if (x.table == n) x.valid = false; };
                break;
            }
            case 6: { // SELECT
                std::string n; TTab *T = any_table(n);
                if (not T or c.chance(1, 12)) { text = "SELECT * FROM " + c.oneof<std::string>({"nosuch", "t0 AS x, nosuch", "t0, t0"}) + ";"; ok = false; break; }
                std::vector<Ty> ty = T->types(); std::vector<Row> rows; std::string where; std::vector<size_t> cols;
                const size_t p = c.draw(T->cols.size() - 1); auto &pc = T->cols[p]; V pv = T->rows.empty() or c.coin() ? gen_val(c, pc.ty, false) : T->rows[c.draw(T->rows.size() - 1)][p];
                const int kind = int(c.draw(3)); // all rows, comparison, IS NULL, count
                if (kind == 1 and not pv.null) where = " WHERE " + pc.name + " = " + lit(pc.ty, pv); else if (kind == 2) where = " WHERE ISNULL(" + pc.name + ")";
                auto eq = [&](const V &v) { return not v.null and cmp_val(pc.ty, v, pv) == 0; };
                for (auto &r : T->rows) if (where.empty() or (kind == 2 ? r[p].null : eq(r[p]))) rows.push_back(r);
                if (kind == 3) { text = "SELECT COUNT(), COUNT(" + pc.name + ") FROM " + n + ";"; int64_t k = 0; for (auto &r : T->rows) k += not r[p].null; sty = {mk_int(64), mk_int(64)}; srows = {Row{V::I(int64_t(T->rows.size())), V::I(k)}}; }
                else if (c.coin()) { text = "SELECT * FROM " + n + where + ";"; sty = ty; srows = rows; }
                else {
                    text = "SELECT "; for (size_t k = 0, m = 1 + c.draw(2); k != m; ++k) { auto i = c.draw(T->cols.size() - 1); bool dup = false; for (auto j : cols) dup |= j == i; if (dup) continue; text += (cols.empty() ? "" : ", ") + T->cols[i].name; cols.push_back(i); }
                    text += " FROM " + n + where + ";";
                    for (auto i : cols) sty.push_back(ty[i]); for (auto &r : rows) { Row q; for (auto i : cols) q.push_back(r[i]); srows.push_back(q); }
                }
                select = 1; ++selects;
                break;
            }
            case 7: { // CREATE INDEX
                std::string n; TTab *T = any_table(n); auto in = iname(); const bool ine = c.chance(1, 3);
                if (not T or c.chance(1, 12)) { n = "nosuch"; T = nullptr; }
                std::string attr = T and not c.chance(1, 12) ? T->cols[c.draw(T->cols.size() - 1)].name : "nosuch"; const unsigned method = unsigned(c.draw(3));
                text = std::string("CREATE ") + (c.chance(1, 15) ? "UNIQUE " : "") + "INDEX " + (ine ? "IF NOT EXISTS " : "") + in + " ON " + n + (method == 0 ? "" : method == 1 ? " USING array" : method == 2 ? " USING rmi" : " USING btree") + " (" + attr + ");";
                bool exists = false; if (D) for (auto &x : D->idxs) exists |= x.name == in;
                const TCol *col = nullptr; if (T) for (auto &k : T->cols) if (k.name == attr) col = &k;
                const bool unique = text.compare(7, 6, "UNIQUE") == 0;
                ok = D and not unique and ((exists and ine) or (not exists and T and col and method != 3));
                if (ok and not exists and method == 2 and (col->ty.k == BOOL or col->ty.k == CHR)) ok = false; // there are models of numbers and dates only
                const bool skip = exists; effect = [=, this]{ if (not skip) W.dbs[W.use].idxs.push_back({in, n, attr, method == 2, true}); };
                break;
            }
            case 8: { // DROP INDEX
                std::vector<std::string> ns{iname()}; while (c.chance(1, 3)) ns.push_back(iname()); const bool ie = c.coin();
                text = std::string("DROP INDEX ") + (ie ? "IF EXISTS " : ""); for (size_t i = 0; i != ns.size(); ++i) text += (i ? ", " : "") + ns[i]; text += ";";
                ok = D; if (D and not ie) for (auto &n : ns) { bool e = false; for (auto &x : D->idxs) e |= x.name == n; ok &= e; }
                effect = [=, this]{ for (auto &n : ns) std::erase_if(W.dbs[W.use].idxs, [&](auto &x) { return x.name == n; }); };
                break;
            }
            case 9: { // IMPORT
                std::string n; TTab *T = any_table(n);
                if (not T) { text = "IMPORT INTO nosuch DSV \"/tmp/vp-stmt-none\";"; ok = false; break; }
                if (c.chance(1, 4)) { text = "IMPORT INTO " + n + " DSV \"" + c.oneof<std::string>({"/tmp/vp-stmt-no-such-file", "/nonexistent/dir/x"}) + "\";"; ok = false; break; }
                const auto path = file(files++); std::ofstream f(path); std::vector<Row> rows; const char delim = c.oneof<char>({',', '|', ';'});
                for (size_t k = c.size(10); k; --k) { Row r; for (size_t j = 0; j != T->cols.size(); ++j) { auto &col = T->cols[j]; const bool null = not col.notnull and c.chance(1, 6); V v = null ? V::N() : gen_val(c, col.ty, false); if (j) f << delim;
                        if (not null) { if (col.ty.k == CHR) { f << '"'; for (char ch : v.s) { if (ch == '"' or ch == '\\') f << '\\'; if (ch == '\n') { f << "\\n"; continue; } f << ch; } f << '"'; }
                            else if (col.ty.k == F32 or col.ty.k == F64) { char b[40]; snprintf(b, sizeof b, "%.17g", v.d); f << b; }
                            else if (col.ty.k == DATE) f << date_str(v.i); else if (col.ty.k == DT) f << dt_str(v.i); else f << lit(col.ty, v); }
                        r.push_back(v); } f << '\n'; rows.push_back(r); }
                text = "IMPORT INTO " + n + " DSV \"" + path + "\" DELIMITER \"" + delim + "\";";
                if (T->cols.size() == 1) { // an empty line is no row
                    unspecified = true;
                }
                effect = [=, this]{ auto &T = W.dbs[W.use].tabs[n]; T.rows.insert(T.rows.end(), rows.begin(), rows.end()); for (auto &x : W.dbs[W.use].idxs) if (x.table == n) x.valid = false; };
                if (unspecified) return;
                break;
            }
            default: // invalid ones of all kinds
                text = c.oneof<std::string>({"SELECT;", "INSERT INTO t0 VALUES;", "DELETE FROM t0;", "UPDATE t0 SET c0 = 1;", "CREATE TABLE;", "\\nosuch_instruction;", "FOO BAR;", "SELECT * FROM t0 WHERE;", "DROP TABLE;", "CREATE TABLE t0 ();", "INSERT INTO t0 VALUES (1",
                    "SELECT nosuch FROM t0;", "SELECT c0 FROM t0 WHERE c0 = nosuch;", "SELECT SUM(c0), c0 FROM t0;", "SELECT c0 + TRUE FROM t0;", "USE;", "INSERT INTO t0 VALUES (SUM(1));", "INSERT INTO t0 VALUES ((SELECT 1));", ")", "\"unterminated"});
                ok = false; break;
        }
        c.log() << text << (ok ? "" : "  -- invalid") << "\n";
        auto r = run(text);
        VP_REQUIRE(c, r.ok == ok, ok ? "valid statement rejected" : "invalid statement accepted", text + "\n" + r.err + r.log);
        VP_REQUIRE(c, ok or not r.err.empty(), "no message", text);
        if (ok) { effect(); ++accepted; if (select >= 0) check_rows(sty, srows, r, text); else VP_REQUIRE(c, r.out.empty(), "output of a statement which is no query", text + "\n" + r.out); }
        else { ++rejected; VP_REQUIRE(c, r.out.empty(), "result of a rejected statement", text + "\n" + r.out); }
        compare(text);
    }
};

VP_PROP("C12", "statements", 40000, 400000) {
    m::Options::Get().quiet = c.coin();
    Session S(c); S.C.default_data_layout(S.C.pool(LAYOUTS[c.draw(7)]));
    S.C.default_store(S.C.pool(c.oneof<std::string>({"PaxStore", "RowStore", "ColumnStore"}).c_str()));
    for (size_t n = 3 + c.size(40); n; --n) { S.step(); if (c.chance(1, 10)) S.compare_rows("statements"); }
    S.compare_rows("all statements");
    c.label_if(S.rejected, "rejected"); c.label_if(S.selects, "query");
    c.nontrivial(S.accepted >= 3 and S.rejected);
}

/*======================================================================================================================
 * Scheduler
 *====================================================================================================================*/

/// What the commands of a schedule did, in order: each is an INSERT of its own number into a common table.
VP_PROP("C13", "scheduler", 10000, 100000) {
    m::Options::Get().quiet = true;
    Db D; D.exec(c, "CREATE TABLE log (tx INT(4), seq INT(4));");
    auto &S = D.C.scheduler();
    const size_t threads = 1 + c.draw(4), txs = 1 + c.draw(5);
    struct Cmd { size_t tx, seq; bool bad; };
    // transactions with their commands; every transaction is driven by one thread, several transactions by a thread in turn
    std::vector<std::vector<bool>> bad(txs); std::vector<std::vector<bool>> wait(txs); std::vector<size_t> owner(txs); std::vector<bool> abort_(txs), early(txs);
    for (size_t t = 0; t != txs; ++t) {
        owner[t] = c.draw(threads - 1); abort_[t] = c.chance(1, 4);
        for (size_t n = c.draw(5); n; --n) { bad[t].push_back(c.chance(1, 6)); wait[t].push_back(c.coin()); }
        c.log() << "T" << t << " thread " << owner[t] << ":"; for (size_t i = 0; i != bad[t].size(); ++i) c.log() << (bad[t][i] ? " bad" : " insert") << (wait[t][i] ? " wait" : ""); c.log() << (abort_[t] ? " abort; " : " commit; ");
    }
    std::atomic<bool> go{false};
    struct Res { std::vector<int> ok; std::vector<std::unique_ptr<Diag>> diag; bool closed = false; };
    std::vector<Res> res(txs);
    auto parse = [&](m::Diagnostic &d, const std::string &text) { std::istringstream in(text); m::ast::Lexer L(d, D.C.get_pool(), "-", in); m::ast::Parser P(L); return P.parse(); };
    // commands are parsed beforehand
    std::vector<std::vector<std::unique_ptr<m::ast::Command>>> cmds(txs);
    for (size_t t = 0; t != txs; ++t)
        for (size_t i = 0; i != bad[t].size(); ++i) {
            res[t].diag.push_back(std::make_unique<Diag>()); res[t].ok.push_back(-1);
            cmds[t].push_back(parse(res[t].diag.back()->diag, bad[t][i] ? "INSERT INTO nosuch VALUES (1);" : VP_STR("INSERT INTO log VALUES (" << t << ", " << i << ");")));
        }
    auto drive = [&](size_t me) {
        while (not go) std::this_thread::yield();
        for (size_t t = 0; t != txs; ++t) {
            if (owner[t] != me) continue;
            auto tx = S.begin_transaction();
            std::vector<std::future<bool>> f(cmds[t].size());
            for (size_t i = 0; i != cmds[t].size(); ++i) {
                f[i] = S.schedule_command(*tx, std::move(cmds[t][i]), res[t].diag[i]->diag);
                if (wait[t][i]) res[t].ok[i] = f[i].get();
            }
            for (size_t i = 0; i != f.size(); ++i) if (f[i].valid()) res[t].ok[i] = f[i].get();
            res[t].closed = abort_[t] ? S.abort(std::move(tx)) : S.commit(std::move(tx));
        }
    };
    std::vector<std::thread> T; for (size_t i = 0; i != threads; ++i) T.emplace_back(drive, i);
    go = true; for (auto &t : T) t.join();
    auto out = D.query("SELECT * FROM log;");
    std::vector<std::vector<int>> seqs(txs); int last = -1; std::set<int> done; size_t total = 0, want = 0;
    for (auto &r : out.rows) {
        const int t = int(r[0].i), s = int(r[1].i); ++total;
        VP_REQUIRE(c, t >= 0 and size_t(t) < txs, "row", "");
        if (t != last) { VP_REQUIRE(c, not done.count(t), "transactions interleaved", show(out.types, out.rows)); if (last >= 0) done.insert(last); last = t; }
        seqs[size_t(t)].push_back(s);
    }
    for (size_t t = 0; t != txs; ++t) {
        std::vector<int> w; for (size_t i = 0; i != bad[t].size(); ++i) { if (not bad[t][i]) w.push_back(int(i)); VP_REQUIRE(c, res[t].ok[i] == (bad[t][i] ? 0 : 1), "result of a command", VP_STR("T" << t << " command " << i)); VP_REQUIRE(c, res[t].diag[i]->err.str().empty() == not bad[t][i], "messages of a command", VP_STR("T" << t << " command " << i << ": " << res[t].diag[i]->err.str())); }
        want += w.size();
        VP_REQUIRE(c, seqs[t] == w, "order of commands", VP_STR("T" << t << "\n" << show(out.types, out.rows)));
        VP_REQUIRE(c, res[t].closed, "transaction not closed", "");
    }
    VP_REQUIRE(c, total == want, "commands executed twice", "");
    // transactions of one thread run in the order they were begun
    { std::vector<size_t> order; last = -1; for (auto &r : out.rows) if (int(r[0].i) != last) { last = int(r[0].i); order.push_back(size_t(last)); } for (size_t i = 0; i != order.size(); ++i) for (size_t j = 0; j != i; ++j) if (owner[order[i]] == owner[order[j]]) VP_REQUIRE(c, order[j] < order[i], "order of transactions", ""); }
    std::set<size_t> own(owner.begin(), owner.end());
    c.label(VP_STR(own.size() << " threads"));
    c.nontrivial(want >= 3 and txs > 1);
}

/// The scheduler driven by one thread: commands of several open transactions interleaved; a transaction runs alone.
VP_PROP("C13", "interleaved", 20000, 200000) {
    m::Options::Get().quiet = true;
    Db D; D.exec(c, "CREATE TABLE log (tx INT(4), seq INT(4));");
    auto &S = D.C.scheduler();
    auto parse = [&](m::Diagnostic &d, const std::string &text) { std::istringstream in(text); m::ast::Lexer L(d, D.C.get_pool(), "-", in); m::ast::Parser P(L); return P.parse(); };
    struct Tx { std::unique_ptr<m::Scheduler::Transaction> t; std::vector<std::future<bool>> f; std::vector<std::unique_ptr<Diag>> d; unsigned n = 0; int64_t at = -1; };
    std::vector<Tx> open; std::vector<std::pair<int, int>> model; std::vector<std::vector<std::pair<int, int>>> pend; int ids = 0; std::vector<int> id;
    // model: transactions are served in the order of their first command
    std::vector<size_t> order;
    unsigned commits = 0, most = 0;
    for (size_t n = 4 + c.size(30); n; --n) {
        switch (c.weighted({3, 8, 3})) {
            case 0: if (open.size() < 5) { open.push_back({S.begin_transaction(), {}, {}, 0}); id.push_back(ids++); c.log() << "begin " << id.back() << "; ";
                if (c.chance(1, 6)) { open.back().at = int64_t(c.draw(1000)); open.back().t->start_time(open.back().at); c.log() << "with start time " << open.back().at << "; "; } } break;
            case 1: { if (open.empty()) break; const size_t k = c.draw(open.size() - 1); auto &t = open[k]; t.d.push_back(std::make_unique<Diag>());
                if (not t.n) order.push_back(size_t(id[k]));
                c.log() << "insert by " << id[k] << "; ";
                t.f.push_back(S.schedule_command(*t.t, parse(t.d.back()->diag, VP_STR("INSERT INTO log VALUES (" << id[k] << ", " << t.n << ");")), t.d.back()->diag)); ++t.n; break; }
            case 2: { // close the transaction which may run now
                if (order.empty()) { if (not open.empty() and c.coin()) { c.log() << "commit idle " << id.back() << "; "; VP_REQUIRE(c, S.commit(std::move(open.back().t)), "commit", ""); open.pop_back(); id.pop_back(); } break; }
                size_t k = 0; while (size_t(id[k]) != order.front()) ++k;
                auto &t = open[k];
                for (auto &f : t.f) { VP_REQUIRE(c, f.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "command never runs", ""); VP_REQUIRE(c, f.get(), "command failed", ""); }
                for (size_t j = 0; j != open.size(); ++j) if (j != k) for (auto &f : open[j].f) VP_REQUIRE(c, f.wait_for(std::chrono::seconds(0)) != std::future_status::ready, "transaction runs while another one is open", "");
                if (t.at >= 0) VP_REQUIRE(c, t.t->start_time() == t.at, "start time overwritten", VP_STR(t.t->start_time() << " instead of " << t.at));
                for (unsigned i = 0; i != t.n; ++i) model.push_back({id[k], int(i)});
                c.log() << "close " << id[k] << "; ";
                VP_REQUIRE(c, c.coin() ? S.commit(std::move(t.t)) : S.abort(std::move(t.t)), "commit", "");
                order.erase(order.begin()); open.erase(open.begin() + long(k)); id.erase(id.begin() + long(k)); ++commits;
                break;
            }
        }
        most = std::max(most, unsigned(order.size()));
    }
    while (not order.empty()) { // run the remaining ones
        size_t k = 0; while (size_t(id[k]) != order.front()) ++k;
        auto &t = open[k]; for (auto &f : t.f) { VP_REQUIRE(c, f.wait_for(std::chrono::seconds(20)) == std::future_status::ready and f.get(), "command never runs", ""); }
        for (unsigned i = 0; i != t.n; ++i) model.push_back({id[k], int(i)});
        S.commit(std::move(t.t)); order.erase(order.begin()); open.erase(open.begin() + long(k)); id.erase(id.begin() + long(k)); ++commits;
    }
    for (auto &t : open) VP_REQUIRE(c, S.commit(std::move(t.t)), "commit", "");
    auto out = D.query("SELECT * FROM log;");
    std::vector<std::pair<int, int>> got; for (auto &r : out.rows) got.push_back({int(r[0].i), int(r[1].i)});
    VP_REQUIRE(c, got == model, "order of execution", show(out.types, out.rows));
    c.nontrivial(commits >= 2 and most >= 2);
}

/*======================================================================================================================
 * Versions
 *====================================================================================================================*/

VP_PROP("C13", "versions", 15000, 150000) {
    m::Options::Get().quiet = true;
    m::Catalog &C = m::Catalog::Get();
    struct Factory { m::Catalog &C; Factory(m::Catalog &C) : C(C) { C.table_factory(C.apply_table_property(C.pool("multi-versioning"), std::make_unique<m::ConcreteTableFactory>())); }
        ~Factory() { C.table_factory(std::make_unique<m::ConcreteTableFactory>()); } } factory(C);
    Db D; D.layout(LAYOUTS[c.draw(7)]);
    auto &S = C.scheduler();
    auto run = [&](m::Scheduler::Transaction *tx, const std::string &text) -> std::pair<bool, std::string> {
        Diag d; Capture cap; std::istringstream in(text); m::ast::Lexer L(d.diag, C.get_pool(), "-", in); m::ast::Parser P(L); auto cmd = P.parse();
        bool ok = tx ? S.schedule_command(*tx, std::move(cmd), d.diag).get() : S.autocommit(std::move(cmd), d.diag);
        if (not ok) return {false, d.err.str()};
        return {true, cap.os.str()};
    };
    struct R { Row row; int64_t begin, end; };
    struct T { Table t; std::vector<R> rows; };
    std::vector<T> ts; for (size_t i = 0, n = 1 + c.draw(1); i != n; ++i) {
        T t; t.t = gen_table(c, "t" + std::to_string(i), 0, 3); for (auto &k : t.t.cols) k.wide = false;
        auto r = run(nullptr, create_sql(t.t)); VP_REQUIRE(c, r.first, "CREATE TABLE", r.second); ts.push_back(t);
    }
    // The clock of the scheduler: start times of transactions.
    int64_t now; { auto tx = S.begin_transaction(); VP_REQUIRE(c, tx->start_time() == -1, "start time before the first command", ""); run(tx.get(), "SELECT 1;"); now = tx->start_time(); S.commit(std::move(tx)); }
    unsigned filtered = 0, seen = 0;
    for (size_t n = 3 + c.size(16); n; --n) {
        auto tx = S.begin_transaction(); int64_t start = -1; const bool autoc = c.chance(1, 4);
        for (size_t k = autoc ? 1 : 1 + c.draw(2); k; --k) {
            T &t = ts[c.draw(ts.size() - 1)]; std::pair<bool, std::string> r;
            std::vector<Ty> ty; for (auto &x : t.t.cols) ty.push_back(x.ty);
            switch (c.weighted({4, 5, 3})) {
                case 0: { // INSERT
                    std::ostringstream os; os << "INSERT INTO " << t.t.name << " VALUES "; std::vector<Row> rows;
                    for (size_t q = 0, m = 1 + c.draw(2); q != m; ++q) { Row row; os << (q ? ", (" : "("); for (size_t j = 0; j != t.t.cols.size(); ++j) { auto &col = t.t.cols[j]; V v = not col.notnull and c.chance(1, 5) ? V::N() : gen_val(c, col.ty, false); os << (j ? ", " : "") << lit(col.ty, v); row.push_back(v); } os << ')'; rows.push_back(row); }
                    os << ';'; c.log() << os.str() << "\n";
                    r = run(autoc ? nullptr : tx.get(), os.str()); VP_REQUIRE(c, r.first, "INSERT", r.second);
                    if (start < 0) { start = now + 1; now = start; }
                    for (auto &row : rows) t.rows.push_back({row, start, -1});
                    break;
                }
                case 1: { // SELECT
                    if (start < 0) { start = now + 1; now = start; }
                    std::string text; std::vector<Row> want; std::vector<Ty> wt = ty;
                    auto visible = [&](const R &x) { return x.begin <= start and (x.end == -1 or x.end > start); };
                    for (auto &x : t.rows) { if (visible(x)) want.push_back(x.row); else ++filtered; }
                    seen += unsigned(want.size());
                    const size_t p = c.draw(t.t.cols.size() - 1); const std::string &pn = t.t.cols[p].name;
                    switch (c.draw(6)) {
                        case 0: text = "SELECT * FROM " + t.t.name + ";"; break;
                        case 1: text = "SELECT * FROM " + t.t.name + " AS x;"; break;
                        case 2: text = "SELECT COUNT() FROM " + t.t.name + ";"; wt = {mk_int(64)}; want = {Row{V::I(int64_t(want.size()))}}; break;
                        case 3: { text = "SELECT " + pn + " FROM " + t.t.name + " WHERE ISNULL(" + pn + ");"; std::vector<Row> w; for (auto &x : want) if (x[p].null) w.push_back(Row{x[p]}); want = w; wt = {ty[p]}; break; }
                        case 4: { text = "SELECT COUNT() FROM " + t.t.name + " AS x, " + t.t.name + " AS y;"; const int64_t k = int64_t(want.size()); wt = {mk_int(64)}; want = {Row{V::I(k * k)}}; break; }
                        case 5: { text = "SELECT n." + pn + " FROM (SELECT " + pn + " FROM " + t.t.name + ") AS n;"; std::vector<Row> w; for (auto &x : want) w.push_back(Row{x[p]}); want = w; wt = {ty[p]}; break; }
                        case 6: { text = "SELECT * FROM " + t.t.name + " WHERE (SELECT COUNT() FROM " + t.t.name + " AS z) = " + std::to_string(want.size()) + ";"; break; }
                    }
                    c.log() << text << "  -- at " << start << "\n";
                    r = run(autoc ? nullptr : tx.get(), text); VP_REQUIRE(c, r.first, "SELECT", text + "\n" + r.second);
                    auto got = lines(r.second); std::vector<std::string> w; for (auto &x : want) w.push_back(line(wt, x));
                    auto g = got; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
                    if (g != w) { std::string s = text + VP_STR("\nat " << start << "\n"); for (auto &x : got) s += "got  " + x + "\n"; for (auto &x : w) s += "want " + x + "\n"; for (auto &x : t.rows) s += "row  " + line(ty, x.row) + VP_STR(" [" << x.begin << ", " << x.end << ")\n"); c.fail("visible rows", s); }
                    break;
                }
                case 2: { // versions made by other means: rows which begin or end at some time
                    auto &store = D.table(t.t.name).store(); m::StoreWriter Wr(store); m::Tuple tup(Wr.schema()); auto &tab = D.table(t.t.name);
                    for (size_t q = 1 + c.draw(2); q; --q) {
                        R x; for (auto &col : t.t.cols) x.row.push_back(gen_val(c, col.ty, false));
                        x.begin = std::max<int64_t>(0, now + c.range(-3, 4)); x.end = c.coin() ? -1 : std::max<int64_t>(0, x.begin + c.range(0, 4));
                        size_t i = 0; for (auto it = tab.begin(); it != tab.end(); ++it, ++i) set_tuple(tup, it->id, t.t.cols[i].ty, x.row[i]);
                        tup.set(tab[C.pool("$ts_begin")].id, m::Value(x.begin)); tup.set(tab[C.pool("$ts_end")].id, m::Value(x.end));
                        Wr.append(tup); t.rows.push_back(x); c.log() << "version [" << x.begin << ", " << x.end << ")\n";
                    }
                    break;
                }
            }
            if (start >= 0 and not autoc) VP_REQUIRE(c, tx->start_time() == start, "start time", VP_STR(tx->start_time() << " instead of " << start));
            if (autoc) start = -1;
        }
        VP_REQUIRE(c, S.commit(std::move(tx)), "commit", "");
    }
    c.label_if(filtered, "invisible rows");
    c.nontrivial(seen and filtered);
}

}
