// C06: import of delimiter-separated files. A model renders rows as text; the import must give back exactly these rows.
#include "exec.hpp"
#include "backend/Interpreter.hpp"
#include "backend/StackMachine.hpp"
#include <mutable/io/Reader.hpp>
#include <fstream>
#include <unistd.h>

using namespace db;

namespace {

Ty gen_ty(Case &c) {
    switch (c.weighted({5, 3, 5, 3, 1, 2, 2, 2})) {
        case 0: return mk_int(c.oneof<unsigned>({32, 64, 16, 8}));
        case 1: return mk(BOOL);
        case 2: return mk_chr(1 + unsigned(c.size(30)), c.chance(1, 3));
        case 3: { unsigned p = 1 + unsigned(c.draw(17)); return mk_dec(p, unsigned(c.draw(std::min(p, 6u)))); }
        case 4: return mk(F32);
        case 5: return mk(F64);
        case 6: return mk(DATE);
        default: return mk(DT);
    }
}

struct Dialect { char delim = ',', quote = '"', esc = '\\'; };
Dialect gen_dialect(Case &c) {
    Dialect d;
    if (c.chance(1, 4)) { d.esc = c.coin() ? '"' : '\\'; return d; }
    d.delim = c.oneof<char>({',', ';', '|', '\t', ' ', ':', '#', char(0x1f), char(0xa7)});
    do d.quote = c.oneof<char>({'"', '\'', '`', '|', '$', char(0xff)}); while (d.quote == d.delim);
    if (c.chance(1, 3)) d.esc = d.quote;
    else do d.esc = c.oneof<char>({'\\', '/', '^', '\'', char(0xfe)}); while (d.esc == d.delim);
    return d;
}
std::string show_char(char ch) { return vp::quote(std::string(1, ch)); }

/// A string which a cell of type CHAR may hold.  With \p lines, it may contain newlines.
std::string gen_text(Case &c, const Dialect &d, size_t max, bool lines) {
    std::string s; const size_t n = c.coin() ? max : c.draw(max);
    for (size_t i = 0; i != n; ++i) {
        char ch;
        switch (c.weighted({6, 2, 1, 1, 1, 1, 1})) {
            case 0: ch = char('a' + c.draw(3)); break;
            case 1: ch = d.quote; break;
            case 2: ch = d.delim; break;
            case 3: ch = d.esc; break;
            case 4: ch = lines ? '\n' : ' '; break;
            case 5: ch = c.oneof<char>({'\r', ' ', '0', 'n', '\t', '-'}); break;
            default: ch = char(1 + c.draw(254)); break;
        }
        if (ch == '\n' and not lines) ch = '_';
        s += ch;
    }
    return s;
}
std::string quoted(Case &c, const Dialect &d, const std::string &s) {
    std::string t(1, d.quote);
    for (char ch : s) {
        if (ch == d.quote or (d.esc != d.quote and (ch == d.esc or c.chance(1, 12)))) t += d.esc;
        t += ch;
    }
    return t + d.quote;
}
V gen_v(Case &c, const Ty &t, const Dialect &d, bool lines) {
    switch (t.k) {
        case CHR: return V::S(gen_text(c, d, t.len, lines));
        case INT: return V::I(c.integer(t.bits));
        case DEC: return V::I(c.integer(62) % pow10(t.prec));
        case F64: return V::D(c.chance(1, 6) ? double(c.integer(64)) : c.chance(1, 6) ? 0.1 * double(c.integer(20)) : double(c.integer(30)) / 8);
        case F32: return V::D(float(double(c.integer(24)) / 8));
        default: return gen_val(c, t, true);
    }
}
std::string datetime(int64_t i) {
    int64_t days = i / 86400, s = i % 86400; if (s < 0) { s += 86400; --days; }
    time_t tt = time_t(days) * 86400; std::tm tm; gmtime_r(&tt, &tm); char b[64];
    snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, int(s / 3600), int(s / 60 % 60), int(s % 60));
    return b;
}
std::string date(int64_t i) { char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d", int(i >> 9), int(i >> 5 & 15), int(i & 31)); return b; }

/// The text of a cell.
std::string cell(Case &c, const Dialect &d, const Ty &t, const V &v) {
    if (v.null) return "";
    switch (t.k) {
        case BOOL: return v.i ? "TRUE" : "FALSE";
        case INT: case DEC: {
            std::string s = std::to_string(v.i); bool neg = s[0] == '-'; if (neg) s.erase(0, 1);
            if (t.k == DEC) {
                while (s.size() < size_t(t.scale) + 1) s = "0" + s;
                std::string pre = s.substr(0, s.size() - t.scale), post = s.substr(s.size() - t.scale);
                if (c.coin()) while (not post.empty() and post.back() == '0') post.pop_back();
                else if (c.chance(1, 4)) { while (post.size() < t.scale) post += '0'; post += std::to_string(c.draw(99)); } // further digits are cut off
                if (pre == "0" and not post.empty() and c.chance(1, 6)) pre = "";
                s = pre; if (not post.empty() or c.chance(1, 8)) s += '.' + post;
            } else if (c.chance(1, 10)) s = "00" + s;
            return (neg ? "-" : c.chance(1, 10) ? "+" : "") + s;
        }
        case F32: case F64: { char b[64]; snprintf(b, sizeof b, c.chance(1, 4) ? "%.17e" : "%.17g", v.d); return b; }
        case DATE: case DT: {
            std::string s = t.k == DATE ? date(v.i) : datetime(v.i);
            const bool need = t.k == DT and (d.delim == ' ' or d.delim == ':');
            return need or c.chance(1, 3) ? d.quote + s + d.quote : s;
        }
        default: {
            bool need = v.s.empty();
            for (char ch : v.s) need |= ch == d.quote or ch == d.delim or ch == '\n';
            return need or c.chance(1, 3) ? quoted(c, d, v.s) : v.s;
        }
    }
}

struct Cols { std::vector<Ty> tys; std::string name = "t"; };
Cols gen_cols(Case &c, Db &db) {
    Cols k; Table t; t.name = k.name;
    const size_t n = 1 + c.size(c.chance(1, 20) ? 40 : 6);
    for (size_t i = 0; i != n; ++i) { Col col; col.name = VP_STR("c" << i); col.ty = gen_ty(c); col.notnull = false; t.cols.push_back(col); k.tys.push_back(col.ty); }
    const char *l = LAYOUTS[c.draw(7)]; db.layout(l);
    c.log() << l << ": " << create_sql(t) << "\n";
    db.exec(c, create_sql(t));
    return k;
}
std::vector<Row> read_all(Case &c, Db &db, const Cols &k) {
    auto &table = db.table(k.name); auto &store = table.store();
    std::vector<Row> rows; if (not store.num_rows()) return rows;
    const m::Schema S = table.schema(); m::Tuple tup(S); m::Tuple *args[] = {&tup};
    VP_REQUIRE(c, S.num_entries() == k.tys.size(), "schema", "schema of " << S.num_entries() << " columns");
    auto R = m::Interpreter::compile_load(S, store.memory().addr(), table.layout(), S, 0);
    for (size_t r = 0; r != store.num_rows(); ++r) {
        R(args); rows.emplace_back();
        for (size_t i = 0; i != k.tys.size(); ++i) rows.back().push_back(get_tuple(tup, i, S[i].type));
    }
    return rows;
}
void compare(Case &c, const Cols &k, const std::vector<Row> &got, const std::vector<Row> &want, const std::string &ctx) {
    VP_REQUIRE(c, got.size() == want.size(), "row-count", got.size() << " rows instead of " << want.size() << "\n" << ctx << "got:\n" << show(k.tys, got) << "want:\n" << show(k.tys, want));
    for (size_t r = 0; r != got.size(); ++r)
        for (size_t i = 0; i != k.tys.size(); ++i) {
            const V &g = got[r][i], &w = want[r][i];
            const bool same = g.null == w.null and (g.null or cmp_val(k.tys[i], g, w) == 0);
            VP_REQUIRE(c, same, "value", "row " << r << ", column " << i << " (" << k.tys[i].sql() << "): " << vp::quote(show(k.tys[i], g)) << " instead of " << vp::quote(show(k.tys[i], w)) << "\n" << ctx);
        }
}

struct Config { Dialect d; bool header = false, skip = false; size_t limit = SIZE_MAX; };
std::string describe(const Config &f) {
    return VP_STR("delimiter " << show_char(f.d.delim) << " quote " << show_char(f.d.quote) << " escape " << show_char(f.d.esc) << (f.header ? " header" : "") << (f.skip ? " skip" : "") << " limit " << f.limit);
}
m::DSVReader::Config to_cfg(const Config &f) {
    m::DSVReader::Config g; g.delimiter = f.d.delim; g.quote = f.d.quote; g.escape = f.d.esc; g.has_header = f.header; g.skip_header = f.skip; g.num_rows = f.limit; return g;
}

/// A file: well-formed text and the rows it denotes.
struct File { Config f; std::string text; std::vector<Row> rows; size_t quoted = 0, nulls = 0, ignored = 0; bool permuted = false; };
File gen_file(Case &c, const Cols &k, const Config &f, size_t max_rows) {
    File F; F.f = f; const Dialect &d = f.d;
    std::vector<long> cols; // column of the table, or -1
    for (size_t i = 0; i != k.tys.size(); ++i) cols.push_back(long(i));
    if (f.header and not f.skip) {
        if (c.coin()) for (size_t i = cols.size(); i > 1; --i) { size_t j = c.draw(i - 1); if (j != i - 1) F.permuted = true; std::swap(cols[i - 1], cols[j]); }
        if (c.chance(1, 3) and cols.size() > 1) cols.resize(1 + c.draw(cols.size() - 1));
        if (c.chance(1, 3)) for (size_t n = 1 + c.draw(1); n; --n) { cols.insert(cols.begin() + long(c.draw(cols.size())), -1); ++F.ignored; }
        for (size_t i = 0; i != cols.size(); ++i) { if (i) F.text += d.delim; F.text += cols[i] < 0 ? VP_STR("ignored" << i) : VP_STR("c" << cols[i]); }
        F.text += '\n';
    } else if (f.skip) {
        for (size_t n = c.coin() ? 0 : c.draw(20); n; --n) F.text += c.oneof<char>({'a', ',', '"', '\'', d.delim, d.quote, d.esc, 'c', '0', char(0xff)});
        F.text += '\n';
    }
    const size_t n = c.size(max_rows); bool last_empty = false;
    for (size_t r = 0; r != n; ++r) {
        Row row(k.tys.size(), V::N()); std::string line;
        for (size_t i = 0; i != cols.size(); ++i) {
            if (i) line += d.delim;
            std::string s;
            if (cols[i] < 0) { std::string t = gen_text(c, d, 8, true); s = t.empty() ? "" : quoted(c, d, t); }
            else {
                const Ty &ty = k.tys[size_t(cols[i])]; V v = c.chance(1, 6) ? V::N() : gen_v(c, ty, d, true);
                s = cell(c, d, ty, v); row[size_t(cols[i])] = v; F.nulls += v.null;
            }
            F.quoted += not s.empty() and s[0] == d.quote;
            line += s;
        }
        F.text += line; last_empty = line.empty();
        if (r + 1 != n or last_empty or not c.chance(1, 3)) F.text += '\n';
        if (F.rows.size() < f.limit) F.rows.push_back(row);
    }
    return F;
}
Config gen_config(Case &c) {
    Config f; f.d = gen_dialect(c); f.header = c.chance(2, 5); f.skip = c.chance(1, 4);
    if (c.chance(1, 4)) f.limit = c.size(8);
    return f;
}

VP_PROP("C06", "wellformed", 4000, 60000) {
    Db db; const Cols k = gen_cols(c, db); std::vector<Row> want; bool nt = false;
    for (size_t rounds = 1 + c.draw(1); rounds; --rounds) {
        const Config f = gen_config(c); const File F = gen_file(c, k, f, c.chance(1, 12) ? 200 : 12);
        c.log() << describe(f) << "\n" << vp::quote(F.text) << "\n";
        for (auto &r : F.rows) want.push_back(r);
        Diag D; std::istringstream in(F.text);
        m::DSVReader R(db.table(k.name), to_cfg(f), D.diag); R(in, "in");
        const std::string ctx = describe(f) + "\n" + vp::quote(F.text) + "\n" + D.err.str();
        VP_REQUIRE(c, D.diag.num_errors() == 0, "error", "error on well-formed text\n" << ctx);
        compare(c, k, read_all(c, db, k), want, ctx);
        nt |= F.rows.size() >= 2 and (F.quoted or F.nulls or F.permuted);
        c.label_if(F.permuted, "permuted header"); c.label_if(F.ignored, "ignored columns"); c.label_if(F.quoted, "quoted cells"); c.label_if(f.limit != SIZE_MAX, "limit"); c.label_if(f.skip, "skipped header");
        c.label_if(f.d.esc == f.d.quote, "RFC 4180");
    }
    c.nontrivial(nt);
}

/// Text which is no value of the type.
std::string bad_cell(Case &c, const Dialect &d, const Ty &t) {
    auto pick = [&](std::vector<std::string> v) { return v[c.draw(v.size() - 1)]; };
    std::string s;
    switch (t.k) {
        case BOOL: s = pick({"true", "1", "x", "TRUEx", "FALS", "NULL"}); break;
        case INT: s = c.chance(1, 3) and t.bits < 64 ? std::to_string((c.coin() ? 1 : -1) * ((int64_t(1) << (t.bits - 1)) + 1 + int64_t(c.draw(1000)))) : pick({"x", "12x", "1.5", "-", "+", "99999999999999999999", "-9223372036854775809", "9223372036854775808", "0x10", "--1", "1e3"}); break;
        case DEC: s = pick({"x", "1x", "1.x", "1..2", "-", "99999999999999999999", "--1", "1e3"}); break;
        case F32: case F64: s = pick({"x", "1.5x", "1.5.5", "-", "e5"}); break;
        case DATE: s = pick({"x", "2020-13-01", "2020-00-01", "2020-02-30", "2020-04-31", "2020-1-1", "20-01-01", "0000-01-01", "2020-01", "2020-12-00"}); break;
        case DT: s = pick({"x", "2020-13-01 00:00:00", "2020-02-30 00:00:00", "2020-01-01 24:00:00", "2020-01-01 00:60:00", "2020-01-01", "2020-01-01 1:00:00", "0000-01-01 00:00:00"});
            if (d.delim == ' ' or d.delim == ':') s = d.quote + s + d.quote; break;
        default: s = pick({"a", "ab", "0"}) + d.quote + pick({"", "x"}); break;
    }
    return s;
}

VP_PROP("C06", "mixed", 4000, 60000) {
    Db db; const Cols k = gen_cols(c, db); Config f; f.d = gen_dialect(c); if (c.chance(1, 4)) f.limit = c.size(8);
    std::vector<Row> want; std::string text; size_t bad_lines = 0, lines = 0; bool tail_good = false;
    // rows there before
    { const File F = gen_file(c, k, gen_config(c), 4); Diag D; std::istringstream in(F.text);
      m::DSVReader R(db.table(k.name), to_cfg(F.f), D.diag); R(in, "in"); want = F.rows; }
    const size_t before = want.size();
    for (size_t n = c.size(16); n; --n) {
        Row row; std::vector<std::string> cells; bool bad = false;
        for (auto &t : k.tys) { V v = c.chance(1, 6) ? V::N() : gen_v(c, t, f.d, false); row.push_back(v); cells.push_back(cell(c, f.d, t, v)); }
        bool dropped = false;
        switch (c.weighted({4, 3, 2, 2})) {
            case 0: break;
            case 1: // a bad value or several
                for (size_t m = 1 + c.draw(1); m; --m) { const size_t i = c.draw(k.tys.size() - 1); cells[i] = bad_cell(c, f.d, k.tys[i]); row[i] = V::N(); }
                bad = true; break;
            case 2: // too few
                if (cells.size() > 1) { cells.resize(1 + c.draw(cells.size() - 2)); dropped = bad = true; } break;
            default: // too many
                for (size_t m = 1 + c.draw(1); m; --m) cells.push_back(c.coin() ? "1" : ""); dropped = bad = true;
        }
        std::string line; for (size_t i = 0; i != cells.size(); ++i) { if (i) line += f.d.delim; line += cells[i]; }
        const bool last = n == 1 and not line.empty() and c.coin();
        text += line; if (not last) text += '\n';
        if (want.size() - before >= f.limit) continue; // not read any more
        ++lines; bad_lines += bad;
        if (not dropped) want.push_back(row);
        if (not bad and bad_lines) tail_good = true;
    }
    c.log() << describe(f) << "\n" << vp::quote(text) << "\n";
    Diag D; std::istringstream in(text); m::DSVReader R(db.table(k.name), to_cfg(f), D.diag); R(in, "in");
    const std::string ctx = describe(f) + "\n" + vp::quote(text) + "\n" + D.err.str();
    VP_REQUIRE(c, bad_lines ? D.diag.num_errors() >= bad_lines : D.diag.num_errors() == 0, "errors", D.diag.num_errors() << " errors reported for " << bad_lines << " malformed lines\n" << ctx);
    compare(c, k, read_all(c, db, k), want, ctx);
    c.nontrivial(bad_lines and tail_good);
    c.label_if(bad_lines > 0, "malformed lines");
}

VP_PROP("C06", "garbage", 4000, 60000) {
    Db db; const Cols k = gen_cols(c, db);
    const File F0 = gen_file(c, k, gen_config(c), 4); { Diag D; std::istringstream in(F0.text); m::DSVReader R(db.table(k.name), to_cfg(F0.f), D.diag); R(in, "in"); }
    const Config f = gen_config(c); std::string text = gen_file(c, k, f, 8).text;
    auto byte = [&]() -> char { switch (c.draw(4)) { case 0: return f.d.delim; case 1: return f.d.quote; case 2: return f.d.esc; case 3: return c.oneof<char>({'\n', '0', '-', '.', 'T', 'e', '\0', char(0xff)}); default: return char(c.draw(255)); } };
    if (c.chance(1, 3)) { text.clear(); for (size_t n = c.size(200); n; --n) text += byte(); }
    else for (size_t n = 1 + c.draw(8); n and not text.empty(); --n) {
        const size_t i = c.draw(text.size() - 1);
        switch (c.draw(3)) {
            case 0: text.erase(i, 1); break;
            case 1: text.insert(i, 1, byte()); break;
            case 2: text[i] = byte(); break;
            default: text.insert(i, text.substr(c.draw(text.size() - 1), c.draw(40)));
        }
    }
    c.log() << describe(f) << "\n" << vp::quote(text) << "\n";
    Diag D; std::istringstream in(text); m::DSVReader R(db.table(k.name), to_cfg(f), D.diag); R(in, "in");
    const auto got = read_all(c, db, k); const size_t lines = size_t(std::count(text.begin(), text.end(), '\n')) + 1;
    VP_REQUIRE(c, got.size() >= F0.rows.size() and got.size() - F0.rows.size() <= std::min(lines, f.limit), "row-count", got.size() - F0.rows.size() << " rows from " << lines << " lines");
    compare(c, k, std::vector<Row>(got.begin(), got.begin() + long(F0.rows.size())), F0.rows, "existing rows changed\n");
    for (auto &r : got) for (size_t i = 0; i != k.tys.size(); ++i) if (not r[i].null and k.tys[i].k == CHR) VP_REQUIRE(c, r[i].s.size() <= k.tys[i].len, "length", "string of length " << r[i].s.size() << " in " << k.tys[i].sql());
    c.nontrivial(lines > 1 and (D.diag.num_errors() or got.size() > F0.rows.size()));
    c.label_if(D.diag.num_errors() > 0, "errors"); c.label_if(got.size() > F0.rows.size(), "rows imported");
}

struct Scratch {
    std::string dir;
    Scratch() { char t[] = "/tmp/vp-dsv-XXXXXX"; dir = mkdtemp(t); }
    ~Scratch() { unlink((dir + "/f.csv").c_str()); rmdir(dir.c_str()); }
};
std::string sql_char(char ch) { // as string literal
    return ch == '"' ? "\"\\\"\"" : ch == '\\' ? "\"\\\\\"" : std::string("\"") + ch + '"';
}
VP_PROP("C06", "statement", 1500, 20000) {
    Db db; const Cols k = gen_cols(c, db); std::vector<Row> want; Scratch dir; bool nt = false, missing = false;
    for (size_t rounds = 1 + c.draw(2); rounds; --rounds) {
        Config f = gen_config(c);
        if (f.d.delim == char(0x1f) or (unsigned char)f.d.delim > 127) f.d.delim = ';';
        if ((unsigned char)f.d.quote > 127) f.d.quote = '\'';
        if ((unsigned char)f.d.esc > 127) f.d.esc = '\\';
        if (f.d.delim == f.d.quote or f.d.delim == f.d.esc) f.d = Dialect();
        const bool csv = c.chance(1, 5); // m::load_from_CSV()
        if (csv) f.d = {',', '"', '"'};
        const File F = gen_file(c, k, f, 10);
        const bool absent = c.chance(1, 8);
        { std::ofstream o(dir.dir + "/f.csv"); o << F.text; }
        std::string path = dir.dir + (absent ? "/none.csv" : "/f.csv");
        Diag D; std::string ctx;
        if (csv) {
            ctx = "load_from_CSV " + describe(f);
            c.log() << ctx << "\n" << vp::quote(F.text) << "\n";
            try { m::load_from_CSV(D.diag, db.table(k.name), path, f.limit, f.header, f.skip); } catch (m::runtime_error&) { D.err << "exception"; }
        } else {
            std::string sql = "IMPORT INTO t DSV \"" + path + "\"";
            if (f.limit != SIZE_MAX) sql += VP_STR(" ROWS " << f.limit);
            if (f.d.delim != ',' or c.coin()) sql += " DELIMITER " + sql_char(f.d.delim);
            if (f.d.esc != '\\' or c.coin()) sql += " ESCAPE " + sql_char(f.d.esc);
            if (f.d.quote != '"' or c.coin()) sql += " QUOTE " + sql_char(f.d.quote);
            if (f.header) sql += " HAS HEADER";
            if (f.skip) sql += " SKIP HEADER";
            sql += ';'; ctx = sql;
            c.log() << sql << "\n" << vp::quote(F.text) << "\n";
            if (c.coin()) { // by the scheduler
                std::istringstream in(sql); m::process_stream(in, "in", D.diag);
            } else {
                std::unique_ptr<m::ast::Stmt> stmt;
                try { stmt = m::statement_from_string(D.diag, sql); } catch (m::frontend_exception &) { c.fail("rejected", "statement rejected: " + sql + "\n" + D.err.str()); }
                m::execute_statement(D.diag, *stmt, false);
            }
        }
        // m::process_stream() takes the diagnostic by value, hence look at what was written
        ctx += "\n" + vp::quote(F.text) + "\n" + D.err.str();
        if (absent) { missing = true; VP_REQUIRE(c, not D.err.str().empty(), "missing-file", "no error for a missing file\n" << ctx); }
        else { VP_REQUIRE(c, D.err.str().empty(), "error", "error on well-formed text\n" << ctx); for (auto &r : F.rows) want.push_back(r); nt |= F.rows.size() > 1; }
        compare(c, k, read_all(c, db, k), want, ctx);
    }
    c.nontrivial(nt); c.label_if(missing, "missing file");
}

}
