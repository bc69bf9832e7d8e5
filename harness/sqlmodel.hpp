// Random schemas, rows and queries, with a direct reference evaluator of the SQL subset described in semantics.md.
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace sql {

using vp::Case;

/*----- Types ----------------------------------------------------------------------------------------------------------*/
enum TK { INT, F32, F64, DEC, CHR, BOOL, DATE, DT, NONE };

struct Ty {
    TK k = INT;
    unsigned bits = 32;    ///< of INT
    unsigned prec = 10;    ///< decimal digits of DEC
    unsigned scale = 0;    ///< of DEC
    unsigned len = 0;      ///< of CHR
    bool varying = false;

    bool num() const { return k <= DEC; }
    bool fp() const { return k == F32 or k == F64; }
    bool operator==(const Ty &o) const {
        if (k != o.k) return false;
        switch (k) {
            case INT: return bits == o.bits;
            case DEC: return prec == o.prec and scale == o.scale;
            case CHR: return len == o.len and varying == o.varying;
            default: return true;
        }
    }
    std::string sql() const {
        switch (k) {
            case INT: return VP_STR("INT(" << bits / 8 << ")");
            case F32: return "FLOAT";
            case F64: return "DOUBLE";
            case DEC: return scale ? VP_STR("DECIMAL(" << prec << ", " << scale << ")") : VP_STR("DECIMAL(" << prec << ")");
            case CHR: return VP_STR((varying ? "VARCHAR(" : "CHAR(") << len << ")");
            case BOOL: return "BOOL";
            case DATE: return "DATE";
            case DT: return "DATETIME";
            case NONE: return "NONE";
        }
        return "?";
    }
};

inline Ty mk_int(unsigned bits) { Ty t; t.k = INT; t.bits = bits; return t; }
inline Ty mk(TK k) { Ty t; t.k = k; return t; }
inline Ty mk_dec(unsigned p, unsigned s) { Ty t; t.k = DEC; t.prec = p; t.scale = s; return t; }
inline Ty mk_chr(unsigned len, bool varying = false) { Ty t; t.k = CHR; t.len = len; t.varying = varying; return t; }

/*----- Values ---------------------------------------------------------------------------------------------------------*/
struct V {
    bool null = true;
    int64_t i = 0;   ///< INT, DEC (scaled), BOOL, DATE, DT
    double d = 0;    ///< F32, F64
    std::string s;   ///< CHR
    static V I(int64_t i) { V v; v.null = false; v.i = i; return v; }
    static V D(double d) { V v; v.null = false; v.d = d; return v; }
    static V S(std::string s) { V v; v.null = false; v.s = std::move(s); return v; }
    static V B(bool b) { return I(b); }
    static V N() { return V{}; }
};

using Row = std::vector<V>;

inline int cmp_val(const Ty &t, const V &a, const V &b) { // of non-NULLs of one type
    if (t.fp()) return a.d < b.d ? -1 : a.d > b.d;
    if (t.k == CHR) { int r = strcmp(a.s.c_str(), b.s.c_str()); return r < 0 ? -1 : r > 0; }
    return a.i < b.i ? -1 : a.i > b.i;
}
/// Total order with NULLs first.
inline int cmp_null(const Ty &t, const V &a, const V &b) {
    if (a.null or b.null) return int(b.null) - int(a.null);
    return cmp_val(t, a, b);
}

/*----- Dates ----------------------------------------------------------------------------------------------------------*/
inline int64_t date_enc(int y, unsigned m, unsigned d) { return (int64_t(y) << 9) | (m << 5) | d; }
inline int64_t days_from_civil(int y, unsigned m, unsigned d) {
    y -= m <= 2;
    const int era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = unsigned(y - era * 400);
    const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return int64_t(era) * 146097 + int64_t(doe) - 719468;
}
inline void civil_from_days(int64_t z, int &y, unsigned &m, unsigned &d) {
    z += 719468;
    const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    const unsigned doe = unsigned(z - era * 146097);
    const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    const int64_t yy = int64_t(yoe) + era * 400;
    const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    const unsigned mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1;
    m = mp + (mp < 10 ? 3 : -9);
    y = int(yy + (m <= 2));
}
inline std::string date_str(int64_t enc) {
    char b[32]; snprintf(b, sizeof b, "%04d-%02d-%02d", int(enc >> 9), int((enc >> 5) & 15), int(enc & 31)); return b;
}
inline std::string dt_str(int64_t secs) {
    int64_t days = secs >= 0 ? secs / 86400 : -((-secs + 86399) / 86400);
    int64_t rem = secs - days * 86400; int y; unsigned m, d; civil_from_days(days, y, m, d);
    char b[48]; snprintf(b, sizeof b, "%04d-%02u-%02u %02d:%02d:%02d", y, m, d, int(rem / 3600), int(rem / 60 % 60), int(rem % 60));
    return b;
}
inline unsigned days_in_month(int y, unsigned m) {
    static const unsigned n[] = {31,28,31,30,31,30,31,31,30,31,30,31};
    return m == 2 and ((y % 4 == 0 and y % 100 != 0) or y % 400 == 0) ? 29 : n[m - 1];
}

inline int64_t pow10(unsigned n) { int64_t r = 1; while (n--) r *= 10; return r; }

inline std::string str_lit(const std::string &s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' or c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else r += c; }
    return r + '"';
}
inline std::string fp_lit(double d) { // our floats are dyadic with few bits
    char b[64]; snprintf(b, sizeof b, "%.8f", d < 0 ? -d : d);
    std::string s = b; while (s.back() == '0' and s[s.size() - 2] != '.') s.pop_back();
    return d < 0 ? "-" + s : s;
}
inline std::string lit(const Ty &t, const V &v) {
    if (v.null) return "NULL";
    switch (t.k) {
        case INT: return std::to_string(v.i);
        case F32: case F64: return fp_lit(v.d);
        case DEC: { const bool neg = v.i < 0; uint64_t a = neg ? 0 - uint64_t(v.i) : v.i; int64_t f = pow10(t.scale);
            std::string frac = std::to_string(a % f); frac.insert(0, t.scale - std::min<size_t>(t.scale, frac.size()), '0');
            return std::string(neg ? "-" : "") + std::to_string(a / f) + (t.scale ? "." + frac : ""); }
        case CHR: return str_lit(v.s);
        case BOOL: return v.i ? "TRUE" : "FALSE";
        case DATE: return "d'" + date_str(v.i) + "'";
        case DT: return "d'" + dt_str(v.i) + "'";
        case NONE: return "NULL";
    }
    return "?";
}
inline std::string show(const Ty &t, const V &v) { return lit(t, v); }

/*----- Tables ---------------------------------------------------------------------------------------------------------*/
struct Col { std::string name; Ty ty; bool notnull = false; bool wide = false; ///< whether the values are not small
    bool unique = false; };
struct Table { std::string name; std::vector<Col> cols; std::vector<Row> rows; };

inline std::string create_sql(const Table &t) {
    std::ostringstream os; os << "CREATE TABLE " << t.name << " (";
    for (size_t i = 0; i != t.cols.size(); ++i)
        os << (i ? ", " : " ") << t.cols[i].name << ' ' << t.cols[i].ty.sql() << (t.cols[i].notnull ? " NOT NULL" : "");
    os << " );";
    return os.str();
}

inline Ty gen_type(Case &c) {
    switch (c.weighted({6, 2, 2, 2, 4, 2, 1, 1})) {
        case 0: return mk_int(c.oneof<unsigned>({32, 64, 16, 8}));
        case 1: return mk(F64);
        case 2: return mk(F32);
        case 3: return mk_dec(10 + c.draw(3), c.oneof<unsigned>({2, 3, 0, 1}));
        case 4: { unsigned len = 1 + c.draw(6); bool v = c.chance(1, 3); return mk_chr(len, v); }
        case 5: return mk(BOOL);
        case 6: return mk(DATE);
        default: return mk(DT);
    }
}

inline std::string gen_str(Case &c, size_t max) {
    std::string s; size_t n = c.draw(max);
    static const char alpha[] = "abcAB %_\\\"x";
    for (size_t i = 0; i != n; ++i) s += c.chance(1, 12) ? alpha[c.draw(10)] : "abA"[c.draw(2)];
    return s;
}

inline V gen_val(Case &c, const Ty &t, bool wide) {
    switch (t.k) {
        case INT: return V::I(wide ? std::max(c.integer(t.bits), INT64_MIN + 1) /* there is no literal for INT64_MIN */ : c.coin() ? c.range(-9, 9) : c.range(0, 4));
        case F32: case F64: return V::D(double(c.range(-24, 24)) / 4);
        case DEC: { // multiples of 1/4 where the scale allows for it
            if (t.scale >= 2) return V::I(c.range(-24, 24) * (pow10(t.scale) / 4));
            return V::I(c.range(-9, 9) * pow10(t.scale)); }
        case CHR: return V::S(gen_str(c, t.len));
        case BOOL: return V::B(c.coin());
        case DATE: { int y = c.coin() ? 2000 + int(c.draw(2)) : 1 + int(c.draw(9998)); unsigned m = 1 + c.draw(11);
            return V::I(date_enc(y, m, 1 + c.draw(days_in_month(y, m) - 1))); }
        case DT: { int y = c.coin() ? 2000 + int(c.draw(2)) : 1000 + int(c.draw(8999)); unsigned m = 1 + c.draw(11); unsigned d = 1 + c.draw(days_in_month(y, m) - 1);
            return V::I(days_from_civil(y, m, d) * 86400 + int64_t(c.draw(86399))); }
        case NONE: return V::N();
    }
    return V::N();
}

inline Table gen_table(Case &c, const std::string &name, size_t max_rows, size_t max_cols) {
    Table t; t.name = name;
    const size_t n = 1 + c.draw(max_cols - 1);
    for (size_t i = 0; i != n; ++i) {
        Col col; col.name = std::string(1, char('a' + i)); col.ty = gen_type(c);
        col.notnull = c.chance(1, 3);
        col.wide = col.ty.k == INT and c.chance(1, 5);
        t.cols.push_back(col);
    }
    const size_t rows = c.size(max_rows);
    for (size_t r = 0; r != rows; ++r) {
        Row row;
        for (auto &col : t.cols)
            row.push_back(not col.notnull and c.chance(1, 5) ? V::N() : gen_val(c, col.ty, col.wide));
        t.rows.push_back(std::move(row));
    }
    return t;
}

/*----- Expressions ----------------------------------------------------------------------------------------------------*/
enum EK { COL, CONST, NEG, POS, BITNOT, NOT, BIN, ISNULL, TOINT, AGG, REF /* to a grouping key, by name */, SUBQ /* nested query with a single result */ };
enum OP { ADD, SUB, MUL, DIV, MOD, CAT, LT, LE, GT, GE, EQ, NE, LIKE, AND, OR };
enum AGGFN { COUNT_STAR, COUNT, SUM, AVG, MIN, MAX };
inline const char *op_str(OP o) {
    static const char *s[] = {"+", "-", "*", "/", "%", "..", "<", "<=", ">", ">=", "=", "!=", "LIKE", "AND", "OR"};
    return s[o];
}

struct E;
struct Query;
using EP = std::shared_ptr<E>;
struct E {
    EK k = CONST; Ty ty; V cv; OP op = ADD; AGGFN agg = COUNT_STAR;
    size_t src = 0, col = 0; std::string text_name; ///< of COL
    std::shared_ptr<Query> sub; size_t sub_id = 0; ///< of SUBQ
    std::vector<EP> ch;
    double maxabs = 0; ///< bound on the numeric value
    int frac = 0;      ///< number of fractional bits of floating-point values
    bool wide = false;

    bool has_agg() const { if (k == AGG) return true; for (auto &x : ch) if (x->has_agg()) return true; return false; }
    bool has_sub() const { if (k == SUBQ) return true; for (auto &x : ch) if (x->has_sub()) return true; return false; }
    bool has_col() const { if (k == COL or k == AGG or k == REF or k == SUBQ) return true; for (auto &x : ch) if (x->has_col()) return true; return false; }
};

inline std::string str(const Query &q);
inline V eval_scalar(const Query &q);
inline std::string str(const E &e) {
    switch (e.k) {
        case SUBQ: return "(" + str(*e.sub) + ")";
        case COL: case REF: return e.text_name;
        case CONST: { auto s = lit(e.ty, e.cv); return s[0] == '-' ? "(" + s + ")" : s; }
        case NEG: return "(- " + str(*e.ch[0]) + ")";
        case POS: return "(+ " + str(*e.ch[0]) + ")";
        case BITNOT: return "(~ " + str(*e.ch[0]) + ")";
        case NOT: return "(NOT " + str(*e.ch[0]) + ")";
        case ISNULL: return "ISNULL(" + str(*e.ch[0]) + ")";
        case TOINT: return "INT(" + str(*e.ch[0]) + ")";
        case BIN: return "(" + str(*e.ch[0]) + " " + op_str(e.op) + " " + str(*e.ch[1]) + ")";
        case AGG: {
            if (e.agg == COUNT_STAR) return "COUNT()";
            static const char *n[] = {"COUNT", "COUNT", "SUM", "AVG", "MIN", "MAX"};
            return std::string(n[e.agg]) + "(" + str(*e.ch[0]) + ")";
        }
    }
    return "?";
}

inline bool same(const E &a, const E &b) { return str(a) == str(b); }

/// Common type of two numeric operands.
inline Ty join(const Ty &a, const Ty &b) {
    static const double L = 3.321928094887362;
    auto prec = [](const Ty &t) -> unsigned { return t.k == INT ? t.bits : t.k == F32 ? 32 : t.k == F64 ? 64 : unsigned(std::ceil(L * t.prec)); };
    const unsigned p = std::max(prec(a), prec(b));
    if (a.k == DEC or b.k == DEC)
        return mk_dec(unsigned(p / L), std::max(a.k == DEC ? a.scale : 0, b.k == DEC ? b.scale : 0));
    if (a.fp() or b.fp()) return p == 32 ? mk(F32) : mk(F64);
    return mk_int(p);
}

inline bool like(const char *s, const char *p) {
    const size_t n = std::strlen(s);
    std::vector<char> at(n + 1, 0), next; at[0] = 1; // the suffixes of the text which are left to match
    for (; *p; ++p) {
        next.assign(n + 1, 0);
        if (*p == '%') { bool any = false; for (size_t i = 0; i <= n; ++i) next[i] = any |= bool(at[i]); }
        else {
            const bool one = *p == '_'; if (*p == '\\' and p[1]) ++p;
            for (size_t i = 0; i != n; ++i) next[i + 1] = at[i] and (one or s[i] == *p);
        }
        at.swap(next);
    }
    return at[n];
}

/// Converts a numeric value to the common type \p to.
inline V conv(const Ty &from, const Ty &to, const V &v) {
    if (v.null) return v;
    if (from.k == to.k and from.scale == to.scale) return v;
    if (to.fp()) { if (from.fp()) return v; return V::D(double(v.i) / (from.k == DEC ? pow10(from.scale) : 1)); }
    if (to.k == DEC) {
        if (from.fp()) return V::I(int64_t(v.d * double(pow10(to.scale))));
        const unsigned fs = from.k == DEC ? from.scale : 0;
        return V::I(v.i * pow10(to.scale - fs));
    }
    return v; // INT -> INT
}

struct Env { const Row *row = nullptr; const std::vector<size_t> *offs = nullptr; ///< offsets of the sources within the row
    const std::vector<const Row*> *group = nullptr; };

inline V eval(const E &e, const Env &env);

inline V eval_agg(const E &e, const Env &env) {
    const auto &rows = *env.group;
    if (e.agg == COUNT_STAR) return V::I(int64_t(rows.size()));
    const Ty &at = e.ch[0]->ty;
    int64_t n = 0; V acc; double sum = 0;
    for (auto *r : rows) {
        Env in{r, env.offs, nullptr};
        V v = eval(*e.ch[0], in);
        if (v.null) continue;
        ++n;
        switch (e.agg) {
            case SUM: if (at.fp()) acc = V::D(acc.d + v.d); else acc = V::I(acc.i + v.i); break;
            case AVG: sum += at.fp() ? v.d : double(v.i) / (at.k == DEC ? double(pow10(at.scale)) : 1.); break;
            case MIN: if (acc.null or cmp_val(at, v, acc) < 0) acc = v; break;
            case MAX: if (acc.null or cmp_val(at, v, acc) > 0) acc = v; break;
            default: break;
        }
    }
    if (e.agg == COUNT) return V::I(n);
    if (e.agg == AVG) return n ? V::D(sum / double(n)) : V::N();
    return acc;
}

inline V eval(const E &e, const Env &env) {
    switch (e.k) {
        case CONST: return e.cv;
        case SUBQ: return eval_scalar(*e.sub);
        case COL: return (*env.row)[(*env.offs)[e.src] + e.col];
        case AGG: return eval_agg(e, env);
        case POS: case REF: return eval(*e.ch[0], env);
        case NEG: { V v = eval(*e.ch[0], env); if (not v.null) { v.i = -v.i; v.d = -v.d; } return v; }
        case BITNOT: { V v = eval(*e.ch[0], env); if (not v.null) v.i = ~v.i; return v; }
        case NOT: { V v = eval(*e.ch[0], env); if (not v.null) v.i = not v.i; return v; }
        case ISNULL: return V::B(eval(*e.ch[0], env).null);
        case TOINT: { V v = eval(*e.ch[0], env); if (not v.null and e.ch[0]->ty.fp()) v = V::I(int64_t(v.d)); return v; }
        case BIN: break;
    }
    V a = eval(*e.ch[0], env), b = eval(*e.ch[1], env);
    const Ty &ta = e.ch[0]->ty, &tb = e.ch[1]->ty;
    switch (e.op) {
        case AND: if ((not a.null and not a.i) or (not b.null and not b.i)) return V::B(false); if (a.null or b.null) return V::N(); return V::B(true);
        case OR: if ((not a.null and a.i) or (not b.null and b.i)) return V::B(true); if (a.null or b.null) return V::N(); return V::B(false);
        case CAT: // an absent operand contributes nothing
            if (a.null) return b; if (b.null) return a; return V::S(a.s + b.s);
        default: break;
    }
    if (a.null or b.null) return V::N();
    switch (e.op) {
        case ADD: case SUB: {
            V x = conv(ta, e.ty, a), y = conv(tb, e.ty, b);
            if (e.ty.fp()) return V::D(e.op == ADD ? x.d + y.d : x.d - y.d);
            return V::I(e.op == ADD ? x.i + y.i : x.i - y.i);
        }
        case MUL: {
            if (e.ty.fp()) { V x = conv(ta, e.ty, a), y = conv(tb, e.ty, b); return V::D(x.d * y.d); }
            if (e.ty.k == DEC) {
                unsigned sa = ta.k == DEC ? ta.scale : 0, sb = tb.k == DEC ? tb.scale : 0;
                int64_t x = a.i, y = b.i;
                if (ta.fp()) { x = conv(ta, e.ty, a).i; sa = e.ty.scale; }
                if (tb.fp()) { y = conv(tb, e.ty, b).i; sb = e.ty.scale; }
                return V::I(x * y / pow10(sa + sb - e.ty.scale));
            }
            return V::I(a.i * b.i);
        }
        case DIV: {
            if (e.ty.fp()) { V x = conv(ta, e.ty, a), y = conv(tb, e.ty, b); return V::D(x.d / y.d); }
            if (e.ty.k == DEC) {
                const int sa = ta.k == DEC ? ta.scale : 0, sb = tb.k == DEC ? tb.scale : 0;
                const int delta = int(e.ty.scale) - (sa - sb); // number of digits to shift the dividend by
                return V::I(a.i * pow10(delta) / b.i);
            }
            return V::I(a.i / b.i);
        }
        case MOD: return V::I(a.i % b.i);
        case LIKE: return V::B(like(a.s.c_str(), b.s.c_str()));
        default: break;
    }
    Ty t = ta.num() ? join(ta, tb) : ta;
    const int r = cmp_val(t, ta.num() ? conv(ta, t, a) : a, ta.num() ? conv(tb, t, b) : b);
    switch (e.op) {
        case LT: return V::B(r < 0); case LE: return V::B(r <= 0); case GT: return V::B(r > 0); case GE: return V::B(r >= 0);
        case EQ: return V::B(r == 0); case NE: return V::B(r != 0); default: break;
    }
    return V::N();
}

/*----- Scopes and generation of expressions ---------------------------------------------------------------------------*/
struct ScopeCol { size_t src, col; std::string text, name; Ty ty; bool wide; double maxabs; int frac; };
struct Scope { std::vector<ScopeCol> cols; };

inline EP mk_col(const ScopeCol &s) {
    auto e = std::make_shared<E>(); e->k = COL; e->src = s.src; e->col = s.col; e->text_name = s.text; e->ty = s.ty; e->wide = s.wide;
    e->maxabs = s.maxabs; e->frac = s.frac; return e;
}
inline EP mk_const(const Ty &t, V v) {
    auto e = std::make_shared<E>(); e->k = CONST; e->ty = t; e->cv = std::move(v);
    if (t.fp()) { e->maxabs = std::fabs(e->cv.d); e->frac = 2; } else { e->maxabs = std::fabs(double(e->cv.i)); e->frac = 0; }
    return e;
}
inline EP mk_un(EK k, EP x, Ty t) { auto e = std::make_shared<E>(); e->k = k; e->ty = t; e->maxabs = x->maxabs + 1; e->frac = x->frac; e->wide = x->wide; e->ch = {x}; return e; }
inline EP mk_bin(OP op, EP a, EP b, Ty t) { auto e = std::make_shared<E>(); e->k = BIN; e->op = op; e->ty = t; e->ch = {a, b}; return e; }

struct GenE {
    Case &c; const Scope &sc;
    std::function<EP()> scalar = nullptr; ///< generates a nested query
    /// Leaf candidates besides columns (e.g. grouping keys and aggregates after grouping).
    std::vector<EP> extra;
    bool cols_allowed = true;

    EP leaf(std::function<bool(const Ty&, bool)> ok) {
        if (scalar and c.chance(1, 10)) if (auto e = scalar(); ok(e->ty, e->wide)) return e;
        std::vector<EP> cand;
        for (auto &x : extra) if (ok(x->ty, x->wide)) cand.push_back(x);
        if (cols_allowed) for (auto &s : sc.cols) if (ok(s.ty, s.wide)) cand.push_back(mk_col(s));
        if (cand.empty()) return nullptr;
        return c.pick(cand);
    }
    /// Integers whose values are small.
    EP const_int() { return mk_const(mk_int(32), V::I(c.range(0, 9))); }
    EP const_fp() { return mk_const(mk(F64), V::D(double(c.range(0, 40)) / 4)); }

    EP num(unsigned depth) {
        if (depth == 0 or c.chance(1, 3)) {
            if (c.chance(3, 4)) if (auto l = leaf([](const Ty &t, bool wide) { return t.num() and not wide; })) return l;
            return c.chance(1, 4) ? const_fp() : const_int();
        }
        for (unsigned attempt = 0; attempt != 3; ++attempt) {
            EP e;
            switch (c.weighted({4, 3, 3, 1, 1, 1, 1})) {
                case 0: e = arith(ADD, num(depth - 1), num(depth - 1)); break;
                case 1: e = arith(SUB, num(depth - 1), num(depth - 1)); break;
                case 2: e = arith(MUL, num(depth - 1), num(depth - 1)); break;
                case 3: e = arith(DIV, num(depth - 1), nullptr); break;
                case 4: e = arith(MOD, num(depth - 1), nullptr); break;
                case 5: { auto x = num(depth - 1); e = mk_un(c.coin() ? NEG : POS, x, x->ty); break; }
                case 6: { auto x = num(depth - 1); if (x->ty.k == INT) e = mk_un(BITNOT, x, x->ty); break; }
            }
            if (e) return e;
        }
        return const_int();
    }

    EP arith(OP op, EP a, EP b) {
        if (op == DIV) {
            if (a->ty.fp()) { b = mk_const(mk(F64), V::D(c.oneof<double>({2., 1., 4., .5}))); }
            else if (a->ty.k == DEC and c.coin()) b = mk_const(mk_int(32), V::I(1 + c.draw(8)));
            else if (a->ty.k == DEC) b = mk_const(mk_int(32), V::I(1 + c.draw(8)));
            else b = mk_const(mk_int(32), V::I(1 + c.draw(8)));
        } else if (op == MOD) {
            if (a->ty.k != INT) return nullptr;
            b = mk_const(mk_int(32), V::I(1 + c.draw(8)));
        }
        const Ty &ta = a->ty, &tb = b->ty;
        const Ty t = join(ta, tb);
        auto e = mk_bin(op, a, b, t);
        // decimals are only mixed with floats which they represent exactly
        if (t.k == DEC and (ta.fp() or tb.fp())) {
            if (op == DIV) return nullptr;
            if (t.scale < 2 or (ta.fp() and a->frac > 2) or (tb.fp() and b->frac > 2)) return nullptr;
        }
        if (op == ADD or op == SUB) { e->maxabs = value_bound(*a) + value_bound(*b); e->frac = std::max(a->frac, b->frac); }
        else if (op == MUL) { e->maxabs = value_bound(*a) * value_bound(*b); e->frac = a->frac + b->frac; }
        else if (op == DIV) { e->maxabs = value_bound(*a) * (t.fp() ? 2 : 1); e->frac = a->frac + 2; }
        else { e->maxabs = 16; e->frac = 0; }
        if (t.k == DEC) e->maxabs *= double(pow10(t.scale));
        if (t.fp()) { if (std::log2(e->maxabs + 1) + e->frac > 22) return nullptr; }
        else if (t.k == DEC) { e->frac = 2; if (e->maxabs > 1e12) return nullptr; }
        else { e->frac = 0; if (e->maxabs > (t.bits == 64 ? 1e12 : 1e9)) return nullptr; }
        return e;
    }
    static double value_bound(const E &e) { return e.ty.k == DEC ? e.maxabs / double(pow10(e.ty.scale)) : e.maxabs; }

    EP string(unsigned depth) {
        if (depth and c.chance(1, 6)) { auto a = string(depth - 1), b = string(depth - 1); auto e = mk_bin(CAT, a, b, mk_chr(a->ty.len + b->ty.len)); return e; }
        if (c.chance(2, 3)) if (auto l = leaf([](const Ty &t, bool) { return t.k == CHR; })) return l;
        auto s = gen_str(c, 4);
        return mk_const(mk_chr(unsigned(s.size())), V::S(s));
    }

    EP comparison(unsigned depth) {
        const OP op = c.oneof<OP>({EQ, LT, LE, GT, GE, NE});
        switch (c.weighted({6, 2, 3, 1, 1, 1, 1})) {
            case 0: {
                auto a = num(depth ? depth - 1 : 0), b = num(depth ? depth - 1 : 0);
                const Ty t = join(a->ty, b->ty);
                if (t.k == DEC) { // scaled up to a common scale
                    if ((a->ty.fp() and (t.scale < 2 or a->frac > 2)) or (b->ty.fp() and (t.scale < 2 or b->frac > 2))) return mk_bin(op, const_int(), const_int(), mk(BOOL));
                }
                return mk_bin(op, a, b, mk(BOOL));
            }
            case 1: { // wide integers
                auto a = leaf([](const Ty &t, bool) { return t.k == INT; }), b = leaf([](const Ty &t, bool) { return t.k == INT; });
                if (not a) a = const_int(); if (not b or c.coin()) b = const_int();
                return mk_bin(op, a, b, mk(BOOL));
            }
            case 2: { auto a = string(depth ? 1 : 0), b = string(0); return mk_bin(op, a, b, mk(BOOL)); }
            case 3: { auto a = string(0); EP b;
                if (c.chance(3, 4)) { std::string p; for (size_t n = c.draw(4); n; --n) p += "ab%_A"[c.draw(4)]; b = mk_const(mk_chr(unsigned(p.size())), V::S(p)); }
                else { b = leaf([](const Ty &t, bool) { return t.k == CHR; }); }
                if (not b or b->k != CONST) b = mk_const(mk_chr(2), V::S("a%"));
                return mk_bin(LIKE, a, b, mk(BOOL)); }
            case 4: case 5: {
                const TK k = c.coin() ? DATE : DT;
                auto a = leaf([k](const Ty &t, bool) { return t.k == k; }), b = leaf([k](const Ty &t, bool) { return t.k == k; });
                if (not a) a = mk_const(mk(k), gen_val(c, mk(k), false)); if (not b or c.coin()) b = mk_const(mk(k), gen_val(c, mk(k), false));
                return mk_bin(op, a, b, mk(BOOL));
            }
            default: { auto a = boolean(depth ? depth - 1 : 0), b = boolean(0); return mk_bin(c.coin() ? NE : EQ, a, b, mk(BOOL)); }
        }
    }

    EP boolean(unsigned depth) {
        if (depth == 0) {
            if (c.coin()) if (auto l = leaf([](const Ty &t, bool) { return t.k == BOOL; })) return l;
            if (c.chance(1, 8)) return mk_const(mk(BOOL), V::B(c.coin()));
            auto l = leaf([](const Ty &t, bool) { return t.num(); });
            if (not l or c.chance(1, 3)) { auto s = leaf([](const Ty &t, bool) { return t.k == CHR; }); if (s) return mk_bin(c.oneof<OP>({EQ, NE, LT, GE}), s, mk_const(mk_chr(1), V::S("a")), mk(BOOL)); }
            if (not l) return mk_const(mk(BOOL), V::B(c.coin()));
            if (l->ty.k == DEC or l->ty.k == INT or l->ty.fp()) return mk_bin(c.oneof<OP>({LT, EQ, GE, NE, GT, LE}), l, const_int(), mk(BOOL));
            return mk_const(mk(BOOL), V::B(c.coin()));
        }
        switch (c.weighted({6, 3, 3, 2, 2, 1})) {
            case 0: return comparison(depth - 1);
            case 1: return mk_bin(AND, boolean(depth - 1), boolean(depth - 1), mk(BOOL));
            case 2: return mk_bin(OR, boolean(depth - 1), boolean(depth - 1), mk(BOOL));
            case 3: return mk_un(NOT, boolean(depth - 1), mk(BOOL));
            case 4: { auto x = any(depth - 1); if (not x->has_col()) return boolean(0); return mk_un(ISNULL, x, mk(BOOL)); }
            default: return boolean(0);
        }
    }

    EP any(unsigned depth) {
        switch (c.weighted({4, 2, 2, 1, 1})) {
            case 0: return num(depth);
            case 1: return string(depth);
            case 2: return boolean(depth);
            case 3: if (auto l = leaf([](const Ty &t, bool) { return t.k == DATE or t.k == DT; })) return l; return num(depth);
            default: if (auto l = leaf([](const Ty&, bool) { return true; })) return l; return num(depth);
        }
    }
};

/*----- Queries --------------------------------------------------------------------------------------------------------*/
struct Source { std::string alias; const Table *table = nullptr; bool aliased = false; std::shared_ptr<Query> sub; };
struct Item { EP e; std::string alias; };
struct Order { size_t item; bool asc; EP e; }; ///< an item, or an expression which is not selected
struct Query {
    std::vector<Source> from;
    bool star = false;
    std::vector<Item> items;
    EP where;
    std::vector<EP> group_by;
    std::vector<std::string> group_alias; ///< of each grouping key, may be empty
    bool grouped = false; ///< GROUP BY, or aggregates without
    EP having;
    std::vector<Order> order_by;
    std::optional<size_t> limit, offset;
    bool order_by_alias = false;
    bool limit_in_subquery = false;
    double est = 1; ///< product of the sizes of all tables below: hash tables are allocated by this estimate

    /// The columns of the result.
    struct OutCol { std::string name; Ty ty; bool wide; double maxabs; int frac; bool approx; bool approx_src = false; };
    std::vector<OutCol> out;
};

inline std::string str(const Query &q) {
    std::ostringstream os; os << "SELECT ";
    if (q.star) os << '*';
    else for (size_t i = 0; i != q.items.size(); ++i) { os << (i ? ", " : "") << str(*q.items[i].e); if (not q.items[i].alias.empty()) os << " AS " << q.items[i].alias; }
    if (not q.from.empty()) {
        os << " FROM ";
        for (size_t i = 0; i != q.from.size(); ++i) {
            auto &s = q.from[i]; os << (i ? ", " : "");
            if (s.sub) os << '(' << str(*s.sub) << ") AS " << s.alias;
            else { os << s.table->name; if (s.aliased) os << " AS " << s.alias; }
        }
    }
    if (q.where) os << " WHERE " << str(*q.where);
    if (not q.group_by.empty()) { os << " GROUP BY "; for (size_t i = 0; i != q.group_by.size(); ++i) os << (i ? ", " : "") << str(*q.group_by[i]) << (q.group_alias[i].empty() ? "" : " AS " + q.group_alias[i]); }
    if (q.having) os << " HAVING " << str(*q.having);
    if (not q.order_by.empty()) {
        os << " ORDER BY ";
        for (size_t i = 0; i != q.order_by.size(); ++i) {
            auto &o = q.order_by[i];
            os << (i ? ", " : "") << (o.e ? str(*o.e) : q.order_by_alias and not q.items[o.item].alias.empty() ? q.items[o.item].alias : str(*q.items[o.item].e)) << (o.asc ? " ASC" : " DESC");
        }
    }
    if (q.limit) { os << " LIMIT " << *q.limit; if (q.offset) os << " OFFSET " << *q.offset; }
    return os.str();
}

struct Result {
    std::vector<Row> rows;                ///< without LIMIT
    std::vector<std::vector<V>> keys;     ///< order keys of each row
};

inline void full_rows(const Query &q, std::vector<Row> &rows, std::vector<size_t> &offs);

/// Evaluates \p q without its LIMIT clause.
inline Result eval(const Query &q) {
    Result res;
    std::vector<Row> rows; std::vector<size_t> offs;
    full_rows(q, rows, offs);
    if (q.where) {
        std::vector<Row> keep;
        for (auto &r : rows) { Env env{&r, &offs, nullptr}; V v = eval(*q.where, env); if (not v.null and v.i) keep.push_back(r); }
        rows.swap(keep);
    }
    auto emit = [&](const Env &env) {
        if (q.having) { V v = eval(*q.having, env); if (v.null or not v.i) return; }
        Row out;
        if (q.star) out = *env.row;
        else for (auto &it : q.items) out.push_back(eval(*it.e, env));
        std::vector<V> key; for (auto &o : q.order_by) key.push_back(o.e ? eval(*o.e, env) : out[o.item]);
        res.rows.push_back(std::move(out)); res.keys.push_back(std::move(key));
    };
    if (q.grouped) {
        std::vector<std::pair<Row, std::vector<const Row*>>> groups;
        auto less = [&](const Row &a, const Row &b) {
            for (size_t i = 0; i != q.group_by.size(); ++i) { int r = cmp_null(q.group_by[i]->ty, a[i], b[i]); if (r) return r < 0; }
            return false;
        };
        std::map<Row, std::vector<const Row*>, decltype(less)> m(less);
        for (auto &r : rows) {
            Row key; Env env{&r, &offs, nullptr};
            for (auto &g : q.group_by) key.push_back(eval(*g, env));
            m[key].push_back(&r);
        }
        if (q.group_by.empty() and m.empty()) m[Row{}]; // aggregation yields one row always
        Row empty(offs.empty() ? 0 : 4096);
        for (auto &[k, g] : m) { Env env{g.empty() ? &empty : g.front(), &offs, &g}; emit(env); }
    } else {
        for (auto &r : rows) { Env env{&r, &offs, nullptr}; emit(env); }
    }
    return res;
}

inline void full_rows(const Query &q, std::vector<Row> &rows, std::vector<size_t> &offs) {
    rows.assign(1, Row{});
    size_t off = 0;
    for (auto &s : q.from) {
        offs.push_back(off);
        std::vector<Row> in;
        if (s.sub) in = eval(*s.sub).rows; else in = s.table->rows;
        off += s.sub ? s.sub->out.size() : s.table->cols.size();
        std::vector<Row> next;
        for (auto &l : rows) for (auto &r : in) { Row x = l; x.insert(x.end(), r.begin(), r.end()); next.push_back(std::move(x)); }
        rows.swap(next);
    }
}

/// The value of an uncorrelated nested query with a single result.
inline V eval_scalar(const Query &q) { auto r = eval(q); return r.rows.at(0).at(0); }

inline void sources_of(const E &e, std::set<size_t> &out) { if (e.k == COL) out.insert(e.src); if (e.k == SUBQ) out.insert(1000 + e.sub_id); /* becomes a source */ for (auto &x : e.ch) sources_of(*x, out); }
/// The sets of sources touched by the clauses of the CNF of \p e.
inline std::vector<std::set<size_t>> clause_sources(const E &e, bool neg = false) {
    if (e.k == NOT) return clause_sources(*e.ch[0], not neg);
    if (e.k == BIN and (e.op == AND or e.op == OR)) {
        auto a = clause_sources(*e.ch[0], neg), b = clause_sources(*e.ch[1], neg);
        if ((e.op == AND) != neg) { a.insert(a.end(), b.begin(), b.end()); return a; }
        std::vector<std::set<size_t>> r;
        for (auto &x : a) for (auto &y : b) { auto z = x; z.insert(y.begin(), y.end()); r.push_back(z); }
        return r;
    }
    std::set<size_t> s; sources_of(e, s); return {s};
}
/// Number of clauses, and of literals in the longest clause, while converting \p e to CNF; the conversion is exponential.
struct CnfSize { double n = 1, k = 1; };
inline CnfSize cnf_not(CnfSize x) { return {std::pow(x.k, x.n), x.n}; }
inline CnfSize cnf_or(CnfSize a, CnfSize b) { return {a.n * b.n, a.k + b.k}; }
inline CnfSize cnf_and(CnfSize a, CnfSize b) { return {a.n + b.n, std::max(a.k, b.k)}; }
inline CnfSize cnf_size(const E &e, bool neg, double &worst) {
    CnfSize r;
    if (e.k == NOT) r = cnf_size(*e.ch[0], not neg, worst);
    else if (e.k == BIN and e.ch[0]->ty.k == BOOL and e.ch[1]->ty.k == BOOL) {
        auto a = cnf_size(*e.ch[0], neg, worst), b = cnf_size(*e.ch[1], neg, worst);
        if (e.op == AND or e.op == OR) r = (e.op == AND) != neg ? cnf_and(a, b) : cnf_or(a, b);
        else {
            auto na = cnf_not(a), nb = cnf_not(b); worst = std::max({worst, na.n, nb.n});
            r = cnf_and(cnf_or(na, b), cnf_or(nb, a));
            if ((e.op == NE) != neg) r = cnf_not(r);
        }
    }
    worst = std::max(worst, r.n * r.k);
    return r;
}
inline bool moderate_cnf(const E &e) { double w = 0; cnf_size(e, false, w); return w <= 3000; }
/// The source HAVING is joined with at most one nested query per clause.
inline bool binary_having(const E &e) {
    for (auto &s : clause_sources(e)) if (std::distance(s.lower_bound(1000), s.end()) > 1) return false;
    return true;
}
/// Joins are binary, by design: a clause must not touch more than two sources.
inline bool binary_clauses(const E &e) { for (auto &s : clause_sources(e)) if (s.size() > 2) return false; return true; }

struct QueryShape { unsigned max_sources = 3; bool subqueries = true; bool scalars = true; ///< nested queries in expressions
    bool scalar = false; ///< generate a query with a single result, which is nested into an expression
    bool alias = false; ///< alias all tables
    bool from_less = true; size_t max_product = 4000; unsigned expr_depth = 3; };

inline std::shared_ptr<Query> gen_query(Case &c, const std::vector<Table> &tables, const QueryShape &shape, unsigned nest, unsigned &fresh) {
    auto q = std::make_shared<Query>();
    Scope sc;
    size_t product = 1;
    const size_t n = shape.from_less and c.chance(1, 40) ? 0 : nest ? 1 + c.weighted({5, 2}) : 1 + c.draw(shape.max_sources - 1);
    std::vector<std::string> used;
    for (size_t i = 0; i != n; ++i) {
        Source s;
        size_t rows;
        if (shape.subqueries and nest < 2 and c.chance(1, 6)) {
            QueryShape inner = shape; inner.scalar = false;
            s.sub = gen_query(c, tables, inner, nest + 1, fresh);
            s.alias = "q" + std::to_string(fresh++); s.aliased = true;
            // two columns of one name cannot be told apart
            rows = eval(*s.sub).rows.size();
            if (q->est * s.sub->est > 2e5) { if (i) break; }
            q->est *= s.sub->est;
        } else {
            s.table = &c.pick(tables);
            s.aliased = shape.alias or c.coin() or std::find(used.begin(), used.end(), s.table->name) != used.end();
            s.alias = s.aliased ? "t" + std::to_string(fresh++) : s.table->name;
            rows = s.table->rows.size();
            if (i and q->est * double(rows) > 2e5) break;
            q->est *= std::max(1., double(rows));
        }
        if (i and product * rows > shape.max_product) break;
        product *= std::max<size_t>(1, rows);
        used.push_back(s.alias);
        const size_t src = q->from.size();
        if (s.sub) {
            for (size_t k = 0; k != s.sub->out.size(); ++k) { auto &o = s.sub->out[k]; if (not o.approx) sc.cols.push_back({src, k, s.alias + "." + o.name, o.name, o.ty, o.wide, o.maxabs, o.frac}); }
        } else {
            for (size_t k = 0; k != s.table->cols.size(); ++k) {
                auto &col = s.table->cols[k];
                const double bound = col.ty.k == DEC ? 24. * double(pow10(col.ty.scale)) : col.ty.fp() ? 6 : 9;
                sc.cols.push_back({src, k, s.alias + "." + col.name, col.name, col.ty, col.wide, bound, 2});
            }
        }
        q->from.push_back(std::move(s));
    }
    GenE g{c, sc};
    const auto scalar = [&]() -> EP {
        static size_t ids = 0;
        QueryShape inner = shape; inner.scalar = inner.alias = true; inner.max_sources = 2; inner.scalars = shape.scalars and c.chance(1, 3);
        auto e = std::make_shared<E>(); e->k = SUBQ; e->sub = gen_query(c, tables, inner, nest + 1, fresh); e->sub_id = ids++;
        if (q->est * e->sub->est > 2e5) return mk_const(mk_int(32), V::I(1));
        q->est *= e->sub->est;
        auto &o = e->sub->out[0]; e->ty = o.ty; e->wide = o.wide; e->maxabs = o.maxabs; e->frac = o.frac;
        return e;
    };
    if (shape.scalar and q->from.empty() and c.coin()) { // a constant
        auto e = c.coin() ? g.const_int() : g.string(0);
        q->items.push_back({e, ""}); q->out.push_back({"", e->ty, false, e->maxabs, e->frac, false});
        return q;
    }
    const bool nested = shape.scalars and nest < 2 and c.chance(1, 6);
    if (nested) g.scalar = scalar;
    // WHERE: join predicates and others
    std::vector<EP> conj;
    for (size_t i = 1; i < q->from.size(); ++i) {
        if (c.chance(1, 5)) continue;
        std::vector<std::pair<const ScopeCol*, const ScopeCol*>> cand, loose;
        for (auto &a : sc.cols) if (a.src < i) for (auto &b : sc.cols) if (b.src == i) { if (a.ty == b.ty) cand.push_back({&a, &b}); else if (a.ty.num() and b.ty.num() and a.ty.k != DEC and b.ty.k != DEC and not a.wide and not b.wide) loose.push_back({&a, &b}); else if (a.ty.k == CHR and b.ty.k == CHR) loose.push_back({&a, &b}); }
        auto &from = (cand.empty() or (not loose.empty() and c.chance(1, 4))) ? loose : cand;
        if (from.empty()) continue;
        auto [a, b] = from[c.draw(from.size() - 1)];
        OP op = c.chance(1, 6) ? c.oneof<OP>({LT, GE, NE}) : EQ;
        if (a->ty.k == BOOL and op != EQ and op != NE) op = EQ;
        if (c.coin()) conj.push_back(mk_bin(op, mk_col(*a), mk_col(*b), mk(BOOL))); else conj.push_back(mk_bin(op, mk_col(*b), mk_col(*a), mk(BOOL)));
    }
    for (size_t k = c.weighted({4, 4, 2}); k; --k) { auto e = g.boolean(c.draw(shape.expr_depth)); if (binary_clauses(*e) and moderate_cnf(*e)) conj.push_back(e); }
    g.scalar = nullptr;
    for (auto &x : conj) q->where = q->where ? mk_bin(AND, q->where, x, mk(BOOL)) : x;

    std::vector<EP> order_extra; // what groups can be ordered by
    // grouping
    const bool grouping = shape.scalar or c.chance(1, 3);
    if (grouping) {
        q->grouped = true;
        std::vector<EP> refs;
        for (size_t k = shape.scalar ? 0 : c.draw(2); k; --k) {
            const ScopeCol *sc_col = c.chance(3, 4) and not sc.cols.empty() ? &c.pick(sc.cols) : nullptr;
            EP e = sc_col ? mk_col(*sc_col) : g.num(1);
            if (not e->has_col()) continue;
            bool dup = false; for (auto &x : q->group_by) dup |= same(*x, *e) or (e->k == COL and x->k == COL and e->src == x->src and e->col == x->col);
            if (dup) continue;
            auto ref = std::make_shared<E>(*e); ref->k = REF; ref->ch = {e};
            size_t same_name = 0; if (sc_col) for (auto &f : q->from) { if (f.sub) for (auto &o : f.sub->out) same_name += o.name == sc_col->name; else for (auto &o : f.table->cols) same_name += o.name == sc_col->name; }
            if (sc_col and same_name == 1 and c.coin()) { // referred to by its own name
                ref->text_name = sc_col->name; q->group_alias.push_back("");
                if (c.coin()) { auto e2 = std::make_shared<E>(*e); e2->text_name = sc_col->name; ref->ch = {e2}; e = e2; }
            } else { ref->text_name = "g" + std::to_string(refs.size()); q->group_alias.push_back(ref->text_name); }
            q->group_by.push_back(e); refs.push_back(ref);
        }
        std::vector<EP> aggs;
        for (size_t k = shape.scalar ? 1 : (q->group_by.empty() ? 1 : 0) + c.draw(2); k; --k) {
            auto e = std::make_shared<E>(); e->k = AGG; e->agg = c.oneof<AGGFN>({COUNT_STAR, COUNT, SUM, MIN, MAX, shape.scalar ? MAX : AVG});
            if (e->agg == COUNT_STAR) { e->ty = mk_int(64); e->maxabs = 1e5; }
            else if (e->agg == COUNT) { EP a = sc.cols.empty() ? g.num(1) : EP(mk_col(c.pick(sc.cols))); e->ch = {a}; e->ty = mk_int(64); e->maxabs = 1e5; }
            else {
                EP a = g.num(c.draw(2));
                if (e->agg == MIN or e->agg == MAX) { // of any integers
                    std::vector<ScopeCol*> wide; for (auto &s : sc.cols) if (s.ty.k == INT and s.wide) wide.push_back(&s);
                    if (not wide.empty() and c.coin()) a = mk_col(*c.pick(wide));
                }
                if (not a->has_col()) { e->agg = COUNT_STAR; e->ty = mk_int(64); e->maxabs = 1e5; }
                else {
                    e->ch = {a};
                    if (e->agg == SUM) { e->ty = a->ty.k == INT ? mk_int(64) : a->ty.k == DEC ? mk_dec(19, a->ty.scale) : mk(F64); e->maxabs = a->maxabs * 1e4; e->frac = a->frac; e->wide = true; }
                    else if (e->agg == AVG) { e->ty = mk(F64); e->wide = true; }
                    else { e->ty = a->ty; e->maxabs = a->maxabs; e->frac = a->frac; e->wide = a->wide; }
                }
            }
            bool dup = false; for (auto &x : aggs) dup |= same(*x, *e);
            if (not dup) aggs.push_back(e);
        }
        GenE g2{c, sc, nullptr, {}, false};
        for (auto &x : refs) g2.extra.push_back(x);
        for (auto &x : aggs) if (x->agg != AVG) g2.extra.push_back(x);
        order_extra = g2.extra;
        for (auto &x : refs) if (c.chance(5, 6)) q->items.push_back({x, ""});
        for (auto &x : aggs) q->items.push_back({x, ""});
        if (not shape.scalar)
        if (c.chance(1, 3) and not g2.extra.empty()) { auto e = g2.num(1); q->items.push_back({e, ""}); }
        if (q->items.empty()) q->items.push_back({refs.empty() ? aggs.front() : refs.front(), ""});
        if (nested) g2.scalar = scalar;
        if (not shape.scalar and c.chance(1, 3) and (not g2.extra.empty() or nested)) { q->having = g2.boolean(1 + c.draw(1)); if (not moderate_cnf(*q->having) or not binary_having(*q->having)) q->having = nullptr; }
        bool any_agg = false; for (auto &it : q->items) any_agg |= it.e->has_agg();
        if (q->having) any_agg |= q->having->has_agg();
        if (q->group_by.empty() and not any_agg) { auto e = std::make_shared<E>(); e->k = AGG; e->agg = COUNT_STAR; e->ty = mk_int(64); e->maxabs = 1e5; q->items.push_back({e, ""}); }
    } else if (nest == 0 and not q->from.empty() and c.chance(1, 5)) {
        q->star = true;
    } else {
        for (size_t k = 1 + c.draw(3); k; --k) {
            EP e = c.chance(2, 3) and not sc.cols.empty() ? mk_col(c.pick(sc.cols)) : g.any(c.draw(2));
            q->items.push_back({e, ""});
        }
    }
    if (nested and not shape.scalar and not q->star and c.coin()) if (auto e = scalar(); e->k == SUBQ) q->items.insert(q->items.begin() + c.draw(q->items.size()), {e, ""});
    // names of the results
    for (size_t i = 0; i != q->items.size(); ++i) if (nest or (q->grouped and q->items[i].e->k != REF and q->items[i].e->k != AGG) or c.coin()) q->items[i].alias = (nest ? "n" : "c") + std::to_string(i);
    if (q->star) {
        for (size_t i = 0; i != q->from.size(); ++i) {
            auto &s = q->from[i];
            if (s.sub) for (auto &o : s.sub->out) q->out.push_back(o);
            else for (auto &col : s.table->cols) q->out.push_back({col.name, col.ty, col.wide, 0, 0, false});
        }
    } else {
        for (auto &it : q->items) q->out.push_back({it.alias, it.e->ty, it.e->wide or it.e->ty.k == CHR ? it.e->wide : it.e->wide, it.e->maxabs, it.e->frac, it.e->k == AGG and it.e->agg == AVG});
    }
    if (not q->star and nest == 0 and not (q->grouped and q->group_by.empty()) and c.chance(2, 5)) {
        std::set<size_t> seen;
        for (size_t k = 1 + c.draw(1); k; --k) {
            size_t i = c.draw(q->items.size() - 1);
            if (c.chance(1, 3)) { // an expression which is not selected
                EP e;
                if (not q->grouped) e = c.coin() and not sc.cols.empty() ? mk_col(c.pick(sc.cols)) : g.any(1);
                else if (not order_extra.empty()) e = c.coin() ? c.pick(order_extra) : GenE{c, sc, nullptr, order_extra, false}.num(1);
                if (not e or not e->has_col() or e->has_sub()) continue;
                bool dup = false;
                for (auto &it : q->items) dup |= same(*it.e, *e);
                for (auto &o : q->order_by) if (o.e) dup |= same(*o.e, *e);
                if (not dup) q->order_by.push_back({SIZE_MAX, not c.coin(), e});
                continue;
            }
            if (not q->items[i].e->has_col() or q->items[i].e->has_sub() or q->out[i].approx or seen.count(i)) continue;
            bool dup = false; for (auto j : seen) dup |= same(*q->items[j].e, *q->items[i].e);
            if (q->grouped) for (size_t j = 0; j != q->items.size(); ++j) dup |= j != i and same(*q->items[j].e, *q->items[i].e); // ambiguous
            if (dup) continue;
            seen.insert(i); q->order_by.push_back({i, not c.coin(), nullptr});
        }
        q->order_by_alias = c.coin();
        // a name of a group which is selected twice is ambiguous
        bool dup = false;
        if (q->grouped) for (size_t i = 0; i != q->items.size(); ++i) for (size_t j = 0; j != i; ++j) dup |= q->items[i].e->k == REF and same(*q->items[i].e, *q->items[j].e);
        if (dup) q->order_by.clear();
    }
    if (nest == 0 and c.chance(1, 4)) {
        q->limit = c.size(80);
        if (c.coin()) q->offset = c.size(80);
    }
    return q;
}

}
