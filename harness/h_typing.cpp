// C09 semantic analysis: types, names, acceptance.
#include "sqlast.hpp"
#include "parse/Sema.hpp"
#include <mutable/mutable.hpp>
#include <algorithm>
#include <cmath>
#include <map>

using namespace ast;

namespace {

/*----- C09: semantic analysis -----------------------------------------------------------------------------------------*/

/// A type; `vec` iff it has one value per row.
struct T {
    enum K { NONE, BOOL, CHR, DATE, DT, INT, FLT, DEC } k = NONE;
    unsigned p = 0 /* bytes, digits, bits, or length */, s = 0; bool vec = false;
    bool num() const { return k >= INT; }
    bool primitive() const { return k != NONE; }
    T as(bool v) const { T t = *this; t.vec = v; return t; }
    std::string str() const {
        std::string r;
        switch (k) {
            case NONE: return "none";
            case BOOL: r = "BOOL"; break; case DATE: r = "DATE"; break; case DT: r = "DATETIME"; break;
            case CHR: r = VP_STR("CHAR " << p); break; case INT: r = VP_STR("INT " << p); break;
            case DEC: r = VP_STR("DECIMAL " << p << ' ' << s); break; case FLT: r = p == 32 ? "FLOAT" : "DOUBLE"; break;
        }
        return r + (vec ? " per row" : " single");
    }
};
T ty(T::K k, unsigned p = 0, unsigned s = 0, bool vec = false) { T t; t.k = k; t.p = p; t.s = s; t.vec = vec; return t; }
std::string lib_str(const m::Type *t) {
    if (t->is_none()) return "none";
    if (t->is_error()) return "error";
    std::string r = type_str(t);
    if (auto cs = m::cast<const m::CharacterSequence>(t)) r = VP_STR("CHAR " << cs->length);
    auto pt = m::cast<const m::PrimitiveType>(t);
    return r + (not pt ? " not primitive" : pt->is_vectorial() ? " per row" : " single");
}
std::string decl(const T &t) {
    switch (t.k) {
        case T::BOOL: return "BOOL"; case T::CHR: return VP_STR((t.s ? "VARCHAR(" : "CHAR(") << t.p << ")"); case T::DATE: return "DATE"; case T::DT: return "DATETIME";
        case T::INT: return VP_STR("INT(" << t.p << ")"); case T::DEC: return VP_STR("DECIMAL(" << t.p << ", " << t.s << ")"); case T::FLT: return t.p == 32 ? "FLOAT" : "DOUBLE";
        default: abort();
    }
}
T gen_ty(Case &c) {
    switch (c.weighted({5, 3, 3, 2, 2, 1, 1})) {
        case 0: return ty(T::INT, c.oneof<unsigned>({4, 8, 1, 2}));
        case 1: return ty(T::CHR, 1 + unsigned(c.size(30)), c.chance(1, 3));
        case 2: { unsigned p = 1 + unsigned(c.draw(18)); return ty(T::DEC, p, unsigned(c.draw(std::min(p, 4u)))); }
        case 3: return ty(T::FLT, c.coin() ? 32 : 64);
        case 4: return ty(T::BOOL);
        case 5: return ty(T::DATE);
        default: return ty(T::DT);
    }
}
struct Tab { std::string name; std::vector<std::pair<std::string, T>> attrs; std::vector<bool> notnull; };

struct Q;
struct X {
    enum K { DES, CONST, FN, UN, BIN, QUERY } k = CONST;
    std::string table, name; ///< of a designator, `name` of a function or an operator, or a literal
    std::vector<std::shared_ptr<X>> ch; std::shared_ptr<Q> q;
    /* results of the analysis */
    T type; T common; bool has_common = false;
    const X *target = nullptr; std::string target_table, target_attr; bool free = false;
    const m::ast::Expr *lib = nullptr;
};
using XP = std::shared_ptr<X>;
struct Q {
    struct Src { std::string table, alias; std::shared_ptr<Q> q; };
    bool star = false; std::vector<std::pair<XP, std::string>> items; std::vector<Src> from; XP where; std::vector<std::pair<XP, std::string>> group; XP having; std::vector<XP> order; bool has_group = false;
};
using QP = std::shared_ptr<Q>;

void print(std::ostream &o, const Q &q);
void print(std::ostream &o, const X &x) {
    switch (x.k) {
        case X::DES: o << (x.table.empty() ? "" : x.table + ".") << x.name; break;
        case X::CONST: o << x.name; break;
        case X::FN: o << x.name << '('; for (size_t i = 0; i != x.ch.size(); ++i) { if (i) o << ", "; print(o, *x.ch[i]); } if (x.ch.empty() and x.table == "*") o << '*'; o << ')'; break;
        case X::UN: o << '(' << x.name << ' '; print(o, *x.ch[0]); o << ')'; break;
        case X::BIN: o << '('; print(o, *x.ch[0]); o << ' ' << x.name << ' '; print(o, *x.ch[1]); o << ')'; break;
        case X::QUERY: o << '('; print(o, *x.q); o << ')'; break;
    }
}
void print(std::ostream &o, const Q &q) {
    o << "SELECT "; bool first = true;
    auto sep = [&] { if (not first) o << ", "; first = false; };
    if (q.star) { sep(); o << '*'; }
    for (auto &[x, a] : q.items) { sep(); print(o, *x); if (not a.empty()) o << " AS " << a; }
    if (not q.from.empty()) { o << " FROM "; first = true; for (auto &s : q.from) { sep(); if (s.q) { o << '('; print(o, *s.q); o << ')'; } else o << s.table; if (not s.alias.empty()) o << " AS " << s.alias; } }
    if (q.where) { o << " WHERE "; print(o, *q.where); }
    if (q.has_group) { o << " GROUP BY "; first = true; for (auto &[x, a] : q.group) { sep(); print(o, *x); if (not a.empty()) o << " AS " << a; } }
    if (q.having) { o << " HAVING "; print(o, *q.having); }
    if (not q.order.empty()) { o << " ORDER BY "; first = true; for (auto &x : q.order) { sep(); print(o, *x); } }
}
std::string str(const X &x) { std::ostringstream o; print(o, x); return o.str(); }
/// The name of the column of an expression without alias is unique unless the expressions are the same
bool is_const(const X &x) {
    switch (x.k) { case X::CONST: return true; case X::DES: return x.target and is_const(*x.target); case X::UN: return is_const(*x.ch[0]); case X::BIN: return is_const(*x.ch[0]) and is_const(*x.ch[1]);
        case X::FN: return false; case X::QUERY: return x.q->from.empty() and is_const(*x.q->items.at(0).first); }
    abort();
}
bool is_free(const X &x) { if (x.k == X::DES) return x.free; if (x.k == X::QUERY) return false; for (auto &y : x.ch) if (is_free(*y)) return true; return false; }

struct Reject { std::string why; };
struct Unspecified { std::string why; };

/// The rules of scoping and typing.
struct Analysis {
    enum Stage { FROM, WHERE, GROUP, HAVING, SELECT, ORDER };
    struct Named { std::string name; T type; X *x; bool alias; };
    struct Source { std::string name; std::vector<Named> cols; const Tab *tab; };
    struct Ctx { Stage stage = FROM; std::vector<Source> sources; std::vector<Named> keys, results; bool grouping = false; };
    std::vector<Tab> &tabs; std::vector<Ctx*> ctx; std::vector<std::string> labels;

    static T join(const T &a, const T &b) {
        const double L = 3.321928094887362;
        auto bits = [&](const T &t) { return t.k == T::INT ? 8. * t.p : t.k == T::DEC ? std::ceil(L * t.p) : t.p; };
        T r; r.k = std::max(a.k, b.k); r.vec = a.vec or b.vec; const double p = std::max(bits(a), bits(b));
        r.p = r.k == T::INT ? unsigned(p / 8) : r.k == T::DEC ? unsigned(p / L) : unsigned(p);
        r.s = r.k == T::DEC ? std::max(a.k == T::DEC ? a.s : 0, b.k == T::DEC ? b.s : 0) : 0;
        if (r.k == T::FLT and r.p != 32 and r.p != 64) r.p = r.p < 32 ? 32 : 64;
        return r;
    }

    void designator(X &x) {
        Ctx &cur = *ctx.back();
        auto one = [&](std::vector<Named> &v, const std::string &n) -> Named* {
            Named *r = nullptr; for (auto &k : v) if (k.name == n) { if (r) throw Reject{"ambiguous " + n}; r = &k; } return r;
        };
        if (x.table.empty()) {
            if (cur.stage > SELECT) if (auto r = one(cur.results, x.name)) { x.type = r->x->type; x.target = r->x; labels.push_back("result"); return; }
            if (cur.stage > GROUP) if (auto k = one(cur.keys, x.name)) { x.type = k->x->type.as(false); x.target = k->x; labels.push_back("grouping key"); return; }
        }
        Source *src = nullptr; Named *col = nullptr; size_t depth = 0;
        for (size_t d = 0; d != ctx.size() and not col; ++d) {
            auto &C = *ctx[ctx.size() - 1 - d];
            if (not x.table.empty()) {
                for (auto &s : C.sources) if (s.name == x.table) { src = &s; col = one(s.cols, x.name); if (not col) throw Reject{"no attribute " + x.name}; depth = d; }
            } else for (auto &s : C.sources) if (auto k = one(s.cols, x.name)) { if (col) throw Reject{"ambiguous " + x.name}; src = &s; col = k; depth = d; }
        }
        if (not col) throw Reject{"no " + x.name};
        if (depth) labels.push_back("free variable");
        for (size_t d = 0; d != depth + 1; ++d) if (ctx[ctx.size() - 1 - d]->stage == FROM) throw Reject{"correlation in FROM"};
        const T t = col->x ? col->x->type : col->type;
        if (not t.primitive()) throw Reject{"column without type"};
        x.type = t.as(true); x.free = depth != 0;
        if (col->x) x.target = col->x; else { x.target_table = src->tab->name; x.target_attr = x.name; }
    }
    void fn(X &x) {
        for (auto &a : x.ch) expr(*a);
        static const std::vector<std::string> AGG{"MIN", "MAX", "SUM", "AVG", "COUNT"};
        const bool agg = std::find(AGG.begin(), AGG.end(), x.name) != AGG.end();
        if (not agg and x.name != "ISNULL") throw Reject{"no function " + x.name};
        if (x.name == "COUNT") { if (x.ch.size() > 1) throw Reject{"arguments"}; x.type = ty(T::INT, 8); }
        else {
            if (x.ch.size() != 1) throw Reject{"arguments"};
            const T a = x.ch[0]->type;
            if (x.name == "ISNULL") { if (not a.primitive()) throw Reject{"ISNULL of NULL"}; x.type = ty(T::BOOL, 0, 0, a.vec); }
            else {
                if (not a.num()) throw Reject{"aggregate of a " + a.str()};
                if (x.name == "AVG") x.type = ty(T::FLT, 64);
                else if (x.name == "SUM") x.type = a.k == T::INT ? ty(T::INT, 8) : a.k == T::FLT ? ty(T::FLT, 64) : ty(T::DEC, 19, a.s);
                else x.type = a.as(false);
            }
        }
        if (agg) {
            const auto st = ctx.back()->stage;
            if (st == FROM or st == WHERE or st == GROUP) throw Reject{"aggregate not allowed here"};
            for (auto &a : x.ch) if (contains_agg(*a)) throw Unspecified{"aggregate of an aggregate"};
        } else if (ctx.back()->stage == FROM) throw Reject{"function not allowed here"};
    }
    static bool contains_agg(const X &x) { if (x.k == X::FN and x.name != "ISNULL") return true; if (x.k == X::QUERY) return false; for (auto &y : x.ch) if (contains_agg(*y)) return true; return false; }
    void expr(X &x) {
        switch (x.k) {
            case X::DES: designator(x); break;
            case X::CONST: if (x.table == "bad") throw Reject{"constant"}; break; // typed by the generator
            case X::FN: fn(x); break;
            case X::UN: expr(*x.ch[0]); x.type = x.ch[0]->type; if (x.name == "NOT" ? x.type.k != T::BOOL : not x.type.num()) throw Reject{"operand of " + x.name}; break;
            case X::BIN: {
                expr(*x.ch[0]); expr(*x.ch[1]); const T a = x.ch[0]->type, b = x.ch[1]->type; const bool vec = a.vec or b.vec; const auto &o = x.name;
                if (o == "+" or o == "-" or o == "*" or o == "/" or o == "%") { if (not a.num() or not b.num()) throw Reject{"operands of " + o}; x.type = x.common = join(a, b); x.has_common = true; }
                else if (o == "..") { if (a.k != T::CHR or b.k != T::CHR) throw Reject{"operands of .."}; x.type = ty(T::CHR, a.p + b.p, 0, vec); }
                else if (o == "LIKE") { if (a.k != T::CHR or b.k != T::CHR) throw Reject{"operands of LIKE"}; x.type = ty(T::BOOL, 0, 0, vec); }
                else if (o == "AND" or o == "OR") { if (a.k != T::BOOL or b.k != T::BOOL) throw Reject{"operands of " + o}; x.type = ty(T::BOOL, 0, 0, vec); }
                else { // comparison
                    const bool ord = o != "=" and o != "!=";
                    if (not a.primitive() or not b.primitive() or (a.num() ? not b.num() : a.k != b.k) or (ord and a.k == T::BOOL)) throw Reject{"operands of " + o};
                    x.type = ty(T::BOOL, 0, 0, vec);
                    if (a.num()) { x.common = join(a, b); x.has_common = true; }
                }
                break; }
            case X::QUERY: {
                auto &q = *x.q; Ctx inner; ctx.push_back(&inner); try { query(q); } catch (...) { ctx.pop_back(); throw; } ctx.pop_back();
                if (inner.results.size() != 1) throw Reject{"number of columns"};
                X &r = *inner.results[0].x;
                if (not r.type.primitive()) throw Reject{"type of the nested query"};
                const auto st = ctx.back()->stage;
                if (st != WHERE and st != HAVING and st != SELECT) throw Reject{"nested query in this clause"};
                if (r.type.vec) throw Reject{"nested query of many values"};
                if (r.k == X::DES) throw Unspecified{"designator in a nested query"};
                if (not (is_const(r) and q.from.empty()) and not (r.k == X::FN and not q.has_group)) throw Reject{"nested query of more than one value"};
                x.type = r.type; labels.push_back("nested query");
                break; }
        }
    }
    void query(Q &q) {
        Ctx &C = *ctx.back();
        for (auto &s : q.from) {
            Source src; src.name = s.alias.empty() ? s.table : s.alias; src.tab = nullptr;
            if (s.q) {
                Ctx inner; ctx.push_back(&inner); try { query(*s.q); } catch (...) { ctx.pop_back(); throw; } ctx.pop_back();
                for (auto &r : inner.results) { if (r.x->type.primitive()) r.x->type.vec = true; src.cols.push_back(r); }
            } else {
                for (auto &t : tabs) if (t.name == s.table) src.tab = &t;
                if (not src.tab) throw Reject{"no table"};
                for (auto &[n, t] : src.tab->attrs) src.cols.push_back({n, t, nullptr, false});
            }
            for (size_t i = 0; i != ctx.size(); ++i) if (i + 1 == ctx.size() or ctx[i]->stage != FROM) for (auto &o : ctx[i]->sources) if (o.name == src.name) throw Reject{"name in use"};
            C.sources.push_back(std::move(src));
        }
        if (q.where) { C.stage = WHERE; expr(*q.where); if (q.where->type.k != T::BOOL) throw Reject{"WHERE"}; }
        if (q.has_group) {
            C.stage = GROUP; C.grouping = true;
            for (auto &[x, a] : q.group) {
                expr(*x);
                if (is_free(*x)) throw Reject{"free variable"};
                if (not x->type.primitive() or not x->type.vec) throw Reject{"grouping key"};
                C.keys.push_back({not a.empty() ? a : x->k == X::DES ? x->name : "#" + str(*x), x->type, x.get(), not a.empty()});
            }
        }
        if (q.having) { C.stage = HAVING; C.grouping = true; expr(*q.having); if (q.having->type.k != T::BOOL or q.having->type.vec) throw Reject{"HAVING"}; }
        C.stage = SELECT;
        bool single = false, many = false;
        if (q.star) {
            if (C.grouping) throw Unspecified{"* with grouping"};
            for (auto &s : C.sources) for (auto &k : s.cols) {
                if (k.x and not k.x->type.primitive()) throw Reject{"NULL column"};
                star.push_back(std::make_unique<X>()); X &x = *star.back(); x.k = X::DES; x.name = k.name; x.type = (k.x ? k.x->type : k.type).as(true); x.target = k.x;
                // a column of the nested query which has no identifier or several of a name cannot be referred to
                for (auto &o : s.cols) if (&o != &k and o.name == k.name) throw Reject{"ambiguous column in *"};
                C.results.push_back({k.name, x.type, &x, false}); many = true;
            }
        }
        size_t n = 0;
        for (auto &[x, a] : q.items) {
            ++n;
            expr(*x);
            if (x->k != X::QUERY and is_free(*x)) throw Reject{"free variable"};
            if (C.grouping and x->type.vec) throw Reject{"not single"};
            if (not is_const(*x) and x->k != X::QUERY) { (x->type.vec ? many : single) = true; if (mixed(*x)) throw Unspecified{"mixed"}; }
            C.results.push_back({not a.empty() ? a : x->k == X::DES ? x->name : is_const(*x) ? VP_STR("#" << n) : "#" + str(*x), x->type, x.get(), not a.empty()});
        }
        if (single and many) throw Reject{"mixed"};
        if (not q.order.empty()) {
            C.stage = ORDER;
            for (auto &x : q.order) {
                expr(*x);
                if (is_free(*x)) throw Reject{"free variable"};
                if (not x->type.primitive()) throw Reject{"ORDER BY"};
                if (C.grouping == x->type.vec) throw Reject{"ORDER BY"};
                if (mixed(*x)) throw Unspecified{"mixed"};
            }
        }
    }
    std::vector<std::unique_ptr<X>> star;
    /// whether an aggregate is combined with a value per row
    static bool mixed(const X &x) {
        if (x.k == X::FN and x.name != "ISNULL") return false;
        return contains_agg(x) and x.type.vec;
    }
};

struct GenQ {
    Case &c; std::vector<Tab> &tabs; unsigned budget = 30; unsigned errors = 12; ///< one in 10^errors.. is wrong
    struct Cand { std::string table, name; T t; };
    bool wrong() { return errors and c.chance(1, errors * 10); }

    XP mk(X::K k, const std::string &name, std::vector<XP> ch = {}) { auto x = std::make_shared<X>(); x->k = k; x->name = name; x->ch = std::move(ch); return x; }
    /// A date, which exists unless \p bad.
    std::string date(bool bad) {
        static const int DAYS[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        int y = 1 + int(c.draw(9998)), m = 1 + int(c.draw(11)), d; if (m == 2) y = std::max(4, y / 4 * 4), y += y % 100 == 0 ? 4 : 0; // leap years
        d = c.chance(1, 3) ? DAYS[m - 1] : c.chance(1, 3) ? 1 : 1 + int(c.draw(DAYS[m - 1] - 1));
        if (bad) switch (c.draw(4)) { case 0: y = 0; break; case 1: m = 0; break; case 2: m = 13 + int(c.draw(86)); d = 1; break; case 3: d = 0; break; default: d = c.coin() ? DAYS[m - 1] + 1 : 32 + int(c.draw(67)); }
        char b[40]; snprintf(b, sizeof b, "%s%04d-%02d-%02d", y and c.chance(1, 6) ? "-" : "", y, m, d); return b;
    }
    XP con(T::K want) {
        auto x = mk(X::CONST, ""); T t;
        if (wrong()) { // constants without a value
            switch (c.draw(2)) {
                case 0: x->name = "d'" + date(true) + "'"; break;
                case 1: { const unsigned what = unsigned(c.draw(3)); char b[20]; snprintf(b, sizeof b, " %02d:%02d:%02d", what == 1 ? 24 + int(c.draw(75)) : int(c.draw(23)), what == 2 ? 60 + int(c.draw(39)) : int(c.draw(59)), what == 3 ? 60 + int(c.draw(39)) : int(c.draw(59))); x->name = "d'" + date(what == 0) + b + "'"; break; }
                default: x->name = c.oneof<const char*>({"9223372036854775808", "18446744073709551616", "99999999999999999999", "0x8000000000000000", "0xFFFFFFFFFFFFFFFFF", "01000000000000000000000", "07777777777777777777777"});
            }
            x->table = "bad"; return x;
        }
        switch (want) {
            case T::NONE: x->name = "NULL"; break;
            case T::BOOL: x->name = c.coin() ? "TRUE" : "FALSE"; t = ty(T::BOOL); break;
            case T::CHR: { std::string s = "\""; size_t n = c.size(8); for (size_t i = 0; i != n; ++i) s += c.chance(1, 8) ? c.oneof<const char*>({"\\n", "\\\"", "\\\\", "%", " "}) : std::string(1, char('a' + c.draw(3))); x->name = s + "\""; t = ty(T::CHR, unsigned(n)); break; }
            case T::DATE: x->name = "d'" + date(false) + "'"; t = ty(T::DATE); break;
            case T::DT: { char b[20]; snprintf(b, sizeof b, " %02d:%02d:%02d", int(c.coin() ? c.draw(23) : 23), int(c.coin() ? c.draw(59) : 59), int(c.coin() ? c.draw(59) : 59)); x->name = "d'" + date(false) + b + "'"; t = ty(T::DT); break; }
            default: switch (c.weighted({6, 2, 1, 1, 2})) {
                case 0: x->name = VP_STR(c.draw(100)); t = ty(T::INT, 4); break;
                case 1: { static const std::vector<std::pair<const char*, unsigned>> V{{"2147483647", 4}, {"2147483648", 8}, {"9223372036854775807", 8}, {"4294967295", 8}}; auto &v = c.pick(V); x->name = v.first; t = ty(T::INT, v.second); break; }
                case 2: { static const std::vector<std::pair<const char*, unsigned>> V{{"0x7f", 4}, {"0X7fffffff", 4}, {"0x80000000", 8}, {"0xFFFFFFFF", 8}}; auto &v = c.pick(V); x->name = v.first; t = ty(T::INT, v.second); break; }
                case 3: { static const std::vector<std::pair<const char*, unsigned>> V{{"017", 4}, {"00", 4}, {"017777777777", 4}, {"020000000000", 8}}; auto &v = c.pick(V); x->name = v.first; t = ty(T::INT, v.second); break; }
                default: x->name = c.oneof<const char*>({"1.5", ".25", "1e3", "2.", "0x1p3", "1.E-2"}); t = ty(T::FLT, 64); break;
            }
        }
        x->type = t; return x;
    }
    XP des(const std::vector<Cand> &cand, T::K want) {
        std::vector<const Cand*> fit; for (auto &k : cand) if (want == T::INT ? k.t.num() : k.t.k == want) fit.push_back(&k);
        if (wrong()) { auto x = mk(X::DES, std::string(1, char('a' + c.draw(6)))); if (c.coin()) x->table = c.oneof<const char*>({"R", "S", "u", "v", "W"}); return x; }
        if (fit.empty()) return nullptr;
        auto &k = *c.pick(fit); auto x = mk(X::DES, k.name); x->table = k.table; return x;
    }
    T::K any() { return c.oneof<T::K>({T::INT, T::INT, T::INT, T::BOOL, T::CHR, T::CHR, T::DATE, T::DT}); }
    /// An expression over `cand`, and aggregates of expressions over `arg`.
    XP expr(T::K want, const std::vector<Cand> &cand, const std::vector<Cand> *arg, unsigned depth, bool nested = false) {
        if (wrong()) want = any();
        if (budget) --budget; else depth = 0;
        auto leaf = [&]() -> XP {
            if (arg and (want == T::INT) and (cand.empty() or c.coin())) return agg(*arg, depth);
            if (c.chance(4, 5)) if (auto d = des(cand, want)) return d;
            if (wrong()) return con(T::NONE);
            return con(want);
        };
        if (depth == 0 or c.chance(1, 4)) return leaf();
        if (nested and want == T::INT and c.chance(1, 6)) { auto x = mk(X::QUERY, ""); x->q = sub(cand); return x; }
        switch (want) {
            case T::BOOL: switch (c.weighted({3, 3, 3, 2, 2, 2})) {
                case 0: { auto o = c.oneof<const char*>({"AND", "OR"}); auto l = expr(want, cand, arg, depth - 1, nested); return mk(X::BIN, o, {l, expr(want, cand, arg, depth - 1, nested)}); }
                case 1: case 2: { auto k = any(); auto o = k == T::BOOL ? c.oneof<const char*>({"=", "!="}) : c.oneof<const char*>({"=", "!=", "<", "<=", ">", ">="}); if (k == T::BOOL and wrong()) o = "<"; auto l = expr(k, cand, arg, depth - 1, nested); return mk(X::BIN, o, {l, expr(k, cand, arg, depth - 1, nested)}); }
                case 3: return mk(X::UN, "NOT", {expr(want, cand, arg, depth - 1, nested)});
                case 4: { auto l = expr(T::CHR, cand, arg, depth - 1); return mk(X::BIN, "LIKE", {l, expr(T::CHR, cand, arg, depth - 1)}); }
                default: { auto f = mk(X::FN, wrong() ? "NOFN" : "ISNULL", {expr(any(), cand, arg, depth - 1)}); if (wrong()) { if (c.coin()) f->ch.push_back(con(T::INT)); else f->ch.clear(); } return f; }
            }
            case T::CHR: { auto l = expr(want, cand, arg, depth - 1); return mk(X::BIN, "..", {l, expr(want, cand, arg, depth - 1)}); }
            case T::INT: {
                if (c.chance(1, 5)) return mk(X::UN, c.oneof<const char*>({"-", "+", "~"}), {expr(want, cand, arg, depth - 1)});
                auto o = c.oneof<const char*>({"+", "-", "*", "/", "%"}); auto l = expr(want, cand, arg, depth - 1, nested); return mk(X::BIN, o, {l, expr(want, cand, arg, depth - 1, nested)}); }
            default: return leaf();
        }
    }
    static bool has_des(const X &x) { if (x.k == X::DES) return true; for (auto &y : x.ch) if (has_des(*y)) return true; return false; }
    /// An expression with a column, mostly.
    XP per_row(const std::vector<Cand> &cand, const std::vector<Cand> *arg) {
        auto want = any(); XP x = des(cand, want); if (not x or c.chance(1, 3)) x = expr(want, cand, arg, 1);
        for (int i = 0; i != 4 and not has_des(*x) and not cand.empty() and not wrong(); ++i) { auto y = des(cand, c.pick(cand).t.k); if (y) x = y; }
        return x;
    }
    XP agg(const std::vector<Cand> &arg, unsigned depth) {
        auto x = mk(X::FN, c.oneof<const char*>({"COUNT", "SUM", "MIN", "MAX", "AVG"}));
        if (x->name == "COUNT") { if (c.coin()) x->ch.push_back(expr(any(), arg, nullptr, depth ? depth - 1 : 0)); else x->table = "*"; }
        else { x->ch.push_back(expr(T::INT, arg, nullptr, depth ? depth - 1 : 0)); if (wrong()) { if (c.coin()) x->ch.push_back(con(T::INT)); else x->ch.clear(); } }
        return x;
    }
    unsigned names = 0;
    std::string fresh() { return std::string(1, "uvwxyz"[names % 6]) + (names++ >= 6 ? std::to_string(names) : ""); }
    /// A nested query with a single value, which may refer to the enclosing query.
    QP sub(const std::vector<Cand> &outer) {
        auto q = std::make_shared<Q>();
        if (c.chance(1, 6)) { q->items.push_back({expr(T::INT, {}, nullptr, 1), ""}); return q; }
        std::vector<Cand> cand = sources(*q, 1, false);
        std::vector<Cand> all = cand; for (auto &o : outer) if (not o.table.empty()) all.push_back(o);
        if (c.chance(2, 3)) q->where = expr(T::BOOL, all, nullptr, 2);
        q->items.push_back({wrong() ? expr(T::INT, cand, nullptr, 1) : wrong() ? agg(all, 1) : agg(cand, 1), c.coin() ? fresh() : ""});
        if (wrong()) q->items.push_back({agg(cand, 0), ""});
        if (wrong()) { q->has_group = true; q->group.push_back({expr(T::INT, cand, nullptr, 0), ""}); }
        return q;
    }
    std::vector<Cand> sources(Q &q, size_t max, bool nest) {
        std::vector<Cand> cand; size_t n = 1 + c.draw(max - 1);
        std::map<std::string, int> count; std::vector<Cand> plain;
        for (size_t i = 0; i != n; ++i) {
            Q::Src s; std::vector<std::pair<std::string, T>> cols;
            if (nest and c.chance(1, 4)) {
                s.q = query(0); s.alias = wrong() ? "u" : fresh();
                for (auto &[x, a] : s.q->items) if (not a.empty()) cols.push_back({a, x->type}); else if (x->k == X::DES) cols.push_back({x->name, x->type});
                // the types are those of the analysis of the nested query on its own
                Analysis A{tabs, {}, {}}; Analysis::Ctx C; A.ctx.push_back(&C);
                cols.clear(); try { auto copy = s.q; A.query(*copy); for (auto &r : C.results) if (r.name[0] != '#') cols.push_back({r.name, r.x->type}); } catch (Reject&) { } catch (Unspecified&) { }
            } else {
                auto &t = c.pick(tabs); s.table = wrong() ? "nowhere" : t.name; cols = t.attrs;
                bool used = false; for (auto &o : q.from) used |= o.table == s.table and o.alias.empty();
                if ((used or max == 1) ? not wrong() : c.chance(1, 3)) s.alias = fresh();
            }
            const auto name = s.alias.empty() ? s.table : s.alias;
            for (auto &[a, t] : cols) { cand.push_back({name, a, t}); plain.push_back({"", a, t}); ++count[a]; }
            q.from.push_back(std::move(s));
        }
        for (auto &p : plain) if (count[p.name] == 1 or wrong()) cand.push_back(p);
        return cand;
    }
    static T::K kind(const X &x, const std::vector<Cand> &cand) {
        switch (x.k) {
            case X::DES: for (auto &k : cand) if (k.name == x.name and k.table == x.table) return k.t.num() ? T::INT : k.t.k; return T::NONE;
            case X::CONST: return x.type.num() ? T::INT : x.type.k;
            case X::FN: return x.name == "ISNULL" ? T::BOOL : T::INT;
            case X::UN: return x.name == "NOT" ? T::BOOL : T::INT;
            case X::BIN: return x.name == ".." ? T::CHR : std::string("+-*/%").find(x.name) != std::string::npos ? T::INT : T::BOOL;
            case X::QUERY: return T::INT;
        }
        abort();
    }
    QP query(int nest) {
        auto q = std::make_shared<Q>();
        if (nest and c.chance(1, 25)) { for (size_t k = 1 + c.draw(2); k; --k) q->items.push_back({expr(any(), {}, nullptr, 2), c.coin() ? fresh() : ""}); return q; }
        auto cand = sources(*q, nest ? 3 : 2, nest > 0);
        if (c.chance(2, 3)) q->where = expr(T::BOOL, cand, nullptr, 1 + unsigned(c.draw(2)), nest > 0);
        auto alias = [&]() -> std::string { return c.chance(1, 3) ? wrong() ? "a" : fresh() : ""; };
        std::vector<Cand> res;
        auto item = [&](XP x) { auto a = alias(); if (a.empty() and nest == 0 and x->k != X::DES and c.chance(4, 5)) a = fresh(); q->items.push_back({x, a}); return a; };
        if (c.chance(1, 3)) { // grouping
            std::vector<Cand> keys;
            if (c.chance(4, 5)) {
                q->has_group = true;
                for (size_t k = 1 + c.draw(1); k; --k) {
                    XP x = per_row(cand, nullptr); const auto want = kind(*x, cand);
                    auto a = x->k == X::DES and c.chance(2, 3) ? "" : fresh();
                    q->group.push_back({x, a});
                    if (not a.empty()) keys.push_back({"", a, ty(want)}); else if (x->k == X::DES) keys.push_back({"", x->name, ty(want)});
                }
            }
            if (c.chance(1, 3)) q->having = expr(T::BOOL, wrong() ? cand : keys, &cand, 2, nest > 0);
            for (size_t k = 1 + c.draw(2); k; --k) { auto want = any(); auto x = expr(want, wrong() ? cand : keys, &cand, unsigned(c.draw(2)), nest > 0); auto a = item(x); if (not a.empty()) res.push_back({"", a, ty(want)}); }
            for (auto &k : keys) res.push_back(k);
            if (c.chance(1, 3)) for (size_t k = 1 + c.draw(1); k; --k) q->order.push_back(expr(any(), wrong() ? cand : res, &cand, 1));
        } else if (c.chance(1, 8)) { // aggregation
            for (size_t k = 1 + c.draw(1); k; --k) item(agg(cand, 1));
        } else {
            if (c.chance(1, 5)) { q->star = true; if (c.chance(2, 3)) { maybe_order(*q, cand); return q; } }
            for (size_t k = 1 + c.draw(2); k; --k) { auto want = any(); auto x = c.coin() ? des(cand, want) : nullptr; if (not x) x = expr(want, cand, nullptr, unsigned(c.draw(2)), nest > 0); auto a = item(x); if (not a.empty()) res.push_back({"", a, ty(want)}); }
            for (auto &k : cand) res.push_back(k);
            maybe_order(*q, res);
        }
        return q;
    }
    void maybe_order(Q &q, const std::vector<Cand> &res) { if (c.chance(1, 3)) for (size_t k = 1 + c.draw(1); k; --k) q.order.push_back(per_row(res, nullptr)); }
};

/// Compares the analysed syntax tree with the analysis of the reference.
struct Compare {
    Case &c;
    std::vector<std::pair<const X*, const m::ast::Designator*>> des;
    void expr(X &x, const m::ast::Expr &e) {
        x.lib = &e;
        VP_REQUIRE(c, e.has_type(), "typed", e << " has no type");
        std::string want = x.type.str(), got = lib_str(e.type());
        VP_REQUIRE(c, want == got, "type", e << " has type " << got << " instead of " << want);
        switch (x.k) {
            case X::DES: des.push_back({&x, m::as<const m::ast::Designator>(&e)}); break;
            case X::CONST: break;
            case X::FN: { auto &f = m::as<const m::ast::FnApplicationExpr>(e); for (size_t i = 0; i != x.ch.size(); ++i) expr(*x.ch[i], *f.args.at(i));
                VP_REQUIRE(c, f.has_function() and VP_STR(f.get_function().name) == x.name, "function", e); VP_REQUIRE(c, f.get_function().is_aggregate() == (x.name != "ISNULL"), "function", e);
                break; }
            case X::UN: expr(*x.ch[0], *m::as<const m::ast::UnaryExpr>(e).expr); break;
            case X::BIN: { auto &b = m::as<const m::ast::BinaryExpr>(e); expr(*x.ch[0], *b.lhs); expr(*x.ch[1], *b.rhs);
                VP_REQUIRE(c, not x.has_common or (b.common_operand_type and lib_str(b.common_operand_type) == x.common.str()), "common type", e << " computes in " << (b.common_operand_type ? lib_str(b.common_operand_type) : "no type") << " instead of " << x.common.str());
                break; }
            case X::QUERY: query(*x.q, m::as<const m::ast::SelectStmt>(*m::as<const m::ast::QueryExpr>(e).query)); break;
        }
    }
    void query(Q &q, const m::ast::SelectStmt &s) {
        if (s.from) { auto &f = m::as<const m::ast::FromClause>(*s.from); for (size_t i = 0; i != q.from.size(); ++i) if (q.from[i].q) query(*q.from[i].q, m::as<const m::ast::SelectStmt>(*std::get<m::ast::Stmt*>(f.from.at(i).source))); else VP_REQUIRE(c, f.from[i].has_table() and VP_STR(f.from[i].table().name()) == q.from[i].table, "table", q.from[i].table); }
        if (q.where) expr(*q.where, *m::as<const m::ast::WhereClause>(*s.where).where);
        if (q.has_group) for (size_t i = 0; i != q.group.size(); ++i) expr(*q.group[i].first, *m::as<const m::ast::GroupByClause>(*s.group_by).group_by.at(i).first);
        if (q.having) expr(*q.having, *m::as<const m::ast::HavingClause>(*s.having).having);
        auto &sel = m::as<const m::ast::SelectClause>(*s.select);
        for (size_t i = 0; i != q.items.size(); ++i) expr(*q.items[i].first, *sel.select.at(i).first);
        for (size_t i = 0; i != q.order.size(); ++i) expr(*q.order[i], *m::as<const m::ast::OrderByClause>(*s.order_by).order_by.at(i).first);
    }
    void targets() {
        for (auto &[x, d] : des) {
            VP_REQUIRE(c, d->contains_free_variables() == x->free, "free", *d);
            if (not x->target_attr.empty()) {
                auto a = std::get_if<const m::Attribute*>(&d->target());
                VP_REQUIRE(c, a, "target", *d << " is no attribute");
                VP_REQUIRE(c, VP_STR((*a)->name) == x->target_attr and VP_STR((*a)->table.name()) == x->target_table, "target", *d << " is " << (*a)->table.name() << "." << (*a)->name << " instead of " << x->target_table << "." << x->target_attr);
            } else {
                auto e = std::get_if<const m::ast::Expr*>(&d->target());
                VP_REQUIRE(c, e, "target", *d << " is no expression");
                if (x->target->lib) VP_REQUIRE(c, *e == x->target->lib, "target", *d << " is " << **e << " instead of " << str(*x->target));
            }
        }
    }
};

std::vector<Tab> gen_tabs(Case &c) {
    std::vector<Tab> tabs; const size_t n = 1 + c.draw(2);
    for (size_t i = 0; i != n; ++i) {
        Tab t; t.name = std::string(1, char('R' + i)); const size_t k = 1 + c.draw(4); size_t first = c.draw(2);
        for (size_t j = 0; j != k; ++j) t.attrs.push_back({std::string(1, char('a' + first + j)), gen_ty(c)});
        tabs.push_back(std::move(t));
    }
    return tabs;
}
struct Base {
    std::ostringstream out, err; m::Diagnostic diag{false, out, err};
    explicit Base(Case &c, const std::vector<Tab> &tabs) {
        m::Catalog::Clear();
        auto &C = m::Catalog::Get();
        auto &db = C.add_database(C.pool("db")); C.set_database_in_use(db);
        for (auto &t : tabs) {
            std::string s = "CREATE TABLE " + t.name + " ( "; for (size_t i = 0; i != t.attrs.size(); ++i) s += (i ? ", " : "") + t.attrs[i].first + " " + decl(t.attrs[i].second) + (i < t.notnull.size() and t.notnull[i] ? " NOT NULL" : ""); s += " );";
            c.log() << s << "\n";
            auto stmt = m::statement_from_string(diag, s);
            m::execute_statement(diag, *stmt, false);
        }
        C.timer().clear();
    }
    std::unique_ptr<m::ast::Command> parse(const std::string &s) {
        std::istringstream in(s); auto &C = m::Catalog::Get();
        m::ast::Lexer lexer(diag, C.get_pool(), "-", in); m::ast::Parser parser(lexer); auto r = parser.parse(); return r;
    }
};

VP_PROP("C09", "queries", 14000, 200000) {
    auto tabs = gen_tabs(c); Base B(c, tabs);
    GenQ g{c, tabs}; g.errors = unsigned(c.oneof<int>({0, 6, 12, 3}));
    auto q = g.query(1);
    std::ostringstream text; print(text, *q);
    bool accept = true; std::string why; bool limit_ok = true;
    if (c.chance(1, 5)) {
        auto number = [&] { if (g.wrong()) { limit_ok = false; return c.oneof<const char*>({"18446744073709551616", "99999999999999999999", "0x10000000000000000", "02000000000000000000000"}); }
            return c.oneof<const char*>({"0", "1", "42", "0x1F", "017", "9223372036854775808", "18446744073709551615", "0xFFFFFFFFFFFFFFFF", "01777777777777777777777"}); };
        text << " LIMIT " << number(); if (c.coin()) text << " OFFSET " << number();
    }
    text << ';';
    c.log() << text.str() << "\n";
    Analysis A{tabs, {}, {}}; Analysis::Ctx C; A.ctx.push_back(&C);
    try { A.query(*q); } catch (Reject &r) { accept = false; why = r.why; } catch (Unspecified &u) { c.label("unspecified: " + u.why); return; }
    if (accept and not limit_ok) { accept = false; why = "LIMIT"; }
    c.nontrivial(text.str().size() > 40);
    for (auto &l : A.labels) c.label(l);
    c.label(accept ? "accepted" : "rejected: " + why.substr(0, 14));
    auto cmd = B.parse(text.str());
    VP_REQUIRE(c, B.diag.num_errors() == 0, "syntax", B.err.str());
    m::ast::Sema sema(B.diag);
    sema(*cmd);
    VP_REQUIRE(c, accept == (B.diag.num_errors() == 0), "accept", (accept ? "rejected: " + B.err.str() : "accepted, but: " + why));
    if (not accept) return;
    Compare K{c, {}};
    K.query(*q, m::as<const m::ast::SelectStmt>(*cmd));
    K.targets();
}


VP_PROP("C09", "insert", 6000, 80000) {
    std::vector<Tab> tabs = gen_tabs(c); tabs.resize(1); for (size_t i = 0; i != tabs[0].attrs.size(); ++i) tabs[0].notnull.push_back(c.chance(1, 4));
    Base B(c, tabs);
    GenQ g{c, tabs}; g.errors = unsigned(c.oneof<int>({0, 2, 4})); auto &t = tabs[0];
    std::ostringstream text; text << "INSERT INTO " << (g.wrong() ? "S" : t.name) << " VALUES ";
    bool accept = text.str().find(" S ") == std::string::npos; const bool exists = accept;
    std::vector<std::vector<XP>> rows(1 + c.draw(2));
    std::vector<XP> all;
    for (auto &r : rows) {
        text << (&r == &rows[0] ? "(" : ", (");
        size_t n = t.attrs.size(); if (g.wrong()) n = 1 + c.draw(n + 1);
        if (n != t.attrs.size()) accept = false;
        for (size_t i = 0; i != n; ++i) {
            if (i) text << ", ";
            const bool notnull = i < t.attrs.size() and t.notnull[i];
            if (c.chance(1, 12) and (not notnull or g.wrong())) { text << "DEFAULT"; if (notnull) accept = false; continue; }
            if (c.chance(1, 12) and (not notnull or g.wrong())) { text << "NULL"; if (notnull) accept = false; continue; }
            auto want = t.attrs[std::min(i, t.attrs.size() - 1)].second.k; if (want >= T::INT) want = T::INT;
            auto x = g.expr(want, {}, nullptr, unsigned(c.draw(2)));
            print(text, *x);
            if (n != t.attrs.size()) continue;
            Analysis A{tabs, {}, {}}; Analysis::Ctx C; A.ctx.push_back(&C);
            try { A.expr(*x); const auto k = t.attrs[i].second; if (not x->type.primitive() ? notnull : (k.num() ? not x->type.num() : k.k != x->type.k)) accept = false; else all.push_back(x); }
            catch (Reject &r) { accept = false; } catch (Unspecified&) { c.discard(); }
        }
        text << ")";
    }
    text << ";";
    c.log() << text.str() << "\n";
    c.nontrivial(exists and t.attrs.size() + rows.size() > 2);
    c.label(accept ? "accepted" : "rejected");
    auto cmd = B.parse(text.str());
    VP_REQUIRE(c, B.diag.num_errors() == 0, "syntax", B.err.str());
    m::ast::Sema sema(B.diag); sema(*cmd);
    VP_REQUIRE(c, accept == (B.diag.num_errors() == 0), "accept", (accept ? "rejected: " + B.err.str() : "accepted"));
}

VP_PROP("C09", "create table", 6000, 80000) {
    std::vector<Tab> tabs = gen_tabs(c); Base B(c, tabs);
    GenQ g{c, tabs}; g.errors = unsigned(c.oneof<int>({0, 2, 4}));
    Tab t; t.name = g.wrong() ? "R" : "N"; bool accept = t.name == "N", checked = true;
    std::ostringstream text; text << "CREATE TABLE " << t.name << " ( "; bool primary = false;
    struct Con { bool notnull = false, unique = false, primary = false; std::string ref; };
    std::vector<Con> cons; const size_t n = 1 + c.draw(5);
    Analysis A{tabs, {}, {}}; Analysis::Ctx C; A.ctx.push_back(&C); C.stage = Analysis::WHERE; C.sources.push_back({t.name, {}, &t});
    std::vector<GenQ::Cand> cand;
    for (size_t i = 0; i != n; ++i) {
        std::string name(1, char('a' + i)); if (i and g.wrong()) { name = "a"; accept = false; checked = false; }
        T ty_ = gen_ty(c); Con k; std::string d = decl(ty_);
        if (g.wrong()) { // types without values
            static const std::vector<std::string> BAD{"INT(3)", "INT(16)", "DECIMAL(20, 2)", "DECIMAL(3, 4)", "INT(5)"};
            d = c.pick(BAD); accept = false; checked = false;
        }
        text << (i ? ", " : "") << name << ' ' << d;
        C.sources[0].cols.push_back({name, ty_, nullptr, false}); t.attrs.push_back({name, ty_});
        cand.push_back({"", name, ty_}); cand.push_back({t.name, name, ty_});
        for (size_t m = c.size(3); m and checked; --m) switch (c.weighted({3, 3, 2, 3, 3})) {
            case 0: text << " NOT NULL"; k.notnull = true; break;
            case 1: text << " UNIQUE"; k.unique = true; break;
            case 2: if (primary and not g.wrong()) break; if (primary) accept = false; primary = true; k.primary = true; text << " PRIMARY KEY"; break;
            case 3: {
                auto x = g.expr(g.wrong() ? g.any() : T::BOOL, cand, nullptr, 2); text << " CHECK("; print(text, *x); text << ")";
                try { A.expr(*x); if (x->type.k != T::BOOL) accept = false; } catch (Reject&) { accept = false; } catch (Unspecified&) { c.discard(); }
                break; }
            default: {
                std::vector<std::pair<std::string, std::string>> fit; for (auto &o : tabs) for (auto &[a, at] : o.attrs) if (at.str() == ty_.str() and (at.k != T::CHR or at.s == ty_.s)) fit.push_back({o.name, a});
                if (g.wrong()) { auto &o = c.pick(tabs); auto &[a, at] = c.pick(o.attrs); if (c.coin()) { text << " REFERENCES " << o.name << "(zz)"; accept = false; } else { text << " REFERENCES " << o.name << "(" << a << ")"; bool ok = at.str() == ty_.str() and (at.k != T::CHR or at.s == ty_.s); if (not ok or not k.ref.empty()) accept = false; k.ref = o.name + "." + a; } break; }
                if (fit.empty() or not k.ref.empty()) break;
                auto &f = c.pick(fit); text << " REFERENCES " << f.first << "(" << f.second << ")"; k.ref = f.first + "." + f.second;
                break; }
        }
        cons.push_back(k);
    }
    text << " );";
    c.log() << text.str() << "\n";
    c.nontrivial(n > 1);
    c.label(accept ? "accepted" : "rejected");
    auto cmd = B.parse(text.str());
    VP_REQUIRE(c, B.diag.num_errors() == 0, "syntax", B.err.str());
    m::ast::Sema sema(B.diag);
    auto command = sema.analyze(std::move(cmd));
    VP_REQUIRE(c, accept == (B.diag.num_errors() == 0), "accept", (accept ? "rejected: " + B.err.str() : "accepted"));
    if (not accept) { VP_REQUIRE(c, not command, "command", "a command of an erroneous statement"); return; }
    VP_REQUIRE(c, command, "command", "no command");
    command->execute(B.diag);
    auto &Cat = m::Catalog::Get(); auto &table = Cat.get_database_in_use().get_table(Cat.pool("N"));
    VP_REQUIRE(c, table.num_attrs() == n, "table", table.num_attrs() << " attributes");
    for (size_t i = 0; i != n; ++i) {
        auto &a = table[i]; auto &k = cons[i];
        VP_REQUIRE(c, VP_STR(a.name) == t.attrs[i].first and a.id == i and &a.table == &table, "table", "attribute " << i << " is " << a.name);
        T want = t.attrs[i].second; want.vec = true;
        VP_REQUIRE(c, lib_str(a.type) == want.str(), "type", a.name << " has type " << lib_str(a.type) << " instead of " << want.str());
        if (want.k == T::CHR) VP_REQUIRE(c, m::as<const m::CharacterSequence>(*a.type).is_varying == bool(want.s), "type", "VARCHAR");
        VP_REQUIRE(c, a.not_nullable == k.notnull and a.unique == k.unique, "constraints", "of " << a.name);
        VP_REQUIRE(c, (a.reference ? VP_STR(a.reference->table.name() << "." << a.reference->name) : std::string()) == k.ref, "reference", "of " << a.name);
        bool p = false; for (auto &x : table.primary_key()) p |= x.get().id == i;
        VP_REQUIRE(c, p == k.primary, "primary key", "of " << a.name);
    }
}

}
