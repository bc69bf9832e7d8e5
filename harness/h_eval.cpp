// C20: evaluation of expressions by the stack machine, against an exact evaluator.
#include "exec.hpp"
#include "backend/Interpreter.hpp"
#include "backend/StackMachine.hpp"
#include "parse/Sema.hpp"
#include <mutable/IR/CNF.hpp>
#include <mutable/Options.hpp>
#include <cmath>

using namespace db;

namespace {

typedef __int128 i128;

/// The operation is outside of the domain: overflow, division by zero, ...
struct OutOfDomain { };

int64_t fit(i128 v, unsigned bits) {
    const i128 hi = (i128(1) << (bits - 1)) - 1;
    if (v > hi or v < -hi - 1) throw OutOfDomain{};
    return int64_t(v);
}
int64_t fit(i128 v, const Ty &t) {
    if (t.k == DEC) { // of that many digits
        int64_t r = fit(v, 64);
        if (t.prec < 19 and (r >= pow10(t.prec) or r <= -pow10(t.prec))) throw OutOfDomain{};
        return r;
    }
    return fit(v, t.bits);
}
double finite(double d) { if (not std::isfinite(d)) throw OutOfDomain{}; return d; }

/// Converts a number to type \p to, exactly or, for numbers converted to floats, rounded to the nearest.
V convert(const Ty &from, const Ty &to, const V &v) {
    if (v.null) return v;
    if (to.k == F32) { if (from.k == F32) return v; if (from.k == DEC or from.k == F64) throw OutOfDomain{}; return V::D(float(v.i)); }
    if (to.k == F64) { if (from.fp()) return v; if (from.k == DEC) throw OutOfDomain{}; return V::D(double(v.i)); }
    if (to.k == DEC) {
        if (from.fp()) { // only if exact
            const long double x = (long double)(v.d) * (long double)(pow10(to.scale));
            if (x != std::floor(x) or std::fabs(x) > (from.k == F32 ? 16777216.L : 4503599627370496.L)) throw OutOfDomain{};
            return V::I(int64_t(x));
        }
        return V::I(fit(i128(v.i) * pow10(to.scale - (from.k == DEC ? from.scale : 0)), 64));
    }
    if (from.fp() or from.k == DEC) throw OutOfDomain{};
    return v;
}

int cmp(const Ty &t, const V &a, const V &b) { return cmp_val(t, a, b); }

bool has_column(const E &e) {
    if (e.k == COL) return true;
    for (auto &x : e.ch) if (has_column(*x)) return true;
    return false;
}

/// Like `sql::eval()`, but checks that everything stays within the domain.
V ev(const E &e, const Row &row) {
    switch (e.k) {
        case COL: return row[e.col];
        case CONST: return e.cv;
        case REF: case POS: return ev(*e.ch[0], row);
        case NEG: { V v = ev(*e.ch[0], row); if (v.null) return v; return e.ty.fp() ? V::D(-v.d) : V::I(fit(-i128(v.i), e.ty)); }
        case BITNOT: { V v = ev(*e.ch[0], row); return v.null ? v : V::I(~v.i); }
        case NOT: { V v = ev(*e.ch[0], row); return v.null ? v : V::B(not v.i); }
        case ISNULL: return V::B(ev(*e.ch[0], row).null);
        default: break;
    }
    const V a = ev(*e.ch[0], row), b = ev(*e.ch[1], row);
    const Ty &ta = e.ch[0]->ty, &tb = e.ch[1]->ty;
    switch (e.op) {
        case AND: if ((not a.null and not a.i) or (not b.null and not b.i)) return V::B(false); if (a.null or b.null) return V::N(); return V::B(true);
        case OR: if ((not a.null and a.i) or (not b.null and b.i)) return V::B(true); if (a.null or b.null) return V::N(); return V::B(false);
        case CAT: if (a.null) return b; if (b.null) return a; return V::S(a.s + b.s);
        default: break;
    }
    if (a.null or b.null) return V::N();
    const unsigned sa = ta.k == DEC ? ta.scale : 0, sb = tb.k == DEC ? tb.scale : 0;
    switch (e.op) {
        case ADD: case SUB: {
            const V x = convert(ta, e.ty, a), y = convert(tb, e.ty, b);
            if (e.ty.k == F32) return V::D(finite(e.op == ADD ? float(x.d) + float(y.d) : float(x.d) - float(y.d)));
            if (e.ty.k == F64) return V::D(finite(e.op == ADD ? x.d + y.d : x.d - y.d));
            return V::I(fit(e.op == ADD ? i128(x.i) + y.i : i128(x.i) - y.i, e.ty));
        }
        case MUL: {
            if (e.ty.k == F32) return V::D(finite(float(convert(ta, e.ty, a).d) * float(convert(tb, e.ty, b).d)));
            if (e.ty.k == F64) return V::D(finite(convert(ta, e.ty, a).d * convert(tb, e.ty, b).d));
            if (e.ty.k == DEC) {
                const V x = ta.fp() ? convert(ta, e.ty, a) : a, y = tb.fp() ? convert(tb, e.ty, b) : b;
                const unsigned s = (ta.fp() ? e.ty.scale : sa) + (tb.fp() ? e.ty.scale : sb);
                return V::I(fit(i128(fit(i128(x.i) * y.i, 64)) / pow10(s - e.ty.scale), e.ty)); // towards zero
            }
            return V::I(fit(i128(a.i) * b.i, e.ty));
        }
        case DIV: {
            if (e.ty.k == F32) { const float x = float(convert(ta, e.ty, a).d), y = float(convert(tb, e.ty, b).d); if (y == 0) throw OutOfDomain{}; return V::D(finite(x / y)); }
            if (e.ty.k == F64) { const double x = convert(ta, e.ty, a).d, y = convert(tb, e.ty, b).d; if (y == 0) throw OutOfDomain{}; return V::D(finite(x / y)); }
            if (e.ty.k == DEC) {
                const V x = ta.fp() ? convert(ta, e.ty, a) : a, y = tb.fp() ? convert(tb, e.ty, b) : b;
                const int s = int(ta.fp() ? e.ty.scale : sa) - int(tb.fp() ? e.ty.scale : sb); // of the quotient
                if (y.i == 0) throw OutOfDomain{};
                const int d = int(e.ty.scale) - s;
                if (d > 18) throw OutOfDomain{};
                const int64_t n = fit(i128(x.i) * pow10(unsigned(d)), 64);
                return V::I(fit(i128(n) / y.i, e.ty));
            }
            if (b.i == 0) throw OutOfDomain{};
            return V::I(fit(i128(a.i) / b.i, e.ty));
        }
        case MOD: if (b.i == 0 or b.i == -1) throw OutOfDomain{}; return V::I(fit(i128(a.i) % b.i, e.ty));
        case LIKE: return V::B(like(a.s.c_str(), b.s.c_str()));
        default: break;
    }
    const Ty t = ta.num() ? join(ta, tb) : ta;
    const V x = ta.num() ? convert(ta, t, a) : a, y = ta.num() ? convert(tb, t, b) : b;
    const int r = t.k == CHR ? a.s.compare(b.s) : cmp(t, x, y);
    switch (e.op) {
        case LT: return V::B(r < 0); case LE: return V::B(r <= 0); case GT: return V::B(r > 0); case GE: return V::B(r >= 0);
        case EQ: return V::B(r == 0); default: return V::B(r != 0);
    }
}

std::string text_bytes(Case &c, size_t max) {
    std::string s;
    for (size_t n = c.size(max); n; --n) s += c.chance(1, 4) ? char(1 + c.draw(126)) : "abA%_\\.*[(+$^ "[c.draw(13)];
    return s;
}

V gen_value(Case &c, const Ty &t) {
    switch (t.k) {
        case INT: return V::I(c.integer(t.bits));
        case F32: { float f = c.coin() ? float(c.range(-100, 100)) / 4 : float(c.range(-1000000, 1000000)) * float(std::pow(2., double(c.range(-40, 40)))); return V::D(f); }
        case F64: return V::D(c.coin() ? double(c.range(-100, 100)) / 4 : double(c.integer(60)) * std::pow(2., double(c.range(-80, 80))));
        case DEC: { const int64_t m = pow10(std::min(t.prec, 18u)) - 1; return V::I(c.coin() ? c.range(-100, 100) : c.coin() ? c.range(-1000, 1000) * pow10(std::min(t.scale, 6u)) % m : c.range(-m, m)); }
        case CHR: return V::S(text_bytes(c, t.len));
        case BOOL: return V::B(c.coin());
        case DATE: { const int y = c.coin() ? 2020 + int(c.draw(2)) : int(c.range(-9999, 9999)); const unsigned m = 1 + unsigned(c.draw(11)); return V::I(date_enc(y, m, 1 + unsigned(c.draw(days_in_month(y, m) - 1)))); }
        case DT: return V::I(c.coin() ? c.range(-10, 10) : c.range(-62135596800, 253402300799));
        case NONE: return V::N();
    }
    return V::N();
}

std::string literal(const Ty &t, const V &v) { // of non-negative numbers
    if (t.k == F64) { char b[64]; snprintf(b, sizeof b, "%.17e", v.d); return b; }
    return lit(t, v);
}

struct Gen {
    Case &c; const std::vector<Col> &cols; const Row &row;

    EP constant(const Ty &t, const V &v) { auto k = mk_const(t, v); auto e = std::make_shared<E>(); e->k = REF; e->ty = t; e->text_name = literal(t, v); e->ch = {k}; return e; }
    EP column(size_t i) { auto e = std::make_shared<E>(); e->k = COL; e->ty = cols[i].ty; e->col = i; e->text_name = cols[i].name; return e; }
    EP leaf(std::function<bool(const Ty&)> ok) {
        std::vector<size_t> l; for (size_t i = 0; i != cols.size(); ++i) if (ok(cols[i].ty)) l.push_back(i);
        if (l.empty()) return nullptr;
        return column(c.pick(l));
    }
    EP number() {
        switch (c.weighted({6, 2, 1})) {
            case 0: if (auto l = leaf([](const Ty &t) { return t.num(); })) return l; [[fallthrough]];
            case 1: { const int64_t v = c.coin() ? int64_t(c.draw(10)) : int64_t(uint64_t(c.integer(64)) >> 1); return constant(mk_int(v > INT32_MAX ? 64 : 32), V::I(v)); }
            default: { V v = gen_value(c, mk(F64)); v.d = std::fabs(v.d); return constant(mk(F64), v); }
        }
    }
    bool ok(const EP &e) { try { ev(*e, row); return true; } catch (OutOfDomain) { return false; } }

    EP num(unsigned depth) {
        if (depth == 0 or c.chance(1, 4)) return number();
        for (unsigned i = 0; i != 4; ++i) {
            EP e;
            switch (c.weighted({4, 4, 4, 3, 2, 1, 1})) {
                case 0: case 1: case 2: case 3: case 4: {
                    const OP op = c.oneof<OP>({ADD, SUB, MUL, DIV, MOD});
                    auto a = num(depth - 1), b = num(depth - 1);
                    if (op == MOD and (a->ty.k != INT or b->ty.k != INT)) continue;
                    e = mk_bin(op, a, b, join(a->ty, b->ty)); break;
                }
                case 5: { auto x = num(depth - 1); e = mk_un(c.coin() ? NEG : POS, x, x->ty); break; }
                default: { auto x = num(depth - 1); if (x->ty.k != INT) continue; e = mk_un(BITNOT, x, x->ty); break; }
            }
            if (ok(e)) return e;
        }
        return number();
    }
    EP str(unsigned depth) {
        if (depth and c.chance(1, 2)) { auto a = str(depth - 1), b = str(depth - 1); return mk_bin(CAT, a, b, mk_chr(a->ty.len + b->ty.len)); }
        if (c.chance(2, 3)) if (auto l = leaf([](const Ty &t) { return t.k == CHR; })) return l;
        const auto s = text_bytes(c, 6);
        return constant(mk_chr(unsigned(s.size())), V::S(s));
    }
    std::string pattern(const std::string &text) {
        std::string p;
        auto put = [&](char ch) { if (ch == '%' or ch == '_' or ch == '\\') p += '\\'; p += ch; };
        if (c.coin()) { // made from the text
            for (size_t i = 0; i < text.size() and p.size() < 60; ) switch (c.weighted({6, 1, 1})) {
                case 0: put(text[i++]); break;
                case 1: p += '_'; ++i; break;
                default: p += '%'; i += c.draw(text.size() - i); break;
            }
            if (c.chance(1, 4)) p += '%';
            if (c.chance(1, 6)) p += 'a';
        } else for (size_t n = c.draw(5); n; --n) switch (c.draw(3)) { case 0: p += '%'; break; case 1: p += '_'; break; default: put("abA%_\\.*[(+$^ "[c.draw(13)]); }
        return p;
    }
    EP boolean(unsigned depth) {
        if (depth == 0 or c.chance(1, 6)) {
            if (c.chance(2, 3)) if (auto l = leaf([](const Ty &t) { return t.k == BOOL; })) return l;
            return constant(mk(BOOL), V::B(c.coin()));
        }
        const OP op = c.oneof<OP>({EQ, LT, LE, GT, GE, NE});
        switch (c.weighted({6, 3, 2, 2, 3, 3, 2, 2, 1})) {
            case 0: { auto a = num(depth - 1), b = num(depth - 1);
                if (c.chance(1, 3)) b = constant_near(a, b);
                auto e = mk_bin(op, a, b, mk(BOOL)); if (ok(e)) return e; return boolean(depth - 1); }
            case 1: return mk_bin(op, str(depth - 1), str(depth - 1), mk(BOOL));
            case 2: { auto a = str(depth - 1); const auto p = pattern(ev(*a, row).s); return mk_bin(LIKE, a, constant(mk_chr(unsigned(p.size())), V::S(p)), mk(BOOL)); }
            case 3: { const TK k = c.coin() ? DATE : DT;
                auto x = [&]() -> EP { if (auto l = c.coin() ? leaf([&](const Ty &t) { return t.k == k; }) : nullptr) return l; V v = gen_value(c, mk(k)); v.i = std::abs(v.i); if (k == DATE) v.i = date_enc(1 + int(c.draw(9998)), 1 + unsigned(c.draw(11)), 1 + unsigned(c.draw(27))); return constant(mk(k), v); };
                auto a = x(), b = x(); return mk_bin(op, a, b, mk(BOOL)); }
            case 4: return mk_bin(AND, boolean(depth - 1), boolean(depth - 1), mk(BOOL));
            case 5: return mk_bin(OR, boolean(depth - 1), boolean(depth - 1), mk(BOOL));
            case 6: return mk_un(NOT, boolean(depth - 1), mk(BOOL));
            case 7: return mk_bin(c.coin() ? EQ : NE, boolean(depth - 1), boolean(depth - 1), mk(BOOL));
            default: { auto l = any(depth - 1); if (not has_column(*l)) l = column(c.draw(cols.size() - 1)); return mk_un(ISNULL, l, mk(BOOL)); }
        }
    }
    EP constant_near(const EP &a, const EP &b) { // of about the same value
        const V v = ev(*a, row);
        if (a->ty.k == INT and v.i >= 0 and v.i < INT64_MAX) { const int64_t n = std::max<int64_t>(0, v.i + c.range(-1, 1)); return constant(mk_int(n > INT32_MAX ? 64 : 32), V::I(n)); }
        if (a->ty.fp()) return constant(mk(F64), V::D(std::fabs(v.d)));
        return b;
    }
    EP any(unsigned depth) {
        switch (c.weighted({5, 3, 4, 1})) {
            case 0: return num(depth);
            case 1: return str(depth);
            case 2: return boolean(depth);
            default: return column(c.draw(cols.size() - 1));
        }
    }
};


bool equal(const Ty &t, const V &a, const V &b) {
    if (a.null or b.null) return a.null == b.null;
    if (t.fp()) return a.d == b.d or (std::isnan(a.d) and std::isnan(b.d));
    if (t.k == CHR) return a.s == b.s;
    return a.i == b.i;
}

std::vector<Col> gen_cols(Case &c, size_t n, bool long_texts) {
    std::vector<Col> cols;
    for (size_t i = 0; i != n; ++i) {
        Col col; col.name = VP_STR("c" << i);
        switch (c.weighted({5, 2, 2, 3, 4, 2, 1, 1})) {
            case 0: col.ty = mk_int(c.oneof<unsigned>({32, 64, 16, 8})); break;
            case 1: col.ty = mk(F64); break;
            case 2: col.ty = mk(F32); break;
            case 3: { const unsigned p = 1 + unsigned(c.draw(17)); col.ty = mk_dec(p, unsigned(c.draw(std::min(p, 9u)))); break; }
            case 4: col.ty = mk_chr(long_texts ? 1000 + unsigned(c.draw(3000)) : 1 + unsigned(c.draw(12)), c.coin()); break;
            case 5: col.ty = mk(BOOL); break;
            case 6: col.ty = mk(DATE); break;
            default: col.ty = mk(DT); break;
        }
        cols.push_back(col);
    }
    return cols;
}

VP_PROP("C20", "expressions", 6000, 90000) {
    m::Options::Get().quiet = true;
    Db db;
    const bool long_texts = c.chance(1, 12);
    Table t; t.name = "T"; t.cols = gen_cols(c, 1 + c.draw(7), long_texts);
    Row row; for (auto &col : t.cols) row.push_back(gen_value(c, col.ty));
    if (long_texts) for (size_t i = 0; i != row.size(); ++i) if (t.cols[i].ty.k == CHR) { const auto s = row[i].s; std::string r; while (r.size() + s.size() + 1 < t.cols[i].ty.len) r += s + "x"; row[i].s = r; }
    db.exec(c, create_sql(t));
    // several expressions, evaluated by one machine and one by one
    Gen g{c, t.cols, row};
    std::vector<EP> es;
    std::ostringstream sql; sql << "SELECT ";
    const size_t n = 1 + c.draw(3);
    for (size_t i = 0; i != n; ++i) {
        auto e = g.any(1 + unsigned(c.draw(3)));
        if (not has_column(*e)) e = g.any(3);
        if (not has_column(*e)) e = g.column(c.draw(t.cols.size() - 1)); // results are either all constant or all vectorial
        es.push_back(e); sql << (i ? ", " : "") << str(*e) << " AS r" << i;
    }
    sql << " FROM T;";
    c.log() << create_sql(t) << "\nrow "; for (size_t i = 0; i != row.size(); ++i) c.log() << (i ? ", " : "") << (row[i].s.size() > 200 ? "long text" : t.cols[i].ty.fp() ? VP_STR(std::hexfloat << row[i].d) : show(t.cols[i].ty, row[i])); c.log() << "\n" << sql.str() << "\n";
    Diag d;
    std::unique_ptr<m::ast::Stmt> stmt;
    try { stmt = m::statement_from_string(d.diag, sql.str()); }
    catch (m::frontend_exception &) { c.fail("rejected", "valid statement rejected: " + sql.str() + "\n" + d.err.str()); }
    auto &sel = m::as<const m::ast::SelectClause>(*m::as<const m::ast::SelectStmt>(*stmt).select);
    // the schema
    m::Schema schema;
    auto &table = db.table("T");
    for (auto &a : table) schema.add(m::Schema::Identifier(table.name(), a.name), a.type);
    size_t split = c.draw(t.cols.size()); // columns before go to the first tuple
    std::vector<m::Schema> schemas(2);
    for (size_t i = 0; i != t.cols.size(); ++i) schemas[i >= split].add(schema[i].id, schema[i].type);
    std::vector<std::size_t> ids = {1, 2};

    size_t ops = 0;
    std::vector<const m::Type*> out_types;
    std::vector<const m::ast::Expr*> exprs;
    for (size_t i = 0; i != n; ++i) {
        exprs.push_back(sel.select[i].first.get());
        const Ty got = from_type(exprs[i]->type());
        const Ty &want = es[i]->ty;
        VP_REQUIRE(c, got.k == want.k and (got.k != INT or got.bits == want.bits) and (got.k != DEC or got.scale == want.scale) and (got.k != CHR or got.len == want.len), "type",
                   "type of " << str(*es[i]) << " is " << got.sql() << " instead of " << want.sql());
        out_types.push_back(exprs[i]->type());
        c.label(got.k == INT ? "integer" : got.fp() ? "floating point" : got.k == DEC ? "decimal" : got.k == CHR ? "text" : got.k == BOOL ? "boolean" : "date or time");
    }
    m::StackMachine all(schema), two;
    std::vector<std::unique_ptr<m::StackMachine>> single, normal;
    for (size_t i = 0; i != n; ++i) {
        all.emit(*exprs[i], 1); all.emit_St_Tup(0, i, out_types[i]); all.emit_Pop();
        two.emit(*exprs[i], schemas, ids); two.emit_St_Tup(0, i, out_types[i]); two.emit_Pop();
        single.push_back(std::make_unique<m::StackMachine>(schema));
        single.back()->emit(*exprs[i], 1); single.back()->emit_St_Tup(0, 0, out_types[i]);
        ops += single.back()->num_ops();
        normal.push_back(nullptr);
        if (es[i]->ty.k == BOOL and ops < 60 and moderate_cnf(*es[i])) {
            const auto cnf = m::cnf::to_CNF(*exprs[i]);
            size_t literals = 0; for (auto &cl : cnf) literals += cl.size();
            if (literals and literals < 400) {
                normal.back() = std::make_unique<m::StackMachine>(schema);
                normal.back()->emit(cnf, 1); normal.back()->emit_St_Tup(0, 0, out_types[i]);
                c.label("as conjunctive normal form");
            }
        }
    }
    c.nontrivial(ops >= 8);
    m::Tuple in(schema), in1(schemas[0]), in2(schemas[1]), out(out_types);
    for (unsigned pass = 0; pass != 4; ++pass) {
        // NULLs never lead out of the domain
        const uint64_t nulls = pass == 0 ? 0 : c.draw((1ull << t.cols.size()) - 1);
        Row r = row;
        for (size_t i = 0; i != r.size(); ++i) {
            if (nulls >> i & 1) r[i] = V::N();
            set_tuple(in, i, t.cols[i].ty, r[i]);
            if (i < split) set_tuple(in1, i, t.cols[i].ty, r[i]); else set_tuple(in2, i - split, t.cols[i].ty, r[i]);
        }
        std::vector<V> want;
        for (auto &e : es) want.push_back(ev(*e, r));
        auto check = [&](const char *what, size_t i, const V &got) {
            VP_REQUIRE(c, equal(es[i]->ty, want[i], got), "value", what << ": " << str(*es[i]).substr(0, 2000) << " is " << show(es[i]->ty, got).substr(0, 300) << " instead of " << show(es[i]->ty, want[i]).substr(0, 300)
                       << (es[i]->ty.fp() ? VP_STR(" (" << std::hexfloat << got.d << " instead of " << want[i].d << ")") : "") << "; NULL columns: " << std::hex << nulls);
        };
        m::Tuple *args[] = {&out, &in};
        all(args);
        for (size_t i = 0; i != n; ++i) check("all at once", i, get_tuple(out, i, out_types[i]));
        m::Tuple *args2[] = {&out, &in1, &in2};
        two(args2);
        for (size_t i = 0; i != n; ++i) check("two tuples", i, get_tuple(out, i, out_types[i]));
        for (size_t i = 0; i != n; ++i) {
            m::Tuple one(std::vector<const m::Type*>{out_types[i]});
            m::Tuple *args1[] = {&one, &in};
            (*single[i])(args1);
            check("alone", i, get_tuple(one, 0, out_types[i]));
            if (normal[i]) { (*normal[i])(args1); check("as conjunctive normal form", i, get_tuple(one, 0, out_types[i])); }
        }
        for (size_t i = 0; i != n; ++i) c.label_if(want[i].null, "NULL result");
    }
}

/*----- Conversions ----------------------------------------------------------------------------------------------------*/

VP_PROP("C20", "casts", 4000, 60000) {
    auto numeric = [&]() -> Ty { switch (c.draw(3)) { case 0: return mk_int(c.oneof<unsigned>({8, 16, 32, 64})); case 1: return mk(F32); case 2: return mk(F64); default: { const unsigned p = 1 + unsigned(c.draw(17)); return mk_dec(p, unsigned(c.draw(std::min(p, 9u)))); } } };
    const bool from_bool = c.chance(1, 12);
    const Ty from = from_bool ? mk(BOOL) : numeric(), to = from_bool ? mk_int(c.oneof<unsigned>({8, 16, 32, 64})) : numeric();
    auto tf = to_type(from), tt = to_type(to);
    m::Schema s; s.add(m::Catalog::Get().pool("x"), tf);
    m::StackMachine SM(s);
    SM.emit_Ld_Tup(1, 0); SM.emit_Cast(tt, tf); SM.emit_St_Tup(0, 0, tt);
    m::Tuple in(s), out(std::vector<const m::Type*>{tt});
    for (unsigned k = 0; k != 8; ++k) {
        V v = gen_value(c, from);
        if (c.chance(1, 8)) v = V::N();
        V want = v;
        if (not v.null) {
            long double x = from.fp() ? (long double)v.d : (long double)v.i; // unscaled
            if (to.fp()) {
                if (from.k == DEC) { // two roundings at most
                    want = to.k == F32 ? V::D(float(v.i) / float(pow10(from.scale))) : V::D(double(v.i) / double(pow10(from.scale)));
                } else want = V::D(to.k == F32 ? double(from.fp() ? float(v.d) : float(v.i)) : from.fp() ? v.d : double(v.i));
                if (not std::isfinite(want.d)) continue;
            } else if (from.fp()) {
                x = to.k == DEC ? x * (long double)pow10(to.scale) : x;
                if (std::fabs(x) > 9e18L) continue;
                if (to.k == DEC and (x != std::floor(x) or std::fabs(x) > (from.k == F32 ? 16777216.L : 4503599627370496.L))) continue; // inexact
                want = V::I(int64_t(x)); // towards zero
            } else {
                const int d = int(to.k == DEC ? to.scale : 0) - int(from.k == DEC ? from.scale : 0);
                const i128 y = d >= 0 ? i128(v.i) * pow10(unsigned(d)) : i128(v.i) / pow10(unsigned(-d));
                if (y > INT64_MAX or y < INT64_MIN) continue;
                want = V::I(int64_t(y));
            }
            c.nontrivial(not (from == to));
        }
        set_tuple(in, 0, from, v);
        m::Tuple *args[] = {&out, &in};
        SM(args);
        const V got = get_tuple(out, 0, tt);
        c.log() << from.sql() << " -> " << to.sql() << ": " << (from.fp() and not v.null ? VP_STR(std::hexfloat << v.d) : show(from, v)) << "\n";
        VP_REQUIRE(c, equal(to, want, got), "cast", (v.null ? "NULL" : from.fp() ? VP_STR(std::hexfloat << v.d) : VP_STR(v.i)) << " of type " << from.sql() << " is converted to " << show(to, got) << " instead of " << show(to, want) << " of type " << to.sql());
    }
}

/*----- Constants ------------------------------------------------------------------------------------------------------*/

VP_PROP("C20", "constants", 4000, 60000) {
    Db db;
    std::string text; V want; Ty ty;
    switch (c.draw(7)) {
        case 0: { const uint64_t v = uint64_t(c.integer(64)) >> 1; text = std::to_string(v); want = V::I(int64_t(v)); ty = mk_int(64); break; }
        case 1: { const uint64_t v = uint64_t(c.integer(64)) >> 1; char b[32]; snprintf(b, sizeof b, c.coin() ? "0x%lx" : "0x%lX", v); text = b; want = V::I(int64_t(v)); ty = mk_int(64); break; }
        case 2: { const uint64_t v = uint64_t(c.integer(64)) >> 1; char b[32]; snprintf(b, sizeof b, "0%lo", v); text = b; want = V::I(int64_t(v)); ty = mk_int(64); break; }
        case 3: { // floating point
            double d = std::fabs(gen_value(c, mk(F64)).d); char b[400];
            switch (c.draw(3)) { case 0: snprintf(b, sizeof b, "%.17e", d); break; case 1: snprintf(b, sizeof b, "%.3f", d); break; case 2: snprintf(b, sizeof b, ".%u", unsigned(c.draw(99999))); break; default: snprintf(b, sizeof b, "%uE+%u", unsigned(c.draw(99)), unsigned(c.draw(20))); }
            text = b; want = V::D(strtod(b, nullptr)); ty = mk(F64); break; }
        case 4: { double d = std::fabs(gen_value(c, mk(F64)).d); char b[64]; snprintf(b, sizeof b, c.coin() ? "%a" : "%A", d); text = b; if (text.find_first_of("pP") == text.npos) c.discard(); want = V::D(d); ty = mk(F64); break; }
        case 5: { const auto s = text_bytes(c, 12); text = str_lit(s); want = V::S(s); ty = mk_chr(unsigned(s.size())); break; }
        case 6: { int y = int(c.range(-9999, 9999)); if (y == 0) y = 1; // there is no year zero
            const unsigned m = 1 + unsigned(c.draw(11)), dd = 1 + unsigned(c.draw(days_in_month(y < 0 ? 2000 : y, m) - 1));
            char b[40]; snprintf(b, sizeof b, "d'%s%04d-%02u-%02u'", y < 0 ? "-" : "", std::abs(y), m, dd); text = b; want = V::I(date_enc(y, m, dd)); ty = mk(DATE); break; }
        default: { V v; v.null = false; v.i = c.coin() ? c.range(-100000, 100000) : c.range(-62135596800, 253402300799); text = "d'" + dt_str(v.i) + "'"; want = v; ty = mk(DT); break; }
    }
    c.log() << text << "\n"; c.label(ty.sql().substr(0, 4)); c.nontrivial();
    Diag d;
    std::unique_ptr<m::ast::Stmt> stmt;
    try { stmt = m::statement_from_string(d.diag, "SELECT " + text + ";"); }
    catch (m::frontend_exception &) { c.fail("rejected", "valid constant rejected: " + text + "\n" + d.err.str()); }
    auto &sel = m::as<const m::ast::SelectClause>(*m::as<const m::ast::SelectStmt>(*stmt).select);
    auto &k = m::as<const m::ast::Constant>(*sel.select[0].first);
    const Ty got_ty = from_type(k.type());
    VP_REQUIRE(c, got_ty.k == ty.k, "type", "constant " << text << " is of type " << got_ty.sql());
    if (ty.k == INT) VP_REQUIRE(c, got_ty.bits == (want.i > INT32_MAX ? 64 : 32), "type", "constant " << text << " is of type " << got_ty.sql());
    const auto v = m::Interpreter::eval(k);
    V got;
    switch (ty.k) { case INT: case DATE: case DT: got = V::I(v.as_i()); break; case F64: got = V::D(v.as_d()); break; default: got = V::S(reinterpret_cast<const char*>(v.as_p())); }
    VP_REQUIRE(c, equal(ty, want, got), "constant", "constant " << text << " is " << show(ty, got) << " instead of " << show(ty, want));
    // through a query
    auto o = db.query("SELECT " + text + ";");
    VP_REQUIRE(c, o.rows.size() == 1 and equal(ty, want, o.rows[0][0]), "constant", "SELECT " << text << " yields " << (o.rows.size() == 1 ? show(ty, o.rows[0][0]) : "no row"));
}

/*----- Printing -------------------------------------------------------------------------------------------------------*/

VP_PROP("C20", "printing", 3000, 40000) {
    auto cols = gen_cols(c, 1 + c.draw(5), false);
    std::vector<const m::Type*> ty; for (auto &x : cols) ty.push_back(to_type(x.ty));
    m::Tuple in(ty);
    std::ostringstream os, want;
    m::StackMachine SM;
    const auto ctx = SM.add(&os);
    for (size_t i = 0; i != cols.size(); ++i) {
        V v = c.chance(1, 5) ? V::N() : gen_value(c, cols[i].ty);
        set_tuple(in, i, cols[i].ty, v);
        if (i) { SM.emit_Putc(ctx, ','); want << ','; }
        SM.emit_Ld_Tup(0, i); SM.emit_Print(ctx, ty[i]); SM.emit_Pop();
        const Ty &t = cols[i].ty;
        if (v.null) want << "NULL";
        else switch (t.k) {
            case INT: want << v.i; break;
            case DEC: want << lit(t, v); break;
            case F32: { char b[64]; snprintf(b, sizeof b, "%.8g", double(float(v.d))); want << b; break; }
            case F64: { char b[64]; snprintf(b, sizeof b, "%.16g", v.d); want << b; break; }
            case CHR: want << '"' << v.s << '"'; break;
            case BOOL: want << (v.i ? "TRUE" : "FALSE"); break;
            case DATE: { char b[40]; const int y = int(v.i >> 9); snprintf(b, sizeof b, "%s%04d-%02d-%02d", y < 0 ? "-" : "", std::abs(y), int(v.i >> 5 & 15), int(v.i & 31)); want << b; break; }
            case DT: want << dt_str(v.i); break;
            default: break;
        }
        c.label(t.sql().substr(0, 4));
    }
    m::Tuple *args[] = {&in};
    c.log() << vp::quote(want.str()) << "\n"; c.nontrivial(cols.size() > 1);
    SM(args);
    VP_REQUIRE(c, os.str() == want.str(), "print", "printed " << vp::quote(os.str()) << " instead of " << vp::quote(want.str()));
    SM(args);
    VP_REQUIRE(c, os.str() == want.str() + want.str(), "print", "printed the second time: " << vp::quote(os.str()));
}

}
