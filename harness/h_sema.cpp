// C04 conjunctive normal forms.
#include "sqlast.hpp"
#include "parse/Sema.hpp"
#include <mutable/IR/CNF.hpp>
#include <mutable/mutable.hpp>
#include <algorithm>
#include <map>

using namespace ast;

namespace {

/*----- C04: conjunctive normal forms -----------------------------------------------------------------------------------*/

/// A truth value of three-valued logic.
enum Tri : int8_t { F = 0, U = 1, T = 2 };
Tri tnot(Tri a) { return Tri(2 - a); }
Tri tand(Tri a, Tri b) { return std::min(a, b); }
Tri tor(Tri a, Tri b) { return std::max(a, b); }
Tri teq(Tri a, Tri b) { return a == U or b == U ? U : a == b ? T : F; }

/// A formula over atoms.
struct Formula {
    enum K { Atom, True, False, Not, And, Or, Eq, Ne } k;
    int atom = -1;
    std::vector<Formula> sub;
    Tri eval(const std::vector<Tri> &v) const {
        switch (k) {
            case Atom: return v[atom];
            case True: return T;
            case False: return F;
            case Not: return tnot(sub[0].eval(v));
            case And: return tand(sub[0].eval(v), sub[1].eval(v));
            case Or: return tor(sub[0].eval(v), sub[1].eval(v));
            case Eq: return teq(sub[0].eval(v), sub[1].eval(v));
            case Ne: return tnot(teq(sub[0].eval(v), sub[1].eval(v)));
        }
        abort();
    }
    /// Number of literals of the normal form of the formula and of its negation.
    std::pair<double, double> size() const {
        switch (k) {
            case Atom: case True: case False: return {1, 1};
            case Not: { auto s = sub[0].size(); return {s.second, s.first}; }
            case And: case Or: { auto a = sub[0].size(), b = sub[1].size(); double sum = a.first + b.first, nsum = a.second + b.second, prod = 2 * a.first * b.first, nprod = 2 * a.second * b.second;
                return k == And ? std::pair{sum, nprod} : std::pair{prod, nsum}; }
            case Eq: case Ne: { auto a = sub[0].size(), b = sub[1].size(); const double na = pow2(a.first), nb = pow2(b.first), e = 2 * na * b.first + 2 * nb * a.first; const double ne = pow2(std::min(e, 1000.)); return {std::max(e, ne), std::max(e, ne)}; }
        }
        abort();
    }
    static double pow2(double n) { return n > 12 ? 1e9 : n * std::exp2(n); }
};

const std::vector<std::string> ATOMS = {"p", "q", "r", "(a < b)", "(a = 1)", "(b >= a)", "ISNULL(a)", "(s LIKE \"a%\")", "(a != b)"};

struct Sources {
    std::vector<int> used;
    Formula gen(Case &c, unsigned depth) {
        Formula f;
        const auto k = depth == 0 ? c.weighted({9, 1}) : c.weighted({4, 1, 5, 5, 5, 1, 1});
        if (k == 0) { f.k = Formula::Atom; f.atom = int(c.draw(ATOMS.size() - 1)); if (std::find(used.begin(), used.end(), f.atom) == used.end()) { if (used.size() == 4) f.atom = c.pick(used); else used.push_back(f.atom); } return f; }
        if (k == 1) { f.k = c.coin() ? Formula::True : Formula::False; return f; }
        if (k == 2) { f.k = Formula::Not; f.sub.push_back(gen(c, depth - 1)); return f; }
        f.k = k == 3 ? Formula::And : k == 4 ? Formula::Or : k == 5 ? Formula::Eq : Formula::Ne;
        f.sub.push_back(gen(c, depth - 1)); f.sub.push_back(gen(c, depth - 1));
        return f;
    }
};
std::string text(const Formula &f) {
    switch (f.k) {
        case Formula::Atom: return ATOMS[f.atom];
        case Formula::True: return "TRUE";
        case Formula::False: return "FALSE";
        case Formula::Not: return "(NOT " + text(f.sub[0]) + ")";
        default: return "(" + text(f.sub[0]) + (f.k == Formula::And ? " AND " : f.k == Formula::Or ? " OR " : f.k == Formula::Eq ? " = " : " != ") + text(f.sub[1]) + ")";
    }
}

struct Bool {
    std::ostringstream out, err; m::Diagnostic diag{false, out, err};
    Bool() {
        m::Catalog::Clear();
        auto &C = m::Catalog::Get();
        auto &db = C.add_database(C.pool("db")); C.set_database_in_use(db);
        auto stmt = m::statement_from_string(diag, "CREATE TABLE t ( p BOOL, q BOOL, r BOOL NOT NULL, a INT(4), b INT(4), s CHAR(3) );");
        m::execute_statement(diag, *stmt, false);
        C.timer().clear();
    }
    std::unique_ptr<m::ast::Stmt> select(const std::string &where) { return m::statement_from_string(diag, "SELECT 1 FROM t WHERE " + where + ";"); }
    static const m::ast::Expr & where(const m::ast::Stmt &s) { return *m::as<const m::ast::WhereClause>(*m::as<const m::ast::SelectStmt>(s).where).where; }
};
/// Evaluates the expression of a predicate, an atom or a constant.
Tri eval(Case &c, const m::ast::Expr &e, const std::vector<Tri> &v) {
    std::string s = VP_STR(e);
    for (size_t p; (p = s.find("t.")) != std::string::npos;) s.erase(p, 2);
    if (s == "TRUE") return T;
    if (s == "FALSE") return F;
    for (size_t i = 0; i != ATOMS.size(); ++i) if (ATOMS[i] == s) return v[i];
    c.fail("atom", "a predicate which is not a part of the formula: " + s);
    return U;
}
Tri eval(Case &c, const m::cnf::Predicate &p, const std::vector<Tri> &v) { auto r = eval(c, p.expr(), v); return p.negative() ? tnot(r) : r; }
Tri eval(Case &c, const m::cnf::Clause &cl, const std::vector<Tri> &v) { Tri r = F; for (auto &p : cl) r = tor(r, eval(c, p, v)); return r; }
Tri eval(Case &c, const m::cnf::CNF &f, const std::vector<Tri> &v) { Tri r = T; for (auto &cl : f) r = tand(r, eval(c, cl, v)); return r; }
/// Any expression over atoms.
Tri eval_expr(Case &c, const m::ast::Expr &e, const std::vector<Tri> &v) {
    if (auto u = m::cast<const m::ast::UnaryExpr>(&e); u and u->op().type == m::TK_Not) return tnot(eval_expr(c, *u->expr, v));
    if (auto b = m::cast<const m::ast::BinaryExpr>(&e); b and (b->op() == m::TK_And or b->op() == m::TK_Or)) { auto l = eval_expr(c, *b->lhs, v), r = eval_expr(c, *b->rhs, v); return b->op() == m::TK_And ? tand(l, r) : tor(l, r); }
    return eval(c, e, v);
}

template<typename Fn> void for_all(const std::vector<int> &used, Fn &&fn) {
    std::vector<Tri> v(ATOMS.size(), U);
    size_t n = 1; for (size_t i = 0; i != used.size(); ++i) n *= 3;
    for (size_t k = 0; k != n; ++k) { size_t x = k; for (int a : used) { v[a] = Tri(x % 3); x /= 3; } fn(v); }
}
std::string show(const std::vector<int> &used, const std::vector<Tri> &v) { std::string s; for (int a : used) s += ATOMS[a] + "=" + "FUT"[v[a]] + " "; return s; }

VP_PROP("C04", "conversion", 10000, 120000) {
    Bool B; Sources S;
    auto f = S.gen(c, unsigned(1 + c.draw(3)));
    auto sz = f.size(); if (sz.first > 5000) c.discard();
    const std::string s = text(f);
    c.log() << s << "\n";
    c.nontrivial(S.used.size() > 1 and not f.sub.empty());
    auto stmt = B.select(s);
    const auto &e = Bool::where(*stmt);
    auto cnf = m::cnf::to_CNF(e);
    c.label(cnf.size() == 1 ? "one clause" : cnf.size() < 5 ? "2-4 clauses" : "5 or more clauses");
    for_all(S.used, [&](auto &v) { VP_REQUIRE(c, eval(c, cnf, v) == f.eval(v), "to_CNF", "the normal form " << cnf << "\nis " << int(eval(c, cnf, v)) << " instead of " << int(f.eval(v)) << " for " << show(S.used, v)); });
    auto cnf2 = m::cnf::to_CNF(e);
    for_all(S.used, [&](auto &v) { VP_REQUIRE(c, eval(c, cnf2, v) == f.eval(v), "again", "for " << show(S.used, v)); });
    VP_REQUIRE(c, cnf <= cnf2 and cnf == cnf2 and not (cnf != cnf2), "equal", "two conversions of one expression differ");
    // as SQL
    std::ostringstream os; cnf.to_sql(os);
    if (os.str().size() < 4000) {
        c.log() << os.str() << "\n";
        std::unique_ptr<m::ast::Stmt> st2;
        try { st2 = B.select(os.str()); } catch (m::frontend_exception&) { c.fail("to_sql", "not an expression: " + os.str() + "\n" + B.err.str()); }
        const auto &e2 = Bool::where(*st2);
        for_all(S.used, [&](auto &v) { VP_REQUIRE(c, eval_expr(c, e2, v) == f.eval(v), "to_sql", os.str() << "\nparsed as " << e2 << " for " << show(S.used, v)); });
    }
    // whether it is NULL for some row, where `r` is never NULL
    if (not cnf.can_be_null()) {
        c.label("never NULL");
        for_all(S.used, [&](auto &v) { if (v[2] != U and v[6] != U) VP_REQUIRE(c, f.eval(v) != U, "can_be_null", "may be NULL: " << show(S.used, v)); });
    }
    os.str(""); os << cnf; for (auto &cl : cnf) { os << cl; for (auto &p : cl) os << p; }
    // what is needed to evaluate it
    auto req = cnf.get_required(); auto need = e.get_required();
    VP_REQUIRE(c, req.num_entries() <= need.num_entries(), "required", "more attributes required than by the expression");
}

VP_PROP("C04", "operations", 10000, 120000) {
    Bool B; Sources S;
    std::vector<std::unique_ptr<m::ast::Stmt>> keep;
    auto gen = [&]() -> m::cnf::CNF {
        switch (c.weighted({8, 1, 1})) {
            case 1: return {};
            case 2: return {m::cnf::Clause()};
            default: break;
        }
        for (;;) {
            auto f = S.gen(c, unsigned(c.draw(2)));
            if (f.size().first > 20 or f.size().second > 20) continue;
            keep.push_back(B.select(text(f)));
            return m::cnf::to_CNF(Bool::where(*keep.back()));
        }
    };
    m::cnf::CNF a = gen(), b = gen();
    c.log() << a << "   and   " << b << (b.empty() ? "" : b[0].empty() ? " FALSE" : "") << "\n";
    c.nontrivial(a.size() + b.size() > 1);
    auto A = [&](const m::cnf::CNF &x, auto &v) { return eval(c, x, v); };
    auto con = a and b; auto dis = a or b;
    m::cnf::CNF neg; bool has_neg = false;
    { double n = 1; for (auto &cl : a) n *= double(cl.size()); if (n < 2000) { neg = not a; has_neg = true; } }
    for_all(S.used, [&](auto &v) {
        VP_REQUIRE(c, A(con, v) == tand(A(a, v), A(b, v)), "and", con << " for " << show(S.used, v));
        VP_REQUIRE(c, A(dis, v) == tor(A(a, v), A(b, v)), "or", dis << " for " << show(S.used, v));
        if (has_neg) VP_REQUIRE(c, A(neg, v) == tnot(A(a, v)), "not", neg << " for " << show(S.used, v));
    });
    if (not a.empty() and not b.empty()) {
        const auto &x = a[c.draw(a.size() - 1)], &y = b[c.draw(b.size() - 1)];
        auto o = x or y; auto n = x and y; auto neg = not x;
        for_all(S.used, [&](auto &v) {
            VP_REQUIRE(c, eval(c, o, v) == tor(eval(c, x, v), eval(c, y, v)), "clause or", o);
            VP_REQUIRE(c, eval(c, n, v) == tand(eval(c, x, v), eval(c, y, v)), "clause and", n);
            VP_REQUIRE(c, eval(c, neg, v) == tnot(eval(c, x, v)), "clause not", neg);
        });
        VP_REQUIRE(c, x <= o and y <= o and o >= x, "clause order", "a clause is not below the disjunction with it");
        if (x <= y) { c.label("clause below another"); for_all(S.used, [&](auto &v) { VP_REQUIRE(c, eval(c, x, v) <= eval(c, y, v), "clause order", x << " does not imply " << y); }); }
        VP_REQUIRE(c, (x == y) == (x <= y and y <= x), "clause equal", "");
        if (not x.empty()) { auto p = x[c.draw(x.size() - 1)]; VP_REQUIRE(c, !!p == p and !p != p and (!p).negative() != p.negative(), "predicate", "negation of " << p); }
    }
    VP_REQUIRE(c, a <= con and b <= con and con >= a, "order", "a formula is not below the conjunction with it");
    if (a <= b) { c.label("formula below another"); for_all(S.used, [&](auto &v) { VP_REQUIRE(c, A(b, v) <= A(a, v), "order", a << " does not follow from " << b); }); }
    VP_REQUIRE(c, (a == b) == (a <= b and b <= a), "equal", "");
}

}
