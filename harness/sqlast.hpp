// Canonical descriptions (S-expressions) of syntax trees of the library, and a generator of statements with their descriptions.
#pragma once
#include "engine.hpp"
#include "lex/Lexer.hpp"
#include "parse/ASTPrinter.hpp"
#include "parse/Parser.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/Type.hpp>
#include <mutable/parse/AST.hpp>
#include <mutable/util/Diagnostic.hpp>
#include <sstream>

namespace ast {

using vp::Case;

inline std::string text(const m::ast::Token &t) { return t.text.has_value() ? std::string(*t.text) : std::string("-"); }

inline std::string type_str(const m::Type *t) {
    if (t->is_error()) return "ERROR";
    if (t->is_boolean()) return "BOOL";
    if (t->is_date()) return "DATE";
    if (t->is_date_time()) return "DATETIME";
    if (auto cs = m::cast<const m::CharacterSequence>(t)) return VP_STR((cs->is_varying ? "VARCHAR " : "CHAR ") << cs->length);
    if (auto n = m::cast<const m::Numeric>(t)) {
        switch (n->kind) {
            case m::Numeric::N_Int: return VP_STR("INT " << n->precision);
            case m::Numeric::N_Decimal: return VP_STR("DECIMAL " << n->precision << ' ' << n->scale);
            case m::Numeric::N_Float: return n->precision == 32 ? "FLOAT" : "DOUBLE";
        }
    }
    return "?";
}

struct Dump : m::ast::ConstASTVisitor
{
    std::ostream &out;
    explicit Dump(std::ostream &out) : out(out) { }
    using ConstASTVisitor::operator();
    template<typename T> void opt(const char *name, const std::unique_ptr<T> &p) { if (p) { out << ' '; (*this)(*p); } (void) name; }
    void id(const char *name, const m::ast::Token &t) { if (t.text.has_value()) out << " (" << name << ' ' << text(t) << ')'; }

    void operator()(Const<m::ast::ErrorExpr>&) override { out << "(error-expr)"; }
    void operator()(Const<m::ast::Designator> &e) override {
        out << "(d " << (e.has_explicit_table_name() ? text(e.table_name) + " " : "") << text(e.attr_name) << ')';
    }
    void operator()(Const<m::ast::Constant> &e) override { out << "(c " << text(e.tok) << ')'; }
    void operator()(Const<m::ast::FnApplicationExpr> &e) override {
        out << "(fn "; (*this)(*e.fn);
        for (auto &a : e.args) { out << ' '; (*this)(*a); }
        out << ')';
    }
    void operator()(Const<m::ast::UnaryExpr> &e) override { out << "(un " << text(e.op()) << ' '; (*this)(*e.expr); out << ')'; }
    void operator()(Const<m::ast::BinaryExpr> &e) override { out << "(bin " << text(e.op()) << ' '; (*this)(*e.lhs); out << ' '; (*this)(*e.rhs); out << ')'; }
    void operator()(Const<m::ast::QueryExpr> &e) override { out << "(q "; (*this)(*e.query); out << ')'; }

    void operator()(Const<m::ast::ErrorClause>&) override { out << "(error-clause)"; }
    void operator()(Const<m::ast::SelectClause> &c) override {
        out << "(select";
        if (c.select_all) out << " *";
        for (auto &s : c.select) { out << " ("; (*this)(*s.first); id("as", s.second); out << ')'; }
        out << ')';
    }
    void operator()(Const<m::ast::FromClause> &c) override {
        out << "(from";
        for (auto &f : c.from) {
            out << " (";
            if (auto tok = std::get_if<m::ast::Token>(&f.source)) out << text(*tok);
            else (*this)(*std::get<m::ast::Stmt*>(f.source));
            id("as", f.alias); out << ')';
        }
        out << ')';
    }
    void operator()(Const<m::ast::WhereClause> &c) override { out << "(where "; (*this)(*c.where); out << ')'; }
    void operator()(Const<m::ast::GroupByClause> &c) override {
        out << "(group-by"; for (auto &g : c.group_by) { out << " ("; (*this)(*g.first); id("as", g.second); out << ')'; } out << ')';
    }
    void operator()(Const<m::ast::HavingClause> &c) override { out << "(having "; (*this)(*c.having); out << ')'; }
    void operator()(Const<m::ast::OrderByClause> &c) override {
        out << "(order-by"; for (auto &o : c.order_by) { out << " (" << (o.second ? "asc " : "desc "); (*this)(*o.first); out << ')'; } out << ')';
    }
    void operator()(Const<m::ast::LimitClause> &c) override { out << "(limit " << text(c.limit); id("offset", c.offset); out << ')'; }

    void operator()(Const<m::ast::PrimaryKeyConstraint>&) override { out << " primary-key"; }
    void operator()(Const<m::ast::UniqueConstraint>&) override { out << " unique"; }
    void operator()(Const<m::ast::NotNullConstraint>&) override { out << " not-null"; }
    void operator()(Const<m::ast::CheckConditionConstraint> &c) override { out << " (check "; (*this)(*c.cond); out << ')'; }
    void operator()(Const<m::ast::ReferenceConstraint> &c) override { out << " (references " << text(c.table_name) << ' ' << text(c.attr_name) << ')'; }

    void operator()(Const<m::ast::Instruction> &i) override {
        out << "(instruction " << *i.name; for (auto &a : i.args) out << " [" << a << ']'; out << ')';
    }
    void operator()(Const<m::ast::ErrorStmt>&) override { out << "(error-stmt)"; }
    void operator()(Const<m::ast::EmptyStmt>&) override { out << "(empty)"; }
    void operator()(Const<m::ast::CreateDatabaseStmt> &s) override { out << "(create-database " << text(s.database_name) << ')'; }
    void operator()(Const<m::ast::DropDatabaseStmt> &s) override { out << "(drop-database " << (s.has_if_exists ? "if-exists " : "") << text(s.database_name) << ')'; }
    void operator()(Const<m::ast::UseDatabaseStmt> &s) override { out << "(use " << text(s.database_name) << ')'; }
    void operator()(Const<m::ast::CreateTableStmt> &s) override {
        out << "(create-table " << text(s.table_name);
        for (auto &a : s.attributes) {
            out << " (" << text(a->name) << ' ' << type_str(a->type);
            for (auto &c : a->constraints) (*this)(*c);
            out << ')';
        }
        out << ')';
    }
    void operator()(Const<m::ast::DropTableStmt> &s) override {
        out << "(drop-table" << (s.has_if_exists ? " if-exists" : ""); for (auto &t : s.table_names) out << ' ' << text(*t); out << ')';
    }
    void operator()(Const<m::ast::CreateIndexStmt> &s) override {
        out << "(create-index" << (s.has_unique.text.has_value() ? " unique" : "") << (s.has_if_not_exists ? " if-not-exists" : "");
        id("name", s.index_name); id("on", s.table_name); id("using", s.method);
        for (auto &k : s.key_fields) { out << ' '; (*this)(*k); }
        out << ')';
    }
    void operator()(Const<m::ast::DropIndexStmt> &s) override {
        out << "(drop-index" << (s.has_if_exists ? " if-exists" : ""); for (auto &t : s.index_names) out << ' ' << text(*t); out << ')';
    }
    void operator()(Const<m::ast::SelectStmt> &s) override {
        out << "(stmt"; opt("", s.select); opt("", s.from); opt("", s.where); opt("", s.group_by); opt("", s.having); opt("", s.order_by); opt("", s.limit); out << ')';
    }
    void operator()(Const<m::ast::InsertStmt> &s) override {
        out << "(insert " << text(s.table_name);
        for (auto &t : s.tuples) {
            out << " (tuple";
            for (auto &e : t) { out << ' '; if (e.first == m::ast::InsertStmt::I_Default) out << "default"; else if (e.first == m::ast::InsertStmt::I_Null) out << "(c NULL)"; else (*this)(*e.second); }
            out << ')';
        }
        out << ')';
    }
    void operator()(Const<m::ast::UpdateStmt> &s) override {
        out << "(update " << text(s.table_name);
        for (auto &x : s.set) { out << " (" << text(x.first) << ' '; (*this)(*x.second); out << ')'; }
        opt("", s.where); out << ')';
    }
    void operator()(Const<m::ast::DeleteStmt> &s) override { out << "(delete " << text(s.table_name); opt("", s.where); out << ')'; }
    void operator()(Const<m::ast::DSVImportStmt> &s) override {
        out << "(import " << text(s.table_name); id("path", s.path); id("rows", s.rows); id("delimiter", s.delimiter); id("escape", s.escape); id("quote", s.quote);
        out << (s.has_header ? " has-header" : "") << (s.skip_header ? " skip-header" : "") << ')';
    }
};

template<typename T> std::string dump(const T &t) { std::ostringstream os; Dump d(os); d(t); return os.str(); }

/*----- Generator ------------------------------------------------------------------------------------------------------*/
enum Prec { P_OR = 1, P_AND, P_NOT, P_CMP, P_CAT, P_ADD, P_MUL, P_UN, P_POST };

/// Emits the tokens of a statement and returns its description.
struct Gen
{
    Case &c;
    std::vector<std::string> t;  ///< tokens
    unsigned budget = 60;        ///< on expressions
    bool queries = true;
    bool rich = true;            ///< many names and literals

    explicit Gen(Case &c) : c(c) { }

    void emit(const std::string &s) { t.push_back(s); }
    std::string name() {
        static const std::vector<std::string> N{"a", "b", "R", "x", "t1", "_", "d", "select", "Where", "null", "COUNT", "SUM", "d1", "DATES", "IN", "e1", "x0F", "__", "ORDERS"};
        if (not rich) return N[c.draw(2)];
        if (c.chance(1, 12)) {
            std::string s; static const char A[] = "abcxyzABXYZ_"; s += A[c.draw(sizeof A - 2)];
            for (size_t k = c.size(20); k; --k) { static const char B[] = "azAZ_019d"; s += B[c.draw(sizeof B - 2)]; }
            return s;
        }
        return c.pick(N);
    }
    std::string digits(size_t n) { std::string s; for (; n; --n) s += char('0' + c.draw(9)); return s; }
    std::string dec_int() { std::string s; s += char('1' + c.draw(8)); if (c.chance(1, 3)) s += digits(c.size(17)); return s; }
    std::string integer() {
        switch (c.weighted({5, 2, 1, 1})) {
            case 0: return dec_int();
            case 1: return "0";
            case 2: { std::string s = "0"; for (size_t k = c.draw(6); k; --k) s += char('0' + c.draw(7)); return s; }
            default: { std::string s = c.coin() ? "0x" : "0X"; static const char H[] = "0123456789abcdefABCDEF"; for (size_t k = 1 + c.draw(7); k; --k) s += H[c.draw(21)]; return s; }
        }
    }
    std::string string_lit(size_t max = 12) {
        std::string s = "\"";
        for (size_t k = c.size(max); k; --k) {
            switch (c.weighted({6, 2, 2, 1})) {
                case 0: s += char('a' + c.draw(25)); break;
                case 1: s += c.oneof<const char*>({"\\\"", "\\\\", "\\n", "\\t"}); break;
                case 2: s += c.oneof<char>({' ', '%', '_', '\'', ';', '-', '(', '\t', '.'}); break;
                case 3: { char ch = char(1 + c.draw(254)); if (ch == '"' or ch == '\\') ch = '#'; s += ch; break; }
            }
        }
        return s + "\"";
    }
    std::string date() {
        auto two = [&](unsigned lo, unsigned hi) { char b[8]; snprintf(b, sizeof b, "%02u", unsigned(c.range(lo, hi))); return std::string(b); };
        std::string s = "d'"; if (c.chance(1, 5)) s += '-';
        s += digits(4) + "-" + two(1, 12) + "-" + two(1, 28);
        if (c.coin()) s += " " + two(0, 23) + ":" + two(0, 59) + ":" + two(0, 59);
        return s + "'";
    }
    std::string literal() {
        if (not rich) return c.oneof<const char*>({"1", "2", "\"a\"", "TRUE", "1.", "NULL"});
        switch (c.weighted({5, 3, 2, 2, 2, 1})) {
            case 0: return integer();
            case 1: return string_lit();
            case 2: return c.oneof<const char*>({"TRUE", "FALSE", "NULL"});
            case 3: {
                std::string s;
                switch (c.draw(3)) {
                    case 0: s = dec_int() + "."; break;
                    case 1: s = "." + digits(1 + c.draw(3)); break;
                    case 2: s = digits(1 + c.draw(2)) + "." + digits(c.draw(3)); break;
                    default: return digits(1 + c.draw(2)) + c.oneof<const char*>({"e", "E"}) + c.oneof<const char*>({"", "+", "-"}) + digits(1 + c.draw(1));
                }
                if (c.chance(1, 3)) s += std::string(c.oneof<const char*>({"e", "E"})) + c.oneof<const char*>({"", "+", "-"}) + digits(1 + c.draw(1));
                return s;
            }
            case 4: return date();
            default: return c.oneof<const char*>({"0x1.8p3", "0x.8", "0x1.", "0x1p-2", "0XA.bP+1"});
        }
    }

    std::string designator() {
        if (c.chance(1, 3)) { auto a = name(), b = name(); emit(a); emit("."); emit(b); return "(d " + a + " " + b + ")"; }
        auto a = name(); emit(a); return "(d " + a + ")";
    }
    std::string constant() { auto s = literal(); emit(s); return "(c " + s + ")"; }

    std::string expr(unsigned depth, int pmin = 0) {
        if (budget) --budget; else depth = 0;
        if (c.chance(1, 8)) { emit("("); auto s = expr(depth, 0); emit(")"); return s; }
        if (depth == 0) return c.coin() ? constant() : designator();
        switch (c.weighted({3, 2, 8, 3, 2, queries ? 1u : 0u})) {
            case 0: return designator();
            case 1: return constant();
            case 2: {
                struct Op { const char *text; int p; };
                static const Op ops[] = {{"+", P_ADD}, {"-", P_ADD}, {"*", P_MUL}, {"/", P_MUL}, {"%", P_MUL}, {"..", P_CAT}, {"=", P_CMP}, {"!=", P_CMP}, {"<", P_CMP},
                                         {">", P_CMP}, {"<=", P_CMP}, {">=", P_CMP}, {"LIKE", P_CMP}, {"AND", P_AND}, {"OR", P_OR}};
                const auto op = ops[c.draw(rich ? 14 : 3)];
                const bool par = op.p < pmin; if (par) emit("(");
                auto l = expr(depth - 1, op.p == P_CMP ? P_CMP + 1 : op.p); // chains of comparisons are not part of the language
                emit(op.text);
                auto r = expr(depth - 1, op.p + 1);
                if (par) emit(")");
                return std::string("(bin ") + op.text + " " + l + " " + r + ")";
            }
            case 3: {
                const bool neg = c.coin();
                const int p = neg ? P_NOT : P_UN;
                const bool par = p < pmin; if (par) emit("(");
                std::string op = neg ? "NOT" : c.oneof<const char*>({"-", "+", "~"});
                emit(op);
                auto e = expr(depth - 1, neg ? P_NOT : P_POST);
                if (par) emit(")");
                return "(un " + op + " " + e + ")";
            }
            case 4: {
                std::string f;
                if (c.chance(1, 6)) { emit("("); f = expr(depth - 1, 0); emit(")"); }
                else if (c.chance(1, 8)) f = constant();
                else f = designator();
                for (;;) {
                    emit("(");
                    std::string args;
                    if (c.chance(1, 6)) { if (c.coin()) emit("*"); }
                    else for (size_t n = c.weighted({6, 2, 1}), i = 0; i <= n; ++i) { if (i) emit(","); args += " " + expr(depth - 1, 0); }
                    emit(")");
                    f = "(fn " + f + args + ")";
                    if (not c.chance(1, 10)) return f;
                }
            }
            default: {
                emit("("); auto s = select(depth > 2 ? 1 : 0); emit(")");
                return "(q " + s + ")";
            }
        }
    }

    /// An optional alias.
    std::string alias(bool bare = true) {
        if (c.coin()) return "";
        if (not bare or c.coin()) emit("AS");
        auto n = name(); emit(n); return " (as " + n + ")";
    }
    std::string select(unsigned depth) {
        std::string s = "(stmt (select";
        emit("SELECT");
        bool first = true;
        if (c.chance(1, 4)) { emit("*"); s += " *"; first = false; }
        for (size_t n = first ? 1 + c.size(3) : c.draw(2); n; --n) {
            if (not first) emit(","); first = false;
            s += " (" + expr(depth); s += alias() + ")";
        }
        s += ")";
        if (c.chance(3, 4)) {
            emit("FROM"); s += " (from";
            for (size_t n = c.draw(2), i = 0; i <= n; ++i) {
                if (i) emit(",");
                if (depth and queries and c.chance(1, 4)) {
                    emit("("); auto q = select(depth - 1); emit(")");
                    if (c.coin()) emit("AS");
                    auto a = name(); emit(a); s += " (" + q + " (as " + a + "))";
                } else { auto n = name(); emit(n); s += " (" + n; s += alias() + ")"; }
            }
            s += ")";
        }
        if (c.chance(1, 3)) { emit("WHERE"); s += " (where "; s += expr(depth) + ")"; }
        if (c.chance(1, 4)) {
            emit("GROUP"); emit("BY"); s += " (group-by";
            for (size_t n = c.draw(2), i = 0; i <= n; ++i) { if (i) emit(","); s += " (" + expr(depth); s += alias(false) + ")"; }
            s += ")";
        }
        if (c.chance(1, 4)) { emit("HAVING"); s += " (having "; s += expr(depth) + ")"; }
        if (c.chance(1, 4)) {
            emit("ORDER"); emit("BY"); s += " (order-by";
            for (size_t n = c.draw(2), i = 0; i <= n; ++i) {
                if (i) emit(",");
                auto e = expr(depth);
                const unsigned dir = unsigned(c.draw(2)); if (dir) emit(dir == 1 ? "ASC" : "DESC");
                s += (dir == 2 ? " (desc " : " (asc ") + e + ")";
            }
            s += ")";
        }
        if (c.chance(1, 4)) {
            emit("LIMIT"); auto l = integer(); emit(l); s += " (limit " + l;
            if (c.coin()) { emit("OFFSET"); auto o = integer(); emit(o); s += " (offset " + o + ")"; }
            s += ")";
        }
        return s + ")";
    }
    std::string type() {
        switch (c.draw(8)) {
            case 0: { emit("INT"); emit("("); auto n = c.oneof<const char*>({"4", "1", "2", "8"}); emit(n); emit(")"); return std::string("INT ") + n; }
            case 1: emit("BOOL"); return "BOOL";
            case 2: emit("DATE"); return "DATE";
            case 3: emit("DATETIME"); return "DATETIME";
            case 4: emit("FLOAT"); return "FLOAT";
            case 5: emit("DOUBLE"); return "DOUBLE";
            case 6: case 7: {
                const bool v = c.coin(); emit(v ? "VARCHAR" : "CHAR"); emit("(");
                auto n = std::to_string(1 + c.size(1000)); emit(n); emit(")"); return (v ? "VARCHAR " : "CHAR ") + n;
            }
            default: {
                emit("DECIMAL"); emit("("); auto p = 1 + c.draw(18); emit(std::to_string(p));
                uint64_t s = 0; if (c.coin()) { s = c.chance(1, 4) ? 0 : c.draw(p); emit(","); emit(std::to_string(s)); }
                emit(")"); return VP_STR("DECIMAL " << p << ' ' << s);
            }
        }
    }
    std::string names() { std::string s; for (size_t n = c.draw(2), i = 0; i <= n; ++i) { if (i) emit(","); auto a = name(); emit(a); s += " " + a; } return s; }
    std::string if_exists() { if (c.coin()) return ""; emit("IF"); emit("EXISTS"); return " if-exists"; }

    /// A command including its final semicolon.
    std::string command() {
        std::string s;
        switch (c.weighted({8, 1, 1, 1, 5, 1, 3, 1, 4, 2, 2, 3, 1, 1})) {
            case 0: s = select(unsigned(c.draw(3))); break;
            case 1: { emit("CREATE"); emit("DATABASE"); auto n = name(); emit(n); s = "(create-database " + n + ")"; break; }
            case 2: { emit("DROP"); emit("DATABASE"); s = "(drop-database" + if_exists(); auto n = name(); emit(n); s += " " + n + ")"; break; }
            case 3: { emit("USE"); auto n = name(); emit(n); s = "(use " + n + ")"; break; }
            case 4: {
                emit("CREATE"); emit("TABLE"); auto n = name(); emit(n); emit("("); s = "(create-table " + n;
                for (size_t k = c.draw(3), i = 0; i <= k; ++i) {
                    if (i) emit(",");
                    auto a = name(); emit(a); s += " (" + a + " " + type();
                    for (size_t r = c.weighted({4, 3, 1}); r; --r) {
                        switch (c.draw(4)) {
                            case 0: emit("PRIMARY"); emit("KEY"); s += " primary-key"; break;
                            case 1: emit("NOT"); emit("NULL"); s += " not-null"; break;
                            case 2: emit("UNIQUE"); s += " unique"; break;
                            case 3: { emit("CHECK"); emit("("); s += " (check " + expr(2); s += ")"; emit(")"); break; }
                            case 4: { emit("REFERENCES"); auto t = name(), x = name(); emit(t); emit("("); emit(x); emit(")"); s += " (references " + t + " " + x + ")"; break; }
                        }
                    }
                    s += ")";
                }
                emit(")"); s += ")"; break;
            }
            case 5: { emit("DROP"); emit("TABLE"); s = "(drop-table" + if_exists(); s += names() + ")"; break; }
            case 6: {
                emit("CREATE"); s = "(create-index"; if (c.coin()) { emit("UNIQUE"); s += " unique"; }
                emit("INDEX");
                switch (c.draw(2)) {
                    case 0: break;
                    case 1: { auto n = name(); emit(n); s += " (name " + n + ")"; break; }
                    case 2: { emit("IF"); emit("NOT"); emit("EXISTS"); auto n = name(); emit(n); s += " if-not-exists (name " + n + ")"; break; }
                }
                emit("ON"); auto n = name(); emit(n); s += " (on " + n + ")";
                if (c.coin()) { emit("USING"); auto u = c.chance(1, 3) ? "DEFAULT" : name(); emit(u); s += " (using " + u + ")"; }
                emit("(");
                for (size_t k = c.draw(2), i = 0; i <= k; ++i) {
                    if (i) emit(",");
                    if (c.coin()) { auto a = name(); emit(a); s += " (d " + a + ")"; }
                    else { emit("("); s += " " + expr(2); emit(")"); }
                }
                emit(")"); s += ")"; break;
            }
            case 7: { emit("DROP"); emit("INDEX"); s = "(drop-index" + if_exists(); s += names() + ")"; break; }
            case 8: {
                emit("INSERT"); emit("INTO"); auto n = name(); emit(n); emit("VALUES"); s = "(insert " + n;
                for (size_t k = c.draw(2), i = 0; i <= k; ++i) {
                    if (i) emit(","); emit("("); s += " (tuple";
                    for (size_t q = c.draw(3), j = 0; j <= q; ++j) {
                        if (j) emit(",");
                        switch (c.weighted({4, 1, 1})) {
                            case 0: {
                                const size_t at = t.size();
                                auto e = expr(2);
                                if (t[at] == "NULL") { t[at] = "TRUE"; auto p = e.find("(c NULL)"); e.replace(p, 8, "(c TRUE)"); } // `NULL` ends the expression
                                s += " " + e; break;
                            }
                            case 1: emit("DEFAULT"); s += " default"; break;
                            case 2: emit("NULL"); s += " (c NULL)"; break;
                        }
                    }
                    emit(")"); s += ")";
                }
                s += ")"; break;
            }
            case 9: {
                emit("UPDATE"); auto n = name(); emit(n); emit("SET"); s = "(update " + n;
                for (size_t k = c.draw(2), i = 0; i <= k; ++i) { if (i) emit(","); auto a = name(); emit(a); emit("="); s += " (" + a + " " + expr(2); s += ")"; }
                if (c.coin()) { emit("WHERE"); s += " (where " + expr(2); s += ")"; }
                s += ")"; break;
            }
            case 10: {
                emit("DELETE"); emit("FROM"); auto n = name(); emit(n); s = "(delete " + n;
                if (c.coin()) { emit("WHERE"); s += " (where " + expr(2); s += ")"; }
                s += ")"; break;
            }
            case 11: {
                emit("IMPORT"); emit("INTO"); auto n = name(); emit(n); emit("DSV"); auto p = string_lit(); emit(p); s = "(import " + n + " (path " + p + ")";
                if (c.coin()) { emit("ROWS"); auto r = integer(); emit(r); s += " (rows " + r + ")"; }
                auto opt = [&](const char *kw, const char *nm, bool on) { if (on and c.coin()) { emit(kw); auto x = string_lit(2); emit(x); s += std::string(" (") + nm + " " + x + ")"; } };
                opt("DELIMITER", "delimiter", true); opt("ESCAPE", "escape", true); opt("QUOTE", "quote", true);
                if (c.coin()) { emit("HAS"); emit("HEADER"); s += " has-header"; }
                if (c.coin()) { emit("SKIP"); emit("HEADER"); s += " skip-header"; }
                s += ")"; break;
            }
            case 12: s = "(empty)"; break;
            default: {
                std::string x = "\\", nm;
                nm = name(); x += nm; s = "(instruction " + nm;
                for (size_t k = c.draw(3); k; --k) {
                    x += c.oneof<const char*>({" ", "  ", "\n", " \n "});
                    std::string a = c.oneof<const char*>({"x", "/tmp/y.sql", "--z", "\"q", "1.5"}); x += a; s += " [" + a + "]";
                }
                if (c.coin()) x += " ";
                emit(x); s += ")"; break;
            }
        }
        emit(";");
        return s;
    }
};

/// Are two neighbouring tokens told apart without white space between them?
inline bool glue_ok(const std::string &a, const std::string &b) {
    if (a.empty() or b.empty()) return true;
    auto word = [](unsigned char ch) { return isalnum(ch) or ch == '_' or ch == '.'; };
    if (a[0] == '\\') return b == ";"; // an instruction extends up to the semicolon
    if (word(a.back()) and word(b[0])) return false;
    if (word(a[0]) and (b[0] == '+' or b[0] == '-' or b[0] == '\'' or b[0] == '.')) return false;
    if (a == "-" and b[0] == '-') return false;
    if ((a == "<" or a == ">" or a == "!") and b[0] == '=') return false;
    if (a == "." or a == "..") return not word(b[0]);
    return true;
}
/// Spells the tokens with generated white space and comments between them.
inline std::string spell(Case &c, const std::vector<std::string> &t, bool fancy = true) {
    std::string s;
    const bool plain = not fancy or c.coin();
    for (size_t i = 0; i != t.size(); ++i) {
        if (i) {
            const bool instr = t[i - 1][0] == '\\';
            if (plain) s += instr ? "" : " ";
            else if (instr) ;
            else if (glue_ok(t[i - 1], t[i]) and c.coin()) ;
            else switch (c.weighted({6, 1, 1, 1, 1})) {
                case 0: s += ' '; break;
                case 1: s += '\n'; break;
                case 2: s += " \t\r\v\f "; break;
                case 3: s += " -- comment ; \" '\n"; break;
                case 4: s += " --\n"; break;
            }
        }
        s += t[i];
    }
    return s;
}

inline std::string gen_bytes(Case &c) {
    std::string s;
    static const std::vector<std::string> W{"SELECT", "FROM", "d'2020-01-02'", "d'-0001-12-31 23:59:59'", "d'20-1-1'", "d'2020-01-0'", "d'2020-01-02 1:2:3'", "d'", "0x", "0x1F", "0x1.8p-3", "08", "08.5", "1e", "1e+", "1e5", "1.",
        ".5", "..", "1..2", "0.", "00x1", "--", "-", "!", "!=", "<=", "\"abc\"", "\"a\\\"b\"", "\"a\\x\"", "\"", "\\i foo", "\\", ";", "_a1", "d", "dx", "\n", "\t", " ", "\r\n", "(", "*", "~", "0", "07", "0X.p1", "0x.8", "1.e3", "é", "@", "'"};
    for (size_t n = 1 + c.size(24); n; --n) {
        switch (c.weighted({8, 3, 2, 1})) {
            case 0: s += c.pick(W); break;
            case 1: { static const char A[] = "0123456789.xXeEpPaF+-'d:\" \\;n"; s += A[c.draw(sizeof A - 2)]; break; }
            case 2: s += char(c.draw(255)); break;
            case 3: s += c.oneof<const char*>({" ", "\n"}); break;
        }
    }
    return s;
}

inline const std::vector<std::string> VOCAB{"SELECT", "FROM", "WHERE", "GROUP", "BY", "HAVING", "ORDER", "ASC", "DESC", "LIMIT", "OFFSET", "AS", "AND", "OR", "NOT", "NULL", "TRUE", "LIKE", "(", ")", ",", ";", ".", "..", "*", "+", "-", "~",
    "/", "%", "=", "!=", "<", ">=", "a", "b", "1", "0", "08", "1.5", "\"x\"", "\"", "d'2020-01-01'", "CREATE", "TABLE", "DATABASE", "INDEX", "UNIQUE", "DROP", "IF", "EXISTS", "USE", "INSERT", "INTO", "VALUES", "DEFAULT", "UPDATE", "SET",
    "DELETE", "IMPORT", "DSV", "ROWS", "DELIMITER", "ESCAPE", "QUOTE", "HAS", "SKIP", "HEADER", "PRIMARY", "KEY", "CHECK", "REFERENCES", "ON", "USING", "INT", "CHAR", "DECIMAL", "BOOL", "RESTRICT", "CASCADE", "0x1F", "@", "\\i x"};

inline std::string mutate(Case &c, Gen &g) {
    auto &t = g.t;
    for (size_t k = c.weighted({1, 6, 3, 1}); k; --k) {
        if (t.empty()) { t.push_back(c.pick(VOCAB)); continue; }
        const size_t at = c.draw(t.size() - 1);
        switch (c.draw(5)) {
            case 0: t.erase(t.begin() + at); break;
            case 1: t[at] = c.pick(VOCAB); break;
            case 2: t.insert(t.begin() + at, c.pick(VOCAB)); break;
            case 3: t.insert(t.begin() + at, t[c.draw(t.size() - 1)]); break;
            case 4: std::swap(t[at], t[c.draw(t.size() - 1)]); break;
            case 5: t.resize(at); break;
        }
    }
    return spell(c, t, false);
}

struct Front {
    std::ostringstream out, err; m::Diagnostic diag; std::istringstream in; m::ast::Lexer lexer; m::ast::Parser parser;
    explicit Front(const std::string &text) : diag(false, out, err), in(text), lexer(diag, m::Catalog::Get().get_pool(), "-", in), parser(lexer) { }
};

}
