// C07 printing, C08 lexer and parser.
#include "sqlast.hpp"
#include "parse/ASTDot.hpp"
#include "parse/ASTDumper.hpp"
#include "parse/Sema.hpp"
#include <algorithm>
#include <fstream>
#include <mutable/mutable.hpp>
#include <unistd.h>

using namespace ast;
using m::ast::Token;

namespace {

/*----- Reference lexer: the longest token of the language at each position -----------------------------------------------*/
struct Tok { std::string text; m::TokenType type; unsigned line, col; bool error = false; };

const std::map<std::string, m::TokenType> KEYWORDS = {
#define M_KEYWORD(tok, text) {#text, m::TK_##tok},
#include <mutable/tables/Keywords.tbl>
#undef M_KEYWORD
};

bool dig(int ch) { return ch >= '0' and ch <= '9'; }
bool oct(int ch) { return ch >= '0' and ch <= '7'; }
bool hex(int ch) { return dig(ch) or (ch >= 'a' and ch <= 'f') or (ch >= 'A' and ch <= 'F'); }
bool alpha(int ch) { return (ch >= 'a' and ch <= 'z') or (ch >= 'A' and ch <= 'Z'); }

std::vector<Tok> ref_lex(const std::string &s) {
    std::vector<Tok> out;
    size_t i = 0; unsigned line = 1, col = 1;
    auto at = [&](size_t k) -> int { return k < s.size() ? (unsigned char) s[k] : -1; };
    auto advance = [&](size_t n) { for (; n; --n, ++i) { if (s[i] == '\n') { ++line; col = 1; } else ++col; } };
    for (;;) {
        // white space and comments
        for (;;) {
            int ch = at(i);
            if (ch == ' ' or ch == '\t' or ch == '\v' or ch == '\f' or ch == '\n' or ch == '\r') advance(1);
            else if (ch == '-' and at(i + 1) == '-') { while (i < s.size() and s[i] != '\n') advance(1); }
            else break;
        }
        if (i >= s.size()) { out.push_back({"EOF", m::TK_EOF, line, col}); return out; }
        size_t n = 0; m::TokenType ty = m::TK_ERROR; bool err = false;
        const int ch = at(i), nx = at(i + 1);
        if (alpha(ch) or ch == '_') {
            if (ch == 'd' and nx == '\'') {
                // the longest prefix of a date or date time; bad if it is not a complete one
                static const std::string D = "dddd-dd-dd", T = " dd:dd:dd";
                n = 2; bool dt = false;
                if (at(i + n) == '-') ++n;
                auto match = [&](const std::string &pat, size_t from) { for (size_t k = from; k != pat.size(); ++k) {
                    if (pat[k] == 'd' ? dig(at(i + n)) : at(i + n) == (unsigned char) pat[k]) ++n; else err = true; } };
                match(D, 0);
                if (at(i + n) == ' ') { ++n; dt = true; match(T, 1); }
                if (at(i + n) == '\'') ++n; else err = true;
                ty = err ? m::TK_ERROR : dt ? m::TK_DATE_TIME : m::TK_DATE;
            } else {
                while (alpha(at(i + n)) or dig(at(i + n)) or at(i + n) == '_') ++n;
                auto it = KEYWORDS.find(s.substr(i, n)); ty = it == KEYWORDS.end() ? m::TK_IDENTIFIER : it->second;
            }
        } else if (dig(ch) or (ch == '.' and dig(nx))) {
            if (ch == '0' and (nx == 'x' or nx == 'X')) {
                n = 2; size_t digits = 0; bool fl = false;
                while (hex(at(i + n))) { ++n; ++digits; }
                if (at(i + n) == '.') { fl = true; ++n; while (hex(at(i + n))) { ++n; ++digits; } }
                err = digits == 0;
                if (at(i + n) == 'p' or at(i + n) == 'P') {
                    fl = true; ++n; if (at(i + n) == '+' or at(i + n) == '-') ++n;
                    size_t e = 0; while (dig(at(i + n))) { ++n; ++e; }
                    err |= e == 0;
                }
                ty = fl ? m::TK_HEX_FLOAT : m::TK_HEX_INT;
            } else {
                bool fl = false, all_oct = true;
                while (dig(at(i + n))) { all_oct &= oct(at(i + n)); ++n; }
                if (at(i + n) == '.') { fl = true; ++n; while (dig(at(i + n))) ++n; }
                if (at(i + n) == 'e' or at(i + n) == 'E') {
                    fl = true; ++n; if (at(i + n) == '+' or at(i + n) == '-') ++n;
                    size_t e = 0; while (dig(at(i + n))) { ++n; ++e; }
                    if (e == 0) err = true;
                }
                if (not fl and ch == '0' and not all_oct) err = true;
                ty = fl ? m::TK_DEC_FLOAT : ch == '0' ? m::TK_OCT_INT : m::TK_DEC_INT;
            }
            if (err) ty = m::TK_ERROR;
        } else if (ch == '"') {
            n = 1;
            while (at(i + n) != -1 and at(i + n) != '"') {
                if (at(i + n) == 0) err = true;
                if (at(i + n) == '\\') { ++n; int e = at(i + n); if (e == -1) break; if (e != '"' and e != '\\' and e != 'n' and e != 't') err = true; }
                ++n;
            }
            if (at(i + n) == '"') ++n; else err = true;
            ty = err ? m::TK_ERROR : m::TK_STRING_LITERAL;
        } else if (ch == '\\') {
            while (at(i + n) != -1 and at(i + n) != ';') ++n;
            ty = m::TK_INSTRUCTION;
        } else {
            static const std::map<std::string, m::TokenType> P = {{"(", m::TK_LPAR}, {")", m::TK_RPAR}, {"~", m::TK_TILDE}, {"+", m::TK_PLUS}, {"-", m::TK_MINUS}, {"*", m::TK_ASTERISK},
                {"/", m::TK_SLASH}, {"%", m::TK_PERCENT}, {"=", m::TK_EQUAL}, {"!=", m::TK_BANG_EQUAL}, {"<", m::TK_LESS}, {"<=", m::TK_LESS_EQUAL}, {">", m::TK_GREATER}, {">=", m::TK_GREATER_EQUAL},
                {",", m::TK_COMMA}, {";", m::TK_SEMICOL}, {".", m::TK_DOT}, {"..", m::TK_DOTDOT}};
            n = std::min<size_t>(2, s.size() - i); auto it = P.find(s.substr(i, n));
            if (it == P.end()) { it = P.find(s.substr(i, 1)); n = 1; }
            if (it == P.end()) err = true; else ty = it->second;
        }
        out.push_back({s.substr(i, n), ty, line, col, err});
        advance(n);
    }
}

void check_tokens(Case &c, const std::string &s, std::istream &in) {
    std::ostringstream out, err; m::Diagnostic diag(false, out, err);
    m::ast::Lexer lexer(diag, m::Catalog::Get().get_pool(), "-", in);
    auto want = ref_lex(s);
    unsigned errors = 0;
    for (size_t i = 0; i != want.size(); ++i) {
        auto &w = want[i];
        m::ast::Token t = lexer.next();
        std::string txt = w.text.substr(0, w.text.find('\0')); // NULs are only part of bad tokens and instructions
        errors += w.error;
        VP_REQUIRE(c, t.type == w.type and text(t) == txt, "token", "token " << i << " of " << vp::quote(s) << " is " << vp::quote(text(t)) << " of type " << m::get_name(t.type)
                   << " instead of " << vp::quote(txt) << " of type " << m::get_name(w.type));
        VP_REQUIRE(c, t.pos.line == w.line and t.pos.column == w.col, "position", "token " << i << " " << vp::quote(txt) << " of " << vp::quote(s) << " is at " << t.pos.line << ':' << t.pos.column
                   << " instead of " << w.line << ':' << w.col);
        VP_REQUIRE(c, diag.num_errors() == errors, "lex-errors", diag.num_errors() << " errors instead of " << errors << " after token " << i << " of " << vp::quote(s) << "\n" << err.str());
    }
    auto t = lexer.next();
    VP_REQUIRE(c, t.type == m::TK_EOF, "eof", "a token after the end of " << vp::quote(s));
    c.label_if(errors, "bad tokens"); c.label_if(not errors, "only good tokens");
    c.nontrivial(want.size() > 2);
}

VP_PROP("C08", "tokens", 40000, 400000) {
    const std::string s = gen_bytes(c);
    c.log() << vp::quote(s) << "\n";
    if (c.chance(1, 20)) { // from a file
        char path[] = "vp-lex-XXXXXX"; int fd = mkstemp(path); if (fd < 0) c.discard();
        { std::ofstream o(path, std::ios::binary); o << s; } close(fd);
        std::ifstream in(path, std::ios::binary);
        unlink(path);
        c.label("from a file");
        check_tokens(c, s, in);
    } else { std::istringstream in(s); check_tokens(c, s, in); }
}

/*----- Reference recogniser ---------------------------------------------------------------------------------------------*/
struct Reject { };

struct Rec {
    const std::vector<Tok> &t; size_t i = 0;
    bool unspec = false; ///< neither accepted nor rejected by the description of the language
    explicit Rec(const std::vector<Tok> &t) : t(t) { }
    m::TokenType cur(size_t k = 0) const { return t[std::min(i + k, t.size() - 1)].type; }
    bool acc(m::TokenType x) { if (cur() == x) { ++i; return true; } return false; }
    void exp(m::TokenType x) { if (not acc(x)) throw Reject{}; }
    bool is_int() const { return cur() == m::TK_DEC_INT or cur() == m::TK_OCT_INT or cur() == m::TK_HEX_INT; }
    void integer() { if (not is_int()) throw Reject{}; ++i; }

    void all() { while (cur() != m::TK_EOF) command(); }
    void command() {
        using namespace m;
        if (acc(TK_INSTRUCTION)) { exp(TK_SEMICOL); return; }
        switch (cur()) {
            case TK_SEMICOL: ++i; return;
            case TK_Create:
                ++i;
                if (acc(TK_Database)) exp(TK_IDENTIFIER);
                else if (acc(TK_Table)) create_table();
                else create_index();
                break;
            case TK_Drop: {
                ++i;
                const bool db = cur() == TK_Database;
                if (not db and cur() != TK_Table and cur() != TK_Index) throw Reject{};
                ++i;
                if (acc(TK_If)) exp(TK_Exists);
                do exp(TK_IDENTIFIER); while (not db and acc(TK_COMMA));
                break;
            }
            case TK_Use: ++i; exp(TK_IDENTIFIER); break;
            case TK_Select: select(); break;
            case TK_Insert:
                ++i; exp(TK_Into); exp(TK_IDENTIFIER); exp(TK_Values);
                do {
                    exp(TK_LPAR);
                    do {
                        if (acc(TK_Default)) { }
                        else if (acc(TK_Null)) { if (cur() != TK_COMMA and cur() != TK_RPAR) { unspec = true; throw Reject{}; } }
                        else expr();
                    } while (acc(TK_COMMA));
                    exp(TK_RPAR);
                } while (acc(TK_COMMA));
                break;
            case TK_Update:
                ++i; exp(TK_IDENTIFIER); exp(TK_Set);
                do { exp(TK_IDENTIFIER); exp(TK_EQUAL); expr(); } while (acc(TK_COMMA));
                if (acc(TK_Where)) expr();
                break;
            case TK_Delete: ++i; exp(TK_From); exp(TK_IDENTIFIER); if (acc(TK_Where)) expr(); break;
            case TK_Import:
                ++i; exp(TK_Into); exp(TK_IDENTIFIER); exp(TK_Dsv); exp(TK_STRING_LITERAL);
                if (acc(TK_Rows)) integer();
                if (acc(TK_Delimiter)) exp(TK_STRING_LITERAL);
                if (acc(TK_Escape)) exp(TK_STRING_LITERAL);
                if (acc(TK_Quote)) exp(TK_STRING_LITERAL);
                if (acc(TK_Has)) exp(TK_Header);
                if (acc(TK_Skip)) exp(TK_Header);
                break;
            default: throw Reject{};
        }
        exp(TK_SEMICOL);
    }
    void size() {
        exp(m::TK_DEC_INT);
        auto &s = t[i - 1].text;
        if (s.size() > 20 or (s.size() == 20 and s > "18446744073709551615")) throw Reject{};
        if (s.size() > 15) unspec = true; // sizes beyond any memory
    }
    void type() {
        using namespace m;
        switch (cur()) {
            case TK_Bool: case TK_Date: case TK_Datetime: case TK_Float: case TK_Double: ++i; break;
            case TK_Char: case TK_Varchar: case TK_Int: ++i; exp(TK_LPAR); size(); exp(TK_RPAR); break;
            case TK_Decimal: ++i; exp(TK_LPAR); size(); if (acc(TK_COMMA)) { if (cur() == TK_OCT_INT and t[i].text == "0") ++i; else size(); } exp(TK_RPAR); break;
            default: throw Reject{};
        }
    }
    void create_table() {
        using namespace m;
        exp(TK_IDENTIFIER); exp(TK_LPAR);
        do {
            exp(TK_IDENTIFIER); type();
            for (;;) {
                if (acc(TK_Primary)) exp(TK_Key);
                else if (acc(TK_Not)) exp(TK_Null);
                else if (acc(TK_Unique)) { }
                else if (acc(TK_Check)) { exp(TK_LPAR); expr(); exp(TK_RPAR); }
                else if (acc(TK_References)) { exp(TK_IDENTIFIER); exp(TK_LPAR); exp(TK_IDENTIFIER); exp(TK_RPAR); }
                else break;
            }
        } while (acc(TK_COMMA));
        exp(TK_RPAR);
    }
    void create_index() {
        using namespace m;
        acc(TK_Unique); exp(TK_Index);
        if (acc(TK_If)) { exp(TK_Not); exp(TK_Exists); exp(TK_IDENTIFIER); } else acc(TK_IDENTIFIER);
        exp(TK_On); exp(TK_IDENTIFIER);
        if (acc(TK_Using)) { if (not acc(TK_IDENTIFIER) and not acc(TK_Default)) throw Reject{}; }
        exp(TK_LPAR);
        do { if (acc(TK_IDENTIFIER)) continue; exp(TK_LPAR); expr(); exp(TK_RPAR); } while (acc(TK_COMMA));
        exp(TK_RPAR);
    }
    void select() {
        using namespace m;
        exp(TK_Select);
        bool star = acc(TK_ASTERISK);
        if (not star or cur() == TK_COMMA) do {
            if (star) { star = false; exp(TK_COMMA); }
            expr(); alias();
        } while (acc(TK_COMMA));
        if (acc(TK_From)) do {
            if (acc(TK_LPAR)) { select(); exp(TK_RPAR); acc(TK_As); exp(TK_IDENTIFIER); }
            else { exp(TK_IDENTIFIER); alias(); }
        } while (acc(TK_COMMA));
        if (acc(TK_Where)) expr();
        if (acc(TK_Group)) {
            exp(TK_By);
            do { expr(); if (acc(TK_As)) exp(TK_IDENTIFIER); else if (acc(TK_IDENTIFIER)) unspec = true; } while (acc(TK_COMMA));
        }
        if (acc(TK_Having)) expr();
        if (acc(TK_Order)) { exp(TK_By); do { expr(); if (not acc(TK_Descending)) acc(TK_Ascending); } while (acc(TK_COMMA)); }
        if (acc(TK_Limit)) { integer(); if (acc(TK_Offset)) integer(); }
    }
    void alias() { if (acc(m::TK_As)) exp(m::TK_IDENTIFIER); else acc(m::TK_IDENTIFIER); }

    static int prec(m::TokenType x) {
        using namespace m;
        switch (x) {
            case TK_Or: return P_OR; case TK_And: return P_AND;
            case TK_EQUAL: case TK_BANG_EQUAL: case TK_LESS: case TK_LESS_EQUAL: case TK_GREATER: case TK_GREATER_EQUAL: case TK_Like: return P_CMP;
            case TK_DOTDOT: return P_CAT; case TK_PLUS: case TK_MINUS: return P_ADD; case TK_ASTERISK: case TK_SLASH: case TK_PERCENT: return P_MUL;
            default: return 0;
        }
    }
    void expr(int min = P_OR) {
        using namespace m;
        if (min <= P_NOT and cur() == TK_Not) { ++i; expr(P_NOT); }
        else unary();
        bool cmp = false;
        for (;;) {
            int p = prec(cur());
            if (p < min or p == 0) return;
            if (p == P_CMP) { if (cmp) unspec = true; cmp = true; }
            ++i;
            if (cur() == TK_Not and p >= P_CMP) unspec = true, expr(P_NOT); else expr(p + 1);
        }
    }
    void unary() {
        using namespace m;
        if (cur() == TK_PLUS or cur() == TK_MINUS or cur() == TK_TILDE) {
            ++i;
            if (cur() == TK_PLUS or cur() == TK_MINUS or cur() == TK_TILDE) { unspec = true; unary(); return; }
            if (cur() == TK_Not) { unspec = true; expr(P_NOT); return; }
        }
        switch (cur()) {
            case TK_IDENTIFIER: ++i; if (acc(TK_DOT)) exp(TK_IDENTIFIER); break;
            case TK_Null: case TK_True: case TK_False: case TK_STRING_LITERAL: case TK_DATE: case TK_DATE_TIME: case TK_OCT_INT: case TK_DEC_INT: case TK_HEX_INT: case TK_DEC_FLOAT: case TK_HEX_FLOAT: ++i; break;
            case TK_LPAR: ++i; if (cur() == TK_Select) select(); else expr(); exp(TK_RPAR); break;
            default: throw Reject{};
        }
        while (acc(TK_LPAR)) {
            if (acc(TK_ASTERISK)) { }
            else if (cur() != TK_RPAR) do expr(); while (acc(TK_COMMA));
            exp(TK_RPAR);
        }
    }
};

/// Parses all of \p text; an error must be reported for each thing which could not be parsed.
std::vector<std::unique_ptr<m::ast::Command>> parse_all(Case &c, Front &f, const std::string &text) {
    std::vector<std::unique_ptr<m::ast::Command>> r;
    while (f.parser.token().type != m::TK_EOF) {
        r.push_back(f.parser.parse());
        VP_REQUIRE(c, r.size() <= text.size() + 1, "no-progress", "the parser does not terminate on " << vp::quote(text));
    }
    return r;
}
bool has_error_node(const std::string &d) { return d.find("(error-") != std::string::npos or d.find(" ERROR") != std::string::npos; }

VP_PROP("C08", "grammar", 16000, 160000) {
    Gen g(c);
    std::string want;
    for (size_t n = c.weighted({5, 2, 1}), i = 0; i <= n; ++i) want += g.command() + "\n";
    const std::string text = spell(c, g.t);
    c.log() << text << "\n" << want;
    Front f(text);
    auto cmds = parse_all(c, f, text);
    VP_REQUIRE(c, f.diag.num_errors() == 0, "rejected", "statement of the language rejected\n" << f.err.str());
    std::string got;
    for (auto &x : cmds) got += dump(*x) + "\n";
    VP_REQUIRE(c, got == want, "tree", "wrong syntax tree\n got " << got << "want " << want);
    c.nontrivial(g.t.size() > 4);
    c.label(want.substr(1, want.find_first_of(" )") - 1));
}

VP_PROP("C08", "acceptance", 30000, 300000) {
    Gen g(c); g.budget = 25;
    for (size_t n = c.weighted({5, 2}), i = 0; i <= n; ++i) g.command();
    const std::string text = mutate(c, g);
    c.log() << vp::quote(text) << "\n";
    auto toks = ref_lex(text);
    bool bad = false; for (auto &t : toks) bad |= t.error;
    Rec r(toks); bool accept = true; size_t at = 0;
    if (bad) accept = false;
    else try { r.all(); } catch (Reject&) { accept = false; at = r.i; }
    if (c.chance(1, 5)) { // what was parsed before must not matter
        const char *before = c.oneof<const char*>({"CREATE TABLE t ( a CHAR(99999999999999999999) );", "CREATE TABLE t ( a INT(99999999999999999999) );", "CREATE TABLE t ( a DECIMAL(99999999999999999999, 99999999999999999999) );", "SELECT ( FROM", "SELECT 99999999999999999999 FROM t LIMIT 99999999999999999999;"});
        Front f0(before); parse_all(c, f0, before); c.label("after other input");
    }
    if (c.chance(1, 5)) errno = ERANGE; // left behind by any other call
    Front f(text);
    auto cmds = parse_all(c, f, text);
    if (not bad and r.unspec) { c.label("unspecified"); return; }
    c.nontrivial();
    c.label(accept ? "accepted" : bad ? "rejected, bad token" : "rejected");
    VP_REQUIRE(c, (f.diag.num_errors() == 0) == accept, "acceptance", (accept ? "rejected although it is" : "accepted although it is not") << " part of the language: " << vp::quote(text)
               << (accept ? "" : VP_STR("; bad from token " << at)) << "\n" << f.err.str());
    for (auto &x : cmds) {
        const bool e = has_error_node(dump(*x));
        VP_REQUIRE(c, not e or f.diag.num_errors(), "silent-error", "error node without an error for " << vp::quote(text));
    }
    // whatever was parsed can be shown
    for (auto &x : cmds) {
        std::ostringstream os;
        { m::ast::ASTPrinter p(os); p(*x); }
        { m::ast::ASTDumper d(os); d(*x); }
        if (auto s = m::cast<const m::ast::Stmt>(x.get()); s and not has_error_node(dump(*x))) s->dot(os);
    }
}

/*----- Semantic analysis never crashes ----------------------------------------------------------------------------------*/
VP_PROP("C08", "sessions", 8000, 80000) {
    auto &C = m::Catalog::Get();
    m::Catalog::Clear();
    C.timer().clear();
    struct Guard { ~Guard() { m::Catalog::Get().timer().clear(); } } guard;
    std::ostringstream out, err; m::Diagnostic diag(false, out, err);
    auto sema = [&](const std::string &s) {
        Front f(s);
        while (f.parser.token().type != m::TK_EOF) {
            auto cmd = f.parser.parse();
            if (f.diag.num_errors()) { c.label("syntax error"); return; }
            m::Diagnostic d(false, out, err);
            m::ast::Sema S(d);
            const m::ast::Command *raw = cmd.get();
            auto keep = S.analyze(std::move(cmd));
            VP_REQUIRE(c, bool(keep) == (d.num_errors() == 0), "silent", (keep ? "accepted with an error: " : "neither accepted nor rejected with an error: ") << vp::quote(s));
            if (keep) {
                c.label("analysed without error");
                std::ostringstream os;
                { m::ast::ASTPrinter p(os); p(*raw); }
                { m::ast::ASTDumper dd(os); dd(*raw); }
                if (auto st = m::cast<const m::ast::Stmt>(raw)) st->dot(os);
                if (not m::is<const m::ast::SelectStmt>(*raw) and not m::is<const m::ast::InsertStmt>(*raw) and not m::is<const m::ast::DSVImportStmt>(*raw) and not m::is<const m::ast::Instruction>(*raw) and c.coin()) { keep->execute(d); c.label("executed"); }
            } else c.label("semantic error");
        }
    };
    auto &db = C.add_database(C.pool("db")); C.set_database_in_use(db);
    auto run = [&](const std::string &s) {
        m::Diagnostic d(false, out, err);
        auto stmt = m::statement_from_string(d, s); m::execute_statement(d, *stmt, false);
    };
    if (not c.chance(1, 10)) {
        run("CREATE TABLE R ( a INT(4), b CHAR(5), x DOUBLE, d DATE, t1 DECIMAL(8,2), _ BOOL );");
        if (c.coin()) run("CREATE TABLE a ( a INT(8) PRIMARY KEY, b INT(4) REFERENCES R (a), COUNT VARCHAR(3) UNIQUE NOT NULL, d1 DATETIME, x FLOAT );");
        if (c.coin()) run("CREATE INDEX b ON R (a);");
    } else if (c.coin()) { C.unset_database_in_use(); }
    std::string log;
    for (size_t n = 1 + c.draw(3); n; --n) {
        Gen g(c); g.budget = 20; g.rich = true;
        std::string s;
        if (c.chance(2, 3)) { g.command(); s = c.chance(1, 4) ? mutate(c, g) : spell(c, g.t, false); }
        else { Gen e(c); e.budget = 12; e.rich = c.coin(); e.expr(3); std::string x = spell(c, e.t, false);
            s = c.oneof<const char*>({"SELECT 1 FROM R WHERE ", "SELECT ", "SELECT 1 FROM R GROUP BY a HAVING ", "SELECT a FROM R ORDER BY ", "INSERT INTO R VALUES (1, \"a\", 2., d'2000-01-01', 1, ", "SELECT 1 FROM R, a WHERE "}) + x;
            if (s[0] == 'I') s += ")";
            s += " ;"; }
        c.log() << vp::quote(s) << "\n";
        if (s.size() > 3000) continue;
        c.nontrivial();
        sema(s);
    }
}

/*----- Printing ---------------------------------------------------------------------------------------------------------*/
std::string print(const m::ast::Command &x) { std::ostringstream os; m::ast::ASTPrinter p(os); p.expand_nested_queries(true); p(x); return os.str(); }

VP_PROP("C07", "statements", 20000, 200000) {
    Gen g(c);
    std::string desc = g.command();
    if (desc.substr(0, 12) == "(instruction" ) { c.label("instruction"); }
    const std::string text = spell(c, g.t, false);
    c.log() << text << "\n";
    Front f(text);
    auto cmds = parse_all(c, f, text);
    if (f.diag.num_errors() or cmds.size() != 1) c.discard(); // covered by C08
    std::string d1 = dump(*cmds[0]);
    const std::string p1 = print(*cmds[0]);
    // known finding: the ESCAPE and QUOTE options of an import are not printed
    if (auto imp = m::cast<m::ast::DSVImportStmt>(cmds[0].get()); imp and vp::known("C07-import-dialect")) {
        if (imp->escape and p1.find(" ESCAPE ") == std::string::npos) imp->escape = m::ast::Token::CreateArtificial(), c.label("known: ESCAPE not printed");
        if (imp->quote and p1.find(" QUOTE ") == std::string::npos) imp->quote = m::ast::Token::CreateArtificial(), c.label("known: QUOTE not printed");
        d1 = dump(*imp);
    }
    if (m::is<m::ast::InsertStmt>(*cmds[0]) and (p1.find("(NULL(") != std::string::npos or p1.find(" NULL(") != std::string::npos)) c.discard(); // NULL applied as a function, meaningless
    c.log() << "printed: " << p1 << "\n";
    Front f2(p1);
    auto cmds2 = parse_all(c, f2, p1);
    VP_REQUIRE(c, f2.diag.num_errors() == 0, "reparse", "the printed statement is not accepted\n" << p1 << "\n" << f2.err.str());
    VP_REQUIRE(c, cmds2.size() == 1, "count", "the printed statement is " << cmds2.size() << " statements\n" << p1);
    VP_REQUIRE(c, dump(*cmds2[0]) == d1, "changed", "the printed statement is another one\n" << p1 << "\n was " << d1 << "\n now " << dump(*cmds2[0]));
    VP_REQUIRE(c, print(*cmds2[0]) == p1, "fixpoint", "printing is not stable\n" << p1 << "\n" << print(*cmds2[0]));
    c.nontrivial(g.t.size() > 4);
    c.label(desc.substr(1, desc.find_first_of(" )") - 1));
    // other ways to show it
    std::ostringstream os;
    cmds[0]->dump(os); if (auto s = m::cast<const m::ast::Stmt>(cmds[0].get())) s->dot(os);
    VP_REQUIRE(c, not os.str().empty(), "dump", "dumping yields nothing");
}

std::unique_ptr<m::ast::Expr> parse_expr(Case &c, const std::string &text) {
    Front f(text);
    auto e = f.parser.parse_Expr();
    if (f.diag.num_errors() or f.parser.token().type != m::TK_EOF) c.discard();
    return e;
}

VP_PROP("C07", "expressions", 20000, 200000) {
    Gen g(c); g.queries = false; g.rich = c.coin(); g.budget = 20;
    g.expr(unsigned(c.draw(3)));
    std::vector<std::string> t2;
    if (c.coin()) { Gen h(c); h.queries = false; h.rich = g.rich; h.expr(unsigned(c.draw(2))); t2 = h.t; }
    else { // a neighbour
        t2 = g.t;
        const size_t at = c.draw(t2.size() - 1);
        if (auto &x = t2[at]; x == "+" or x == "-" or x == "*" or x == "=") x = c.oneof<const char*>({"+", "-", "*", "=", "<", "AND"});
        else if (isalpha((unsigned char) x[0]) and std::islower((unsigned char) x[0])) x = c.oneof<const char*>({"a", "b", "R"});
        else if (isdigit((unsigned char) x[0])) x = c.oneof<const char*>({"1", "2", "01", "0x1"});
    }
    const std::string s1 = spell(c, g.t, false), s2 = spell(c, t2, false);
    c.log() << s1 << "\n" << s2 << "\n";
    auto a = parse_expr(c, s1), b = parse_expr(c, s2), a2 = parse_expr(c, s1);
    const std::string da = dump(*a), db = dump(*b);
    c.nontrivial(g.t.size() > 1); c.label_if(da == db, "equal trees");
    VP_REQUIRE(c, *a == *a and *a == *a2 and not (*a != *a2), "reflexive", "an expression differs from itself: " << s1);
    VP_REQUIRE(c, (*a == *b) == (da == db) and (*b == *a) == (da == db) and (*a != *b) == (da != db), "equality", "equality is wrong for\n " << s1 << "\n " << s2);
    VP_REQUIRE(c, a->hash() == a2->hash(), "hash", "equal expressions hash differently: " << s1);
    if (da == db) VP_REQUIRE(c, a->hash() == b->hash(), "hash", "equal expressions hash differently\n" << s1 << "\n" << s2);
    const std::string p = VP_STR(*a);
    auto r = parse_expr(c, p);
    VP_REQUIRE(c, dump(*r) == da, "changed", "the printed expression is another one\n" << s1 << "\n" << p);
    VP_REQUIRE(c, *r == *a, "equality", "the printed expression differs: " << p);
    std::ostringstream os; a->dump(os); a->dot(os);
}

}
