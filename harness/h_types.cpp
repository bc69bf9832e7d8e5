// C10: types and values.  C19: schemas, tables, tuples.
#include "exec.hpp"
#include <mutable/IR/Tuple.hpp>
#include <mutable/catalog/Schema.hpp>
#include <mutable/catalog/Type.hpp>
#include <cmath>
#include <deque>
#include <set>

using namespace db;
using m::Type; using m::Schema;

namespace {

m::Catalog & C() { return m::Catalog::Get(); }

/*======================================================================================================================
 * Types
 *====================================================================================================================*/

/// What a type was requested with.
struct Spec {
    enum K { ERR, NONE, BOOL, BITMAP, CHAR, VARCHAR, DATE, DATETIME, INT, FLOAT, DOUBLE, DECIMAL, FN } k = INT;
    bool vec = false; size_t a = 0, b = 0; std::vector<size_t> sub;
    auto key() const { return std::tuple(int(k), vec, a, b, sub); }
    bool operator==(const Spec &o) const { return key() == o.key(); }
    bool primitive() const { return k != ERR and k != NONE and k != FN; }
    bool numeric() const { return k >= INT and k <= DECIMAL; }
};

std::string show(const Spec &s) {
    static const char *N[] = {"error", "none", "BOOL", "BITMAP", "CHAR", "VARCHAR", "DATE", "DATETIME", "INT", "FLOAT", "DOUBLE", "DECIMAL", "FN"};
    std::ostringstream os; os << N[s.k] << (s.vec ? "v" : "s") << '(' << s.a << ',' << s.b;
    for (auto i : s.sub) os << ' ' << i;
    os << ')'; return os.str();
}

size_t gen_length(Case &c) {
    switch (c.weighted({6, 2, 1})) {
        case 0: return 1 + c.size(40);
        case 1: return (size_t(1) << c.draw(33)) + c.draw(2); // lengths which differ in high bits only
        default: return 1 + c.draw(70000);
    }
}

Spec gen_spec(Case &c, size_t known) {
    Spec s; s.k = Spec::K(c.weighted({1, 1, 3, 4, 4, 4, 2, 2, 6, 2, 2, 6, known ? 3u : 0u}));
    if (s.primitive()) s.vec = c.coin();
    switch (s.k) {
        case Spec::BITMAP: case Spec::CHAR: case Spec::VARCHAR: s.a = gen_length(c); break;
        case Spec::INT: s.a = size_t(1) << c.draw(3); break;
        case Spec::DECIMAL: s.a = 1 + c.draw(18); s.b = c.draw(s.a); break;
        case Spec::FN: { s.a = c.draw(known - 1); for (size_t n = c.draw(3); n; --n) s.sub.push_back(c.draw(known - 1)); break; }
        default:;
    }
    return s;
}

const Type *make(const Spec &s, const std::vector<const Type*> &known) {
    auto cat = s.vec ? Type::TY_Vector : Type::TY_Scalar;
    switch (s.k) {
        case Spec::ERR: return Type::Get_Error();
        case Spec::NONE: return Type::Get_None();
        case Spec::BOOL: return Type::Get_Boolean(cat);
        case Spec::BITMAP: return Type::Get_Bitmap(cat, s.a);
        case Spec::CHAR: return Type::Get_Char(cat, s.a);
        case Spec::VARCHAR: return Type::Get_Varchar(cat, s.a);
        case Spec::DATE: return Type::Get_Date(cat);
        case Spec::DATETIME: return Type::Get_Datetime(cat);
        case Spec::INT: return Type::Get_Integer(cat, unsigned(s.a));
        case Spec::FLOAT: return Type::Get_Float(cat);
        case Spec::DOUBLE: return Type::Get_Double(cat);
        case Spec::DECIMAL: return Type::Get_Decimal(cat, unsigned(s.a), unsigned(s.b));
        case Spec::FN: { std::vector<const Type*> p; for (auto i : s.sub) p.push_back(known[i]); return Type::Get_Function(known[s.a], p); }
    }
    return nullptr;
}

/// The SQL text of the type.
std::string sql(const Spec &s, const std::vector<std::string> &known) {
    std::ostringstream os;
    switch (s.k) {
        case Spec::ERR: return "[ErrorType]";
        case Spec::NONE: return "[none]";
        case Spec::BOOL: return "BOOL";
        case Spec::BITMAP: os << "BITMAP(" << s.a << ')'; break;
        case Spec::CHAR: os << "CHAR(" << s.a << ')'; break;
        case Spec::VARCHAR: os << "VARCHAR(" << s.a << ')'; break;
        case Spec::DATE: return "DATE";
        case Spec::DATETIME: return "DATETIME";
        case Spec::INT: os << "INT(" << s.a << ')'; break;
        case Spec::FLOAT: return "FLOAT";
        case Spec::DOUBLE: return "DOUBLE";
        case Spec::DECIMAL: os << "DECIMAL(" << s.a << ", " << s.b << ')'; break;
        case Spec::FN: os << '('; for (size_t i = 0; i != s.sub.size(); ++i) os << (i ? ", " : "") << known[s.sub[i]]; os << ") -> " << known[s.a]; break;
    }
    return os.str();
}

/// 10^p - 1 < 2^(bits - 1)?
unsigned decimal_bits(size_t p) {
    __int128 max = 1; for (size_t i = 0; i != p; ++i) max *= 10;
    for (unsigned b : {8, 16, 32, 64}) if (max - 1 < (__int128(1) << (b - 1))) return b;
    return 64;
}

void check_type(Case &c, const Spec &s, const Type &t, const std::vector<std::string> &text) {
    const std::string w = show(s);
    VP_REQUIRE(c, t.is_error() == (s.k == Spec::ERR) and t.is_none() == (s.k == Spec::NONE) and t.is_primitive() == s.primitive() and t.is_boolean() == (s.k == Spec::BOOL)
               and t.is_bitmap() == (s.k == Spec::BITMAP) and t.is_character_sequence() == (s.k == Spec::CHAR or s.k == Spec::VARCHAR) and t.is_date() == (s.k == Spec::DATE)
               and t.is_date_time() == (s.k == Spec::DATETIME) and t.is_numeric() == s.numeric() and t.is_integral() == (s.k == Spec::INT) and t.is_decimal() == (s.k == Spec::DECIMAL)
               and t.is_floating_point() == (s.k == Spec::FLOAT or s.k == Spec::DOUBLE) and t.is_float() == (s.k == Spec::FLOAT) and t.is_double() == (s.k == Spec::DOUBLE),
               "predicates", w);
    std::ostringstream os; os << t;
    VP_REQUIRE(c, os.str() == sql(s, text), "printed", w + " as " + os.str());
    if (auto p = m::cast<const m::PrimitiveType>(&t)) {
        VP_REQUIRE(c, p->is_vectorial() == s.vec and p->is_scalar() == not s.vec, "category", w);
        VP_REQUIRE(c, p->as_scalar()->is_scalar() and p->as_vectorial()->is_vectorial(), "category converted", w);
        VP_REQUIRE(c, (s.vec ? p->as_vectorial() : p->as_scalar()) == p, "conversion to own category", w);
        VP_REQUIRE(c, p->as_scalar()->as_vectorial() == p->as_vectorial() and p->as_vectorial()->as_scalar() == p->as_scalar(), "conversion there and back", w);
        Spec o = s; o.vec = not s.vec;
        VP_REQUIRE(c, (s.vec ? p->as_scalar() : p->as_vectorial()) == make(o, {}), "conversion to other category", w);
        uint64_t bits = 0, align = 0;
        switch (s.k) {
            case Spec::BOOL: bits = 1; align = 1; break;
            case Spec::BITMAP: bits = s.a; align = 1; break;
            case Spec::CHAR: bits = 8 * s.a; align = 8; break;
            case Spec::VARCHAR: bits = 8 * (s.a + 1); align = 8; break;
            case Spec::DATE: bits = align = 32; break;
            case Spec::DATETIME: bits = align = 64; break;
            case Spec::INT: bits = align = 8 * s.a; break;
            case Spec::FLOAT: bits = align = 32; break;
            case Spec::DOUBLE: bits = align = 64; break;
            case Spec::DECIMAL: bits = align = decimal_bits(s.a); break;
            default:;
        }
        VP_REQUIRE(c, t.size() == bits and t.alignment() == align, "size", w + " size " + VP_STR(t.size() << " alignment " << t.alignment() << " expected " << bits << ", " << align));
        VP_REQUIRE(c, m::is_convertible<bool>(&t) == (s.k == Spec::BOOL) and m::is_convertible<std::string>(&t) == (s.k == Spec::CHAR or s.k == Spec::VARCHAR)
                   and m::is_convertible<int>(&t) == s.numeric() and m::is_convertible<double>(&t) == s.numeric(), "convertible", w);
    }
}

VP_PROP("C10", "types", 12000, 150000) {
    std::vector<Spec> specs; std::vector<const Type*> types; std::vector<std::string> text; std::vector<uint64_t> hashes;
    const size_t n = 2 + c.size(24);
    for (size_t i = 0; i != n; ++i) {
        Spec s = gen_spec(c, specs.size());
        if (not specs.empty() and c.chance(1, 3)) { // close to a known one
            s = specs[c.draw(specs.size() - 1)];
            switch (c.draw(4)) {
                case 0: break;
                case 1: if (s.primitive()) s.vec = not s.vec; break;
                case 2: if (s.k == Spec::CHAR) s.k = Spec::VARCHAR; else if (s.k == Spec::VARCHAR) s.k = Spec::BITMAP; else if (s.k == Spec::BITMAP) s.k = Spec::CHAR; break;
                case 3: if (s.k == Spec::CHAR or s.k == Spec::VARCHAR or s.k == Spec::BITMAP) s.a += 1; else if (s.k == Spec::DECIMAL) s.b = c.draw(s.a); break;
                case 4: if (s.k == Spec::FN and not s.sub.empty()) { if (c.coin()) s.sub.pop_back(); else std::swap(s.sub[0], s.sub.back()); } break;
            }
        }
        c.log() << show(s) << ' ';
        // function types over equal types given by different indices are the same type
        if (s.k == Spec::FN) {
            auto canon = [&](size_t i) { for (size_t j = 0; j != i; ++j) if (types[j] == types[i]) return j; return i; };
            s.a = canon(s.a); for (auto &x : s.sub) x = canon(x);
        }
        const Type *t = make(s, types);
        check_type(c, s, *t, text);
        for (size_t j = 0; j != specs.size(); ++j) {
            const bool same = specs[j] == s;
            VP_REQUIRE(c, (types[j] == t) == same, same ? "same type twice" : "different types shared", show(s) + " and " + show(specs[j]));
            VP_REQUIRE(c, (*types[j] == *t) == same and (*t == *types[j]) == same and (*t != *types[j]) != same, "equality", show(s) + " and " + show(specs[j]));
            if (same) VP_REQUIRE(c, types[j]->hash() == t->hash() and hashes[j] == t->hash() and std::hash<Type>{}(*t) == t->hash(), "hash", show(s));
            const Spec &o = specs[j];
            auto cls = [](const Spec &s) { return s.k == Spec::BOOL ? 1 : s.k == Spec::CHAR or s.k == Spec::VARCHAR ? 2 : s.k == Spec::DATE ? 3 : s.k == Spec::DATETIME ? 4 : s.numeric() ? 5 : 0; };
            VP_REQUIRE(c, m::is_comparable(t, types[j]) == (cls(s) and cls(s) == cls(o)) and m::is_comparable(types[j], t) == m::is_comparable(t, types[j]), "comparable", show(s) + " and " + show(o));
            if (s.numeric() and o.numeric()) {
                auto A = m::cast<const m::Numeric>(t), B = m::cast<const m::Numeric>(types[j]);
                const m::Numeric *J = m::arithmetic_join(A, B);
                VP_REQUIRE(c, J == m::arithmetic_join(B, A), "join not commutative", show(s) + " and " + show(o));
                VP_REQUIRE(c, J->is_vectorial() == (s.vec or o.vec), "join category", show(s) + " and " + show(o));
                VP_REQUIRE(c, m::arithmetic_join(A, A) == A, "join not idempotent", show(s));
                VP_REQUIRE(c, m::arithmetic_join(J, A) == J and m::arithmetic_join(J, B) == J, "join not absorbing", VP_STR(show(s) << " and " << show(o) << " gives " << *J));
                auto rank = [](const m::Numeric *n) { return n->kind == m::Numeric::N_Int ? 0 : n->kind == m::Numeric::N_Float ? 1 : 2; };
                VP_REQUIRE(c, rank(J) == std::max(rank(A), rank(B)) and J->scale == std::max(A->scale, B->scale) and J->size() >= A->size() and J->size() >= B->size(),
                           "join less precise", VP_STR(show(s) << " and " << show(o) << " gives " << *J));
                for (auto N : {A, B})
                    if (N->kind == J->kind) VP_REQUIRE(c, J->precision >= N->precision, "join precision", VP_STR(show(s) << " and " << show(o) << " gives " << *J));
                // with a third one
                for (size_t k = 0; k < specs.size() and k < 6; ++k)
                    if (specs[k].numeric()) {
                        auto C = m::cast<const m::Numeric>(types[k]);
                        VP_REQUIRE(c, m::arithmetic_join(J, C) == m::arithmetic_join(A, m::arithmetic_join(B, C)), "join not associative", VP_STR(*A << ", " << *B << ", " << *C));
                    }
            }
        }
        specs.push_back(s); types.push_back(t); text.push_back(sql(s, text)); hashes.push_back(t->hash());
    }
    // an earlier type is not changed by later ones
    for (size_t i = 0; i != specs.size(); ++i) {
        check_type(c, specs[i], *types[i], text);
        VP_REQUIRE(c, make(specs[i], types) == types[i], "type requested again", show(specs[i]));
    }
    std::set<const Type*> d(types.begin(), types.end());
    c.label(d.size() < types.size() ? "repeated" : "distinct");
    c.nontrivial(d.size() >= 4);
}

/*======================================================================================================================
 * Values
 *====================================================================================================================*/

template<typename T> void check_number(Case &c, T x, T y) {
    m::Value a(x), b(y), a2(x);
    c.log() << +x << ',' << +y << ' ';
    if constexpr (std::is_same_v<T, bool>) VP_REQUIRE(c, a.as_b() == x and bool(a) == x, "bool", VP_STR(x));
    else if constexpr (std::is_integral_v<T>) VP_REQUIRE(c, a.as_i() == int64_t(x) and int64_t(a) == int64_t(x) and int32_t(a) == int32_t(x), "integer", VP_STR(+x));
    else if constexpr (std::is_same_v<T, float>) VP_REQUIRE(c, a.as_f() == x and float(a) == x, "float", VP_STR(x));
    else VP_REQUIRE(c, a.as_d() == x and double(a) == x, "double", VP_STR(x));
    VP_REQUIRE(c, (a == b) == (x == y) and (a != b) == (x != y) and a == a2, "comparison", VP_STR(+x << ',' << +y));
    VP_REQUIRE(c, std::hash<m::Value>{}(a) == std::hash<m::Value>{}(a2), "hash", VP_STR(+x));
    m::Value cpy = a; cpy = b; VP_REQUIRE(c, cpy == b and a == a2, "assignment", VP_STR(+x << ',' << +y));
    if constexpr (std::is_same_v<T, bool>) { a.as_b() = y; VP_REQUIRE(c, a == b, "assignment in place", ""); }
    else if constexpr (std::is_integral_v<T>) { a.as_i() = int64_t(y); VP_REQUIRE(c, a == b, "assignment in place", ""); }
    else if constexpr (std::is_same_v<T, float>) { a.as_f() = y; VP_REQUIRE(c, a == b, "assignment in place", ""); }
    else { a.as_d() = y; VP_REQUIRE(c, a == b, "assignment in place", ""); }
    std::ostringstream os; os << m::Value(x); std::ostringstream want;
    if constexpr (std::is_same_v<T, bool>) want << (x ? "TRUE" : "FALSE"); else if constexpr (std::is_integral_v<T>) want << int64_t(x); else want << x;
    VP_REQUIRE(c, os.str() == want.str(), "printed", os.str());
}

template<typename T> T gen_real(Case &c) {
    T x = c.coin() ? T(c.range(-1000, 1000)) / 8 : std::ldexp(T(c.range(1, 1 << 20)), int(c.range(-100, 100)));
    return x == 0 ? T(0) : x; // no negative zero
}

VP_PROP("C10", "values", 12000, 150000) {
    for (size_t n = 1 + c.size(12); n; --n) {
        const bool same = c.chance(1, 3);
#define INTS(T) { T x = T(c.integer(8 * sizeof(T))), y = same ? x : T(c.integer(8 * sizeof(T))); check_number<T>(c, x, y); break; }
        switch (c.draw(11)) {
            case 0: check_number<bool>(c, c.coin(), c.coin()); break;
            case 1: INTS(int8_t) case 2: INTS(int16_t) case 3: INTS(int32_t) case 4: INTS(int64_t)
            case 5: INTS(uint8_t) case 6: INTS(uint16_t) case 7: INTS(uint32_t) case 8: INTS(uint64_t)
            case 9: { float x = gen_real<float>(c), y = same ? x : gen_real<float>(c); check_number<float>(c, x, y); break; }
            case 10: { double x = gen_real<double>(c), y = same ? x : gen_real<double>(c); check_number<double>(c, x, y); break; }
            case 11: {
                std::string s; for (size_t k = c.size(20); k; --k) s += char('a' + c.draw(25));
                auto p = C().pool(s.c_str()), q = C().pool(s.c_str());
                m::Value a(p), b(q), d(s.c_str());
                VP_REQUIRE(c, a == b and std::string(a.as<const char*>()) == s and std::string((const char*) a.as_p()) == s, "pooled text", s);
                VP_REQUIRE(c, d.as<const char*>() == s.c_str() and a != d, "text", s);
                break;
            }
        }
#undef INTS
    }
    c.nontrivial(true);
}

/*======================================================================================================================
 * Schemas
 *====================================================================================================================*/

struct ME { int prefix; int name; const Type *type; uint64_t cons; bool operator==(const ME &o) const { return prefix == o.prefix and name == o.name and type == o.type and cons == o.cons; } };
using MS = std::vector<ME>;

const char *NAMES[] = {"a", "b", "key", "A", "value_1", "$const", "", "a.b"};
const char *PREFIXES[] = {"T", "S", "t", "a", "longer_prefix"};

std::string show(const MS &s) { std::ostringstream os; os << '['; for (auto &e : s) os << ' ' << (e.prefix < 0 ? "" : PREFIXES[e.prefix]) << '.' << NAMES[e.name] << ':' << *e.type << '/' << e.cons; os << " ]"; return os.str(); }

Schema::Identifier id(int prefix, int name) {
    if (prefix < 0) return Schema::Identifier(C().pool(NAMES[name]));
    return Schema::Identifier(C().pool(PREFIXES[prefix]), C().pool(NAMES[name]));
}

void same_schema(Case &c, const Schema &S, const MS &M, const char *what) {
    VP_REQUIRE(c, S.num_entries() == M.size() and S.empty() == M.empty(), what, VP_STR(what << ": " << S << " instead of " << show(M)));
    size_t i = 0;
    for (auto &e : S) {
        VP_REQUIRE(c, e.id == id(M[i].prefix, M[i].name) and e.type == M[i].type and uint64_t(e.constraints) == M[i].cons and &S[i] == &e and &S.at(i) == &e, what, VP_STR(what << ": " << S << " instead of " << show(M) << " at " << i));
        VP_REQUIRE(c, e.nullable() == not (M[i].cons & 1) and e.unique() == bool(M[i].cons & 2) and e.references_unique() == bool(M[i].cons & 4), "constraints", what);
        VP_REQUIRE(c, e.id.is_constant() == (M[i].prefix < 0 and M[i].name == 5), "constant", what);
        ++i;
    }
    bool threw = false; try { S.at(M.size()); } catch (m::out_of_range &) { threw = true; }
    VP_REQUIRE(c, threw, "index out of bounds accepted", what);
}

size_t count(const MS &M, int p, int n) { size_t r = 0; for (auto &e : M) r += e.prefix == p and e.name == n; return r; }
size_t first(const MS &M, int p, int n) { for (size_t i = 0; i != M.size(); ++i) if (M[i].prefix == p and M[i].name == n) return i; return M.size(); }

VP_PROP("C19", "schemas", 14000, 170000) {
    std::vector<Schema> S; std::vector<MS> M;
    const size_t names = 1 + c.draw(7), prefixes = 1 + c.draw(4), types = 1 + c.draw(3);
    const bool distinct = c.chance(1, 3);
    auto type = [&]() -> const Type* {
        switch (c.draw(types)) { case 0: return Type::Get_Integer(Type::TY_Vector, 4); case 1: return Type::Get_Integer(Type::TY_Scalar, 4); case 2: return Type::Get_Boolean(Type::TY_Vector); default: return Type::Get_Char(Type::TY_Vector, 3); }
    };
    S.resize(3); M.resize(3);
    unsigned ops = 0, found = 0, ambiguous = 0;
    for (size_t n = 4 + c.size(40); n; --n) {
        const size_t i = c.draw(2), j = c.draw(2);
        const int p = int(c.draw(prefixes)) - 1, nm = int(c.draw(names - 1));
        const size_t op = c.weighted({12, 6, 4, 2, 2, 2, 3, 3, 2, 2});
        static const char *OP[] = {"add", "find", "deduplicate", "drop constants", "+", "|", "&", "==", "copy", "move"};
        c.log() << OP[op] << '(' << i << (op < 2 ? "" : ", " + std::to_string(j)) << (op < 2 ? VP_STR(", " << (p < 0 ? "" : PREFIXES[p]) << '.' << NAMES[nm]) : "") << ") ";
        switch (op) {
            case 0: {
                if (distinct and count(M[i], p, nm)) break;
                if (M[i].size() > 40) break;
                const Type *t = type(); uint64_t cons = c.draw(15);
                if (c.chance(1, 4)) { S[i].add(id(p, nm), t); cons = 0; } else if (c.coin()) S[i].add(id(p, nm), t, Schema::entry_type::constraints_t(cons)); else S[i].add(Schema::entry_type(id(p, nm), t, Schema::entry_type::constraints_t(cons)));
                M[i].push_back({p, nm, t, cons});
                same_schema(c, S[i], M[i], "add");
                break;
            }
            case 1: { // lookups
                const size_t k = count(M[i], p, nm), at = first(M[i], p, nm);
                const Schema &CS = S[i];
                for (unsigned how = 0; how != 3; ++how) {
                    bool amb = false, missing = false; size_t pos = M[i].size();
                    try {
                        switch (how) {
                            case 0: { auto it = CS.find(id(p, nm)); pos = size_t(it - CS.begin()); break; }
                            case 1: { if (CS.has(id(p, nm))) pos = at; break; }
                            case 2: { auto [ix, e] = CS.at(id(p, nm)); pos = ix; VP_REQUIRE(c, &e == &CS[ix], "entry", ""); break; }
                        }
                    } catch (m::out_of_range &) { missing = true; } catch (m::invalid_argument &) { amb = true; }
                    VP_REQUIRE(c, amb == (k > 1), "ambiguity", VP_STR(show(M[i]) << " lookup " << id(p, nm)));
                    VP_REQUIRE(c, missing == (how == 2 and k == 0), "absence", VP_STR(show(M[i]) << " lookup " << id(p, nm)));
                    if (k == 1) VP_REQUIRE(c, pos == at, "position", VP_STR(show(M[i]) << " lookup " << id(p, nm) << " gives " << pos));
                    if (k == 0 and not missing) VP_REQUIRE(c, pos == M[i].size(), "found something", VP_STR(show(M[i]) << " lookup " << id(p, nm)));
                }
                if (k == 1) VP_REQUIRE(c, S[i][id(p, nm)].first == at, "position", "operator[]");
                found += k == 1; ambiguous += k > 1;
                break;
            }
            case 2: { MS D; for (auto &e : M[i]) if (not count(D, e.prefix, e.name)) D.push_back(e); same_schema(c, S[i].deduplicate(), D, "deduplicate"); break; }
            case 3: { MS D; for (auto &e : M[i]) if (not (e.prefix < 0 and e.name == 5)) D.push_back(e); same_schema(c, S[i].drop_constants(), D, "drop constants"); break; }
            case 4: { if (i == j or M[i].size() + M[j].size() > 60) break; MS D = M[i]; D.insert(D.end(), M[j].begin(), M[j].end()); same_schema(c, S[i] + S[j], D, "concatenation"); if (c.coin()) { S[i] += S[j]; M[i] = D; same_schema(c, S[i], D, "concatenation in place"); } break; }
            case 5: { // union
                if (i == j or M[i].size() + M[j].size() > 60) break;
                MS D = M[i]; bool amb = false;
                for (auto &e : M[j]) { auto k = count(D, e.prefix, e.name); if (k > 1) { amb = true; break; } if (not k) D.push_back(e); }
                bool threw = false; Schema U; try { U = S[i] | S[j]; } catch (m::invalid_argument &) { threw = true; }
                VP_REQUIRE(c, threw == amb, "union of ambiguous entries", show(M[i]) + " | " + show(M[j]));
                if (not amb) { same_schema(c, U, D, "union"); same_schema(c, S[i], M[i], "operand of union"); if (c.coin()) { S[i] |= S[j]; M[i] = D; same_schema(c, S[i], D, "union in place"); } }
                break;
            }
            case 6: { // intersection
                MS D; bool amb = false, mismatch = false;
                auto vec = [](const Type *t) { auto p = m::cast<const m::PrimitiveType>(t); return p ? (const Type*) p->as_vectorial() : t; };
                for (auto &e : M[i]) {
                    auto k = count(M[j], e.prefix, e.name);
                    if (k > 1) { amb = true; break; }
                    if (k) { auto &o = M[j][first(M[j], e.prefix, e.name)]; if (vec(o.type) != vec(e.type)) { mismatch = true; break; } D.push_back({e.prefix, e.name, e.type, e.cons | o.cons}); }
                }
                bool threw = false; Schema X; try { X = S[i] & S[j]; } catch (m::invalid_argument &) { threw = true; }
                VP_REQUIRE(c, threw == (amb or mismatch), "intersection of entries which do not match", show(M[i]) + " & " + show(M[j]));
                if (not threw) same_schema(c, X, D, "intersection");
                break;
            }
            case 7: { // equality of the sets of names
                bool amb = false; for (auto &e : M[i]) amb |= count(M[i], e.prefix, e.name) > 1; for (auto &e : M[j]) amb |= count(M[j], e.prefix, e.name) > 1;
                if (amb) break;
                bool eq = true; for (auto &e : M[i]) eq &= count(M[j], e.prefix, e.name) == 1; for (auto &e : M[j]) eq &= count(M[i], e.prefix, e.name) == 1;
                VP_REQUIRE(c, (S[i] == S[j]) == eq and (S[i] != S[j]) == not eq, "equality", show(M[i]) + " = " + show(M[j]));
                break;
            }
            case 8: { S[i] = Schema(S[j]); M[i] = M[j]; same_schema(c, S[i], M[i], "copy"); break; }
            case 9: { Schema T(std::move(S[i])); S[i] = Schema(); MS X = M[i]; M[i].clear(); same_schema(c, T, X, "moved"); S[i] = std::move(T); M[i] = X; same_schema(c, S[i], M[i], "moved back"); break; }
        }
        ++ops;
    }
    for (size_t i = 0; i != 3; ++i) same_schema(c, S[i], M[i], "finally");
    c.label_if(ambiguous, "ambiguous"); c.label_if(found, "found");
    c.nontrivial(ops >= 8 and found + ambiguous);
}

/*======================================================================================================================
 * Tables
 *====================================================================================================================*/

struct MA { int name; const m::PrimitiveType *ty; bool hidden = false, nn = false, uq = false; };

VP_PROP("C19", "tables", 8000, 100000) {
    std::vector<MA> M; std::set<size_t> pk; std::deque<std::string> names;
    m::ConcreteTable other(C().pool("other")); other.push_back(C().pool("r"), Type::Get_Integer(Type::TY_Vector, 4));
    const bool other_unique = c.coin(); other[C().pool("r")].unique = other_unique; std::set<size_t> refs;
    auto concrete = std::make_unique<m::ConcreteTable>(C().pool("tab"));
    std::unique_ptr<m::Table> owner;
    m::Table *T = concrete.get();
    const bool versioned = c.chance(1, 3);
    if (versioned) {
        owner = std::make_unique<m::MultiVersioningTable>(std::move(concrete)); T = owner.get();
        for (auto n : {"$ts_begin", "$ts_end"}) { names.push_back(n); M.push_back({int(names.size()) - 1, m::cast<const m::PrimitiveType>((const Type*) Type::Get_Integer(Type::TY_Vector, 8)), true, true, false}); }
    } else owner = std::move(concrete);
    auto pool = [&](const std::string &s) { return C().pool(s.c_str()); };
    for (size_t n = 1 + c.size(30); n; --n) {
        switch (c.weighted({10, 3, 3, 3, 2, 2, 2})) {
            case 0: {
                if (M.size() >= 60) break;
                std::string nm = "c" + std::to_string(c.draw(25));
                bool dup = false; for (auto &a : M) dup |= names[a.name] == nm;
                const Spec s = [&] { Spec s; do s = gen_spec(c, 0); while (not s.primitive() or s.k == Spec::BITMAP); return s; }();
                auto ty = m::cast<const m::PrimitiveType>(make(s, {}));
                bool threw = false;
                try { T->push_back(pool(nm), ty); } catch (std::invalid_argument &) { threw = true; } catch (m::invalid_argument &) { threw = true; }
                VP_REQUIRE(c, threw == (dup or not s.vec), "add attribute", nm + " " + show(s));
                c.log() << "add " << nm << ' ' << show(s) << (threw ? " rejected; " : "; ");
                if (not threw) { names.push_back(nm); M.push_back({int(names.size()) - 1, ty}); }
                break;
            }
            case 1: if (not M.empty()) { auto k = c.draw(M.size() - 1); if (not (versioned and k < 2)) { M[k].hidden = not M[k].hidden; (*T)[k].is_hidden = M[k].hidden; c.log() << "hide " << k << "; "; } } break;
            case 2: if (not M.empty()) { auto k = c.draw(M.size() - 1); M[k].nn = c.coin(); T->at(k).not_nullable = M[k].nn; } break;
            case 3: if (not M.empty()) { auto k = c.draw(M.size() - 1); M[k].uq = c.coin(); (*T)[pool(names[M[k].name])].unique = M[k].uq; } break;
            case 4: if (not M.empty()) { auto k = c.draw(M.size() - 1); T->add_primary_key(pool(names[M[k].name])); pk.insert(k); c.log() << "key " << k << "; "; } break;
            case 5: if (not M.empty()) { auto k = c.draw(M.size() - 1); T->at(pool(names[M[k].name])).reference = &other[0]; refs.insert(k); } break;
            case 6: { bool threw = false; try { T->add_primary_key(pool("no such")); } catch (std::out_of_range &) { threw = true; } VP_REQUIRE(c, threw, "key of unknown attribute", ""); break; }
        }
        // the whole table
        std::vector<size_t> vis, hid; for (size_t i = 0; i != M.size(); ++i) (M[i].hidden ? hid : vis).push_back(i);
        VP_REQUIRE(c, T->num_all_attrs() == M.size() and T->num_attrs() == vis.size() and T->num_hidden_attrs() == hid.size(), "number of attributes", VP_STR(T->num_all_attrs() << ' ' << T->num_attrs() << ' ' << T->num_hidden_attrs()));
        for (size_t i = 0; i != M.size(); ++i) {
            auto nm = pool(names[M[i].name]); auto &a = T->at(i);
            VP_REQUIRE(c, a.id == i and a.name == nm and a.type == M[i].ty and a.is_hidden == M[i].hidden and a.not_nullable == M[i].nn and a.unique == M[i].uq, "attribute", names[M[i].name]);
            VP_REQUIRE(c, a.is_unique() == (M[i].uq or (pk.size() == 1 and pk.count(i))), "uniqueness", names[M[i].name]);
            VP_REQUIRE(c, T->has_attribute(nm) and &T->at(nm) == &a and &(*T)[nm] == &a and &(*T)[i] == &a, "attribute by name", names[M[i].name]);
            VP_REQUIRE(c, &a.table == T or (versioned and T->operator==(a.table)), "table of attribute", "");
        }
        for (auto s : {"c", "c26", "C0", "tab"}) {
            VP_REQUIRE(c, not T->has_attribute(pool(s)), "unknown attribute found", s);
            bool threw = false; try { T->at(pool(s)); } catch (std::out_of_range &) { threw = true; }
            VP_REQUIRE(c, threw, "unknown attribute returned", s);
        }
        for (size_t i = 0; i != 26; ++i) { std::string s = "c" + std::to_string(i); bool has = false; for (auto &a : M) has |= names[a.name] == s; VP_REQUIRE(c, T->has_attribute(pool(s)) == has, "attribute which was not added", s); }
        { bool threw = false; try { T->at(M.size()); } catch (std::out_of_range &) { threw = true; } VP_REQUIRE(c, threw, "id out of bounds", ""); }
        auto walk = [&](auto b, auto e, const std::vector<size_t> &want, const char *what) {
            size_t k = 0; for (auto it = b; it != e; ++it, ++k) VP_REQUIRE(c, k < want.size() and it->id == want[k], "iteration", what);
            VP_REQUIRE(c, k == want.size(), "iteration ends early", what);
            VP_REQUIRE(c, size_t(e - b) == want.size() and (b - e) == -std::ptrdiff_t(want.size()), "distance", VP_STR(what << ' ' << (e - b) << ' ' << (b - e)));
            if (not want.empty()) { // forward and back
                auto it = b; const size_t far = c.draw(want.size() - 1); it += int(far); VP_REQUIRE(c, it->id == want[far], "skip", what);
                VP_REQUIRE(c, size_t(it - b) == far and size_t(e - it) == want.size() - far, "distance", what);
                if (far) { auto jt = it; --jt; VP_REQUIRE(c, jt->id == want[far - 1], "back", what); jt = it; jt -= int(far); VP_REQUIRE(c, jt->id == want[0], "skip back", what); }
            }
        };
        std::vector<size_t> all; for (size_t i = 0; i != M.size(); ++i) all.push_back(i);
        walk(T->begin(), T->end(), vis, "visible"); walk(T->begin_hidden(), T->end_hidden(), hid, "hidden"); walk(T->begin_all(), T->end_all(), all, "all");
        walk(T->cbegin(), T->cend(), vis, "visible"); walk(T->cbegin_hidden(), T->cend_hidden(), hid, "hidden"); walk(T->cbegin_all(), T->cend_all(), all, "all");
        for (size_t k = 0; k != vis.size(); ++k) VP_REQUIRE(c, T->convert_id(k) == vis[k], "id of visible attribute", VP_STR(k));
        auto key = T->primary_key(); VP_REQUIRE(c, key.size() == pk.size(), "primary key", VP_STR(key.size()));
        { size_t k = 0; for (auto i : pk) VP_REQUIRE(c, key[k++].get().id == i, "primary key", VP_STR(i)); }
        const bool al = c.coin();
        Schema S = al ? T->schema(C().pool("alias")) : T->schema({});
        VP_REQUIRE(c, S.num_entries() == M.size(), "schema", "");
        for (size_t i = 0; i != M.size(); ++i) {
            const auto &e = S[i]; const bool u = M[i].uq or (pk.size() == 1 and pk.count(i));
            VP_REQUIRE(c, e.id == Schema::Identifier(C().pool(al ? "alias" : "tab"), pool(names[M[i].name])) and e.type == M[i].ty, "schema entry", VP_STR(e.id));
            VP_REQUIRE(c, uint64_t(e.constraints) == (uint64_t(M[i].nn) | uint64_t(u) << 1 | uint64_t(refs.count(i) and other_unique) << 2 | uint64_t(M[i].hidden) << 3), "schema constraints", VP_STR(e.id << ' ' << e.constraints));
        }
    }
    VP_REQUIRE(c, T->operator==(*T) and not T->operator==(other), "comparison of tables", "");
    c.nontrivial(M.size() >= 3);
}

/*======================================================================================================================
 * Tuples
 *====================================================================================================================*/

using MV = std::optional<std::variant<bool, int64_t, float, double, std::string>>;

VP_PROP("C19", "tuples", 14000, 170000) {
    Schema S; std::vector<Spec> specs; std::vector<const Type*> types;
    const size_t n = c.chance(1, 8) ? 50 + c.draw(14) : 1 + c.size(10);
    for (size_t i = 0; i != n; ++i) {
        Spec s; do s = gen_spec(c, 0); while (not s.primitive() or s.k == Spec::BITMAP or s.k == Spec::VARCHAR); s.vec = true; if (s.k == Spec::CHAR) s.a = 1 + s.a % 40;
        specs.push_back(s); types.push_back(make(s, {})); S.add(id(0, 0), types.back());
        c.log() << show(s) << ' ';
    }
    constexpr size_t R = 3;
    std::deque<std::string> texts; // owners of texts which tuples point to
    std::vector<m::Tuple> T; std::vector<std::vector<MV>> M(R, std::vector<MV>(n));
    for (size_t r = 0; r != R; ++r) { if (c.coin()) T.emplace_back(S); else T.emplace_back(types); }
    // `own[r][i]`: text of tuple r lies in its own buffer; `ref`: pointer stored
    std::vector<std::vector<const void*>> P(R, std::vector<const void*>(n)), buffer(R, std::vector<const void*>(n));
    for (size_t r = 0; r != R; ++r) for (size_t i = 0; i != n; ++i) { VP_REQUIRE(c, T[r].is_null(i), "fresh tuple not NULL", ""); if (specs[i].k == Spec::CHAR) { P[r][i] = buffer[r][i] = T[r][i].as_p(); VP_REQUIRE(c, *(const char*) P[r][i] == 0, "fresh text not empty", ""); } }
    auto value = [&](size_t i) -> m::Value {
        switch (specs[i].k) {
            case Spec::BOOL: return m::Value(c.coin());
            case Spec::FLOAT: return m::Value(gen_real<float>(c));
            case Spec::DOUBLE: return m::Value(gen_real<double>(c));
            case Spec::DATE: return m::Value(int64_t((c.coin() ? c.range(-100, 9999) : 2000) * 512 + int64_t(c.draw(511))));
            case Spec::DATETIME: return m::Value(int64_t(c.coin() ? int64_t(c.draw(315569520000)) - 62135596800 : int64_t(c.draw(4)) * 86399));
            default: return m::Value(int64_t(c.integer(c.coin() ? 3 : 64)));
        }
    };
    auto mv = [&](size_t i, m::Value v) -> MV {
        switch (specs[i].k) { case Spec::BOOL: return MV(v.as_b()); case Spec::FLOAT: return MV(v.as_f()); case Spec::DOUBLE: return MV(v.as_d()); default: return MV(v.as_i()); }
    };
    unsigned ops = 0, eqs = 0;
    for (size_t k = 4 + c.size(40); k; --k, ++ops) {
        const size_t r = c.draw(R - 1), o = c.draw(R - 1), i = c.draw(n - 1);
        const size_t op = c.weighted({12, 4, 3, 2, 3, 2, 2, 3});
        static const char *OP[] = {"set", "null", "set or null", "clear", "clone", "swap", "insert", "compare"};
        c.log() << OP[op] << '(' << r << ", " << (op < 3 or op == 6 ? i : o) << ") ";
        switch (op) {
            case 0:
                if (specs[i].k == Spec::CHAR) {
                    std::string s; for (size_t l = c.draw(specs[i].a); l; --l) s += char(c.chance(1, 9) ? 1 + c.draw(254) : 'a' + c.draw(3));
                    if (c.coin() and P[r][i] == buffer[r][i]) { strcpy((char*) T[r][i].as_p(), s.c_str()); T[r].not_null(i); }
                    else { texts.push_back(s); T[r].set(i, m::Value(texts.back().c_str())); P[r][i] = texts.back().c_str(); }
                    M[r][i] = MV(s);
                } else { auto v = value(i); if (c.chance(1, 4)) { T[r].set(i, v, false); } else T[r].set(i, v); M[r][i] = mv(i, v); }
                break;
            case 1: T[r].null(i); M[r][i].reset(); break;
            case 2: if (specs[i].k != Spec::CHAR) { auto v = value(i); const bool nul = c.coin(); T[r].set(i, v, nul); if (nul) M[r][i].reset(); else M[r][i] = mv(i, v); } break;
            case 3: T[r].clear(); for (auto &x : M[r]) x.reset(); break;
            case 4: { // clone
                if (r == o) break;
                T[o] = T[r].clone(S); M[o] = M[r];
                for (size_t x = 0; x != n; ++x) if (specs[x].k == Spec::CHAR) { P[o][x] = buffer[o][x] = T[o][x].as_p(); VP_REQUIRE(c, P[o][x] != P[r][x], "clone shares text", ""); }
                break;
            }
            case 5: { using std::swap; if (r == o) break; if (c.coin()) swap(T[r], T[o]); else { m::Tuple X(std::move(T[r])); T[r] = std::move(T[o]); T[o] = std::move(X); } std::swap(M[r], M[o]); std::swap(P[r], P[o]); std::swap(buffer[r], buffer[o]); break; }
            case 6: { // insert a range of another tuple
                if (r == o) break;
                const size_t len = c.draw(n - i);
                // positions must have equal types; hence insert at the same position
                m::Tuple part(std::vector<const Type*>(types.begin() + std::ptrdiff_t(i), types.end()));
                for (size_t x = 0; x != len; ++x) part.set(x, T[o][i + x], T[o].is_null(i + x));
                T[r].insert(part, i, len);
                for (size_t x = 0; x != len; ++x) {
                    M[r][i + x] = M[o][i + x];
                    if (specs[i + x].k == Spec::CHAR) { // shallow: a copy of the text is put there to keep tuples apart
                        VP_REQUIRE(c, T[r][i + x].as_p() == P[o][i + x], "inserted text", "");
                        texts.push_back(M[o][i + x] ? std::get<std::string>(*M[o][i + x]) : ""); P[r][i + x] = texts.back().c_str();
                        T[r].set(i + x, m::Value(texts.back().c_str()), not M[r][i + x].has_value());
                    }
                }
                break;
            }
            case 7: { // comparison
                bool eq = true;
                for (size_t x = 0; x != n; ++x) {
                    if (M[r][x].has_value() != M[o][x].has_value()) eq = false;
                    else if (M[r][x]) eq &= specs[x].k == Spec::CHAR ? P[r][x] == P[o][x] : *M[r][x] == *M[o][x]; // texts compare by address
                }
                VP_REQUIRE(c, (T[r] == T[o]) == eq and (T[r] != T[o]) != eq, "comparison", VP_STR(T[r] << " and " << T[o] << " expected " << eq));
                if (eq) VP_REQUIRE(c, std::hash<m::Tuple>{}(T[r]) == std::hash<m::Tuple>{}(T[o]), "hash of equal tuples", VP_STR(T[r] << " and " << T[o]));
                eqs += eq and r != o;
                break;
            }
        }
        for (size_t t = 0; t != R; ++t)
            for (size_t x = 0; x != n; ++x) {
                VP_REQUIRE(c, T[t].is_null(x) == not M[t][x].has_value(), "NULL", VP_STR("tuple " << t << " at " << x << ": " << T[t]));
                if (M[t][x]) {
                    if (specs[x].k == Spec::CHAR) VP_REQUIRE(c, std::string((const char*) T[t].get(x).as_p()) == std::get<std::string>(*M[t][x]), "text", VP_STR("tuple " << t << " at " << x));
                    else VP_REQUIRE(c, mv(x, T[t].get(x)) == M[t][x], "value", VP_STR("tuple " << t << " at " << x << ": " << T[t]));
                }
            }
        std::ostringstream os; os << T[r];
        size_t nulls = 0; for (auto &x : M[r]) nulls += not x; size_t pos = 0, seen = 0; const std::string s = os.str(); while ((pos = s.find("NULL", pos)) != std::string::npos) ++seen, ++pos;
        VP_REQUIRE(c, seen == nulls, "printed NULLs", s);
    }
    // printed with a schema
    for (size_t r = 0; r != R; ++r) {
        std::ostringstream got, want; bool sure = true;
        if (std::any_of(specs.begin(), specs.end(), [](const Spec &s) { return s.k == Spec::DECIMAL and s.a > 18; })) break; // exceed 64 bits
        T[r].print(got, S);
        for (size_t x = 0; x != n; ++x) {
            if (x) want << ',';
            if (not M[r][x]) { want << "NULL"; continue; }
            const m::Value v = T[r].get(x); char b[64];
            switch (specs[x].k) {
                case Spec::BOOL: want << (v.as_b() ? "TRUE" : "FALSE"); break;
                case Spec::CHAR: want << '"' << std::get<std::string>(*M[r][x]) << '"'; break;
                case Spec::FLOAT: want << v.as_f(); break;
                case Spec::DOUBLE: want << v.as_d(); break;
                case Spec::INT: want << v.as_i(); break;
                case Spec::DECIMAL: {
                    const int64_t i = v.as_i(); if (i == INT64_MIN) { sure = false; break; }
                    std::string d = std::to_string(i < 0 ? -i : i); if (d.size() <= specs[x].b) d.insert(0, specs[x].b + 1 - d.size(), '0');
                    if (specs[x].b) d.insert(d.size() - specs[x].b, ".");
                    want << (i < 0 ? "-" : "") << d; break;
                }
                case Spec::DATE: { const int32_t e = int32_t(v.as_i()), y = e >> 9; if (not y or int64_t(e) != v.as_i()) sure = false; snprintf(b, sizeof b, "%s%04d-%02d-%02d", y < 0 ? "-" : "", std::abs(y), e >> 5 & 15, e & 31); want << b; break; }
                case Spec::DATETIME: if (v.as_i() < -62135596800L or v.as_i() > 253402300799L) sure = false; else want << dt_str(v.as_i()); break;
                default: sure = false;
            }
        }
        if (sure) { VP_REQUIRE(c, got.str() == want.str(), "printed", VP_STR(got.str() << " instead of " << want.str())); c.label("printed"); }
    }
    c.label_if(eqs, "equal tuples");
    c.nontrivial(ops >= 8);
}

}
