// C11: indexes against a sorted multimap.
#include "exec.hpp"
#include <mutable/storage/Index.hpp>
#include <cmath>
#include <fstream>
#include <map>
#include <unistd.h>

using namespace db;

namespace {

template<typename K> struct Less { bool operator()(const K &a, const K &b) const { return a < b; } };

template<typename Key> using own_t = std::conditional_t<std::is_same_v<Key, const char*>, std::string, Key>;
template<typename Key> Key give(const own_t<Key> &k) { if constexpr (std::is_same_v<Key, const char*>) return k.c_str(); else return k; }
template<typename Key> own_t<Key> take(const Key &k) { if constexpr (std::is_same_v<Key, const char*>) return std::string(k); else return k; }
template<typename T> std::string str_of(const T &t) { std::ostringstream os; os.precision(17); if constexpr (std::is_same_v<T, std::string>) os << vp::quote(t); else os << +t; return os.str(); }

/// A source of keys with one of several distributions.
template<typename Key> struct Keys {
    Case &c; unsigned kind; own_t<Key> base{}; int64_t step = 1, n = 0; size_t len = 4; std::vector<own_t<Key>> pool;
    explicit Keys(Case &c) : c(c), kind(unsigned(c.draw(5))) {
        step = 1 + int64_t(c.size(100000)); len = 1 + c.size(20);
        if constexpr (not std::is_same_v<Key, const char*>) base = any();
        for (size_t i = 1 + c.draw(6); i; --i) pool.push_back(any());
    }
    own_t<Key> any() {
        if constexpr (std::is_same_v<Key, const char*>) { std::string s; for (size_t n = c.draw(len); n; --n) s += char(c.chance(1, 8) ? 1 + c.draw(254) : 'a' + c.draw(2)); return s; }
        else if constexpr (std::is_same_v<Key, bool>) return c.coin();
        else if constexpr (std::is_floating_point_v<Key>) {
            switch (c.weighted({4, 3, 1, 1})) {
                case 0: return Key(c.range(-40, 40)) / 4;
                case 1: return Key(c.integer(40)) * Key(0.001);
                case 2: { Key m = Key(1 + c.draw(1000)) * Key(c.coin() ? 1 : -1); return std::ldexp(m, int(c.range(-150, 110))); }
                default: return c.oneof<Key>({std::numeric_limits<Key>::max(), std::numeric_limits<Key>::lowest(), std::numeric_limits<Key>::min(), std::numeric_limits<Key>::infinity(), -std::numeric_limits<Key>::infinity(), Key(-0.), Key(0.), std::numeric_limits<Key>::denorm_min()});
            }
        } else return Key(c.integer(sizeof(Key) * 8));
    }
    own_t<Key> operator()() {
        if constexpr (std::is_same_v<Key, const char*> or std::is_same_v<Key, bool>) return c.chance(1, 3) and not pool.empty() ? pool[c.draw(pool.size() - 1)] : any();
        else switch (kind) {
            case 0: return any();
            case 1: return pool[c.draw(pool.size() - 1)]; // few different keys
            case 2: return Key(double(n++) * double(step) > 1e17 ? 0 : n * step); // arithmetic
            case 3: { ++n; if constexpr (std::is_floating_point_v<Key>) return Key(std::pow(1.7, double(n % 140))); else return Key(uint64_t(1) << n % (sizeof(Key) * 8 - 1)); } // geometric
            case 4: if constexpr (std::is_floating_point_v<Key>) return base + Key(c.range(-8, 8)); else return Key(uint64_t(base) + uint64_t(c.range(-8, 8))); // around one key
            default: // clusters far apart
                if constexpr (std::is_floating_point_v<Key>) return pool[c.draw(pool.size() - 1)] + Key(c.range(-8, 8)); else return Key(uint64_t(pool[c.draw(pool.size() - 1)]) + uint64_t(c.range(-8, 8)));
        }
    }
};

void set_ratio(double r) {
    const std::string v = std::to_string(r);
    const char *argv[] = {"x", "--rmi-model-entry-ratio", v.c_str(), nullptr};
    m::Catalog::Get().arg_parser().parse_args(3, argv);
}

template<typename Index> struct Model {
    using Key = typename Index::key_type; using Own = own_t<Key>;
    std::map<Own, std::vector<size_t>> m; size_t n = 0;
    void add(const Own &k, size_t v) { m[k].push_back(v); ++n; }
    size_t lower(const Own &k) const { size_t i = 0; for (auto &[x, v] : m) { if (not (x < k)) break; i += v.size(); } return i; }
    size_t upper(const Own &k) const { size_t i = 0; for (auto &[x, v] : m) { if (k < x) break; i += v.size(); } return i; }
    std::string show() const { std::string s = "entries:"; size_t i = 0; for (auto &[x, v] : m) { if (++i > 300) { s += " ..."; break; } s += " " + str_of(x) + (v.size() > 1 ? VP_STR("*" << v.size()) : ""); } return s; }

    /// All entries in order, each with its values.
    void check_entries(Case &c, const Index &idx) const {
        VP_REQUIRE(c, idx.num_entries() == n and size_t(idx.end() - idx.begin()) == n, "num-entries", "index of " << idx.num_entries() << " entries instead of " << n);
        auto it = idx.begin();
        for (auto &[k, vs] : m) {
            std::vector<size_t> got, want = vs;
            for (size_t i = 0; i != vs.size(); ++i, ++it) {
                const Own g = take<Key>(it->first);
                VP_REQUIRE(c, not (g < k) and not (k < g), "entries", "entry " << it - idx.begin() << " has key " << str_of(g) << " instead of " << str_of(k) << "\n" << show());
                got.push_back(it->second);
            }
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            VP_REQUIRE(c, got == want, "values", "other values for key " << str_of(k) << "\n" << show());
        }
    }
    void check_lookup(Case &c, const Index &idx, const Own &k) const {
        const Key key = give<Key>(k);
        const auto lo = idx.lower_bound(key), hi = idx.upper_bound(key);
        VP_REQUIRE(c, size_t(lo - idx.begin()) == lower(k), "lower-bound", "lower_bound(" << str_of(k) << ") is entry " << lo - idx.begin() << " instead of " << lower(k) << "\n" << show());
        VP_REQUIRE(c, size_t(hi - idx.begin()) == upper(k), "upper-bound", "upper_bound(" << str_of(k) << ") is entry " << hi - idx.begin() << " instead of " << upper(k) << "\n" << show());
    }
};

template<typename Index> void history(Case &c) {
    using Key = typename Index::key_type; using Own = own_t<Key>;
    constexpr bool RMI = requires { typename Index::LinearModel; };
    if constexpr (RMI) { const double r = c.oneof<double>({0.01, 0.5, 0.1, 1, 0.25}); set_ratio(r); c.log() << "ratio " << r << "\n"; }
    Index idx; Model<Index> M; Keys<Key> keys(c); bool fin = false; size_t lookups = 0, refin = 0, value = 0;
    VP_REQUIRE(c, idx.method() == (RMI ? m::idx::IndexMethod::Rmi : m::idx::IndexMethod::Array), "method", "wrong method");
    std::vector<Own> known;
    for (size_t steps = 1 + c.size(10); steps; --steps) {
        switch (c.weighted({4, 3, 3})) {
            case 0: {
                const size_t n = c.size(c.chance(1, 8) ? 400 : 40);
                c.log() << "add";
                for (size_t i = 0; i != n; ++i) {
                    Own k = keys(); if (not RMI or i < 60) c.log() << ' ' << str_of(k);
                    idx.add(give<Key>(k), value); M.add(k, value); ++value; fin = false;
                    if (known.size() < 50) known.push_back(k); else known[c.draw(49)] = k;
                }
                c.log() << "\n"; break;
            }
            case 1: c.log() << "finalize\n"; if (fin) ++refin; idx.finalize(); fin = true; M.check_entries(c, idx); break;
            default: {
                Own k = not known.empty() and c.coin() ? known[c.draw(known.size() - 1)] : keys();
                c.log() << "lookup " << str_of(k) << "\n";
                VP_REQUIRE(c, idx.finalized() == fin, "finalized", "finalized() is " << idx.finalized());
                if (not fin) {
                    for (int up = 0; up != 2; ++up) {
                        bool threw = false;
                        try { if (up) idx.upper_bound(give<Key>(k)); else idx.lower_bound(give<Key>(k)); } catch (m::exception&) { threw = true; }
                        VP_REQUIRE(c, threw, "not-finalized", "lookup in an index which is not finalized gives a result");
                    }
                    c.label("lookup before finalization");
                } else { M.check_lookup(c, idx, k); ++lookups; }
            }
        }
    }
    idx.finalize(); M.check_entries(c, idx);
    for (const Own k : known) { M.check_lookup(c, idx, k); ++lookups; }
    for (size_t i = 0; i != 8; ++i) M.check_lookup(c, idx, keys());
    c.label_if(refin > 0, "finalized again"); c.label_if(M.n == 0, "empty"); c.label_if(M.n > 100, "more than 100 entries"); c.label_if(M.m.size() < M.n, "duplicate keys");
    c.nontrivial(M.n > 2 and M.m.size() > 1 and lookups > 1);
}

VP_PROP("C11", "array", 8000, 80000) {
    using namespace m::idx;
    const unsigned t = unsigned(c.draw(7)); static const char *names[] = {"int32", "int64", "int8", "int16", "float", "double", "string", "bool"};
    c.log() << "array of " << names[t] << "\n"; c.label(names[t]);
    switch (t) {
        case 0: return history<ArrayIndex<int32_t>>(c);
        case 1: return history<ArrayIndex<int64_t>>(c);
        case 2: return history<ArrayIndex<int8_t>>(c);
        case 3: return history<ArrayIndex<int16_t>>(c);
        case 4: return history<ArrayIndex<float>>(c);
        case 5: return history<ArrayIndex<double>>(c);
        case 6: return history<ArrayIndex<const char*>>(c);
        default: return history<ArrayIndex<bool>>(c);
    }
}
VP_PROP("C11", "rmi", 16000, 160000) {
    using namespace m::idx;
    const unsigned t = unsigned(c.draw(5)); static const char *names[] = {"int32", "int64", "int8", "int16", "float", "double"};
    c.log() << "recursive model index of " << names[t] << "\n"; c.label(names[t]);
    switch (t) {
        case 0: return history<RecursiveModelIndex<int32_t>>(c);
        case 1: return history<RecursiveModelIndex<int64_t>>(c);
        case 2: return history<RecursiveModelIndex<int8_t>>(c);
        case 3: return history<RecursiveModelIndex<int16_t>>(c);
        case 4: return history<RecursiveModelIndex<float>>(c);
        default: return history<RecursiveModelIndex<double>>(c);
    }
}

/*----- Bulk loading ---------------------------------------------------------------------------------------------------*/
template<typename Key> own_t<Key> key_of(const Ty &t, const V &v) {
    if constexpr (std::is_same_v<Key, const char*>) return v.s;
    else if constexpr (std::is_floating_point_v<Key>) return Key(v.d);
    else return Key(v.i);
}
template<typename Index> void check_bulk(Case &c, const Index &idx, const Table &t, size_t col) {
    using Key = typename Index::key_type;
    Model<Index> M; const Ty &ty = t.cols[col].ty;
    for (size_t r = 0; r != t.rows.size(); ++r) if (not t.rows[r][col].null) M.add(key_of<Key>(ty, t.rows[r][col]), r);
    VP_REQUIRE(c, idx.finalized(), "finalized", "not finalized after bulk loading");
    M.check_entries(c, idx);
    for (auto &[k, v] : M.m) M.check_lookup(c, idx, k);
    for (size_t i = 0; i != 4; ++i) { const V v = gen_val(c, ty, true); M.check_lookup(c, idx, key_of<Key>(ty, v)); }
}
template<template<typename> typename Index> void by_type(Case &c, const m::idx::IndexBase &idx, const Table &t, size_t col) {
    const Ty &ty = t.cols[col].ty;
    auto as = [&]<typename Key>() { auto p = dynamic_cast<const Index<Key>*>(&idx); VP_REQUIRE(c, p, "index-type", "index of another type for " << ty.sql()); check_bulk(c, *p, t, col); };
    switch (ty.k) {
        case INT: switch (ty.bits) { case 8: return as.template operator()<int8_t>(); case 16: return as.template operator()<int16_t>(); case 32: return as.template operator()<int32_t>(); default: return as.template operator()<int64_t>(); }
        case DEC: switch (to_type(ty)->size()) { case 8: return as.template operator()<int8_t>(); case 16: return as.template operator()<int16_t>(); case 32: return as.template operator()<int32_t>(); default: return as.template operator()<int64_t>(); }
        case F32: return as.template operator()<float>();
        case F64: return as.template operator()<double>();
        case DATE: return as.template operator()<int32_t>();
        case DT: return as.template operator()<int64_t>();
        case BOOL: if constexpr (requires { typename Index<bool>; }) return as.template operator()<bool>(); break;
        case CHR: if constexpr (requires { typename Index<const char*>; }) return as.template operator()<const char*>(); break;
        default: break;
    }
}
template<typename T> using Array = m::idx::ArrayIndex<T>;
template<typename T> requires (not std::is_same_v<T, bool> and not std::is_same_v<T, const char*>) using Rmi = m::idx::RecursiveModelIndex<T>;

template<typename Index> void expect_mismatch(Case &c, const m::Table &table, const m::Schema &S, const Ty &ty) {
    Index idx; bool threw = false;
    try { idx.bulkload(table, S); } catch (m::invalid_argument&) { threw = true; }
    VP_REQUIRE(c, threw and not idx.num_entries(), "mismatch", "bulk loading of " << ty.sql() << " into an index of another type is not rejected");
}

VP_PROP("C11", "bulk", 4000, 50000) {
    Db db; Table t = gen_table(c, "t", c.chance(1, 6) ? 300 : 40, 5);
    db.layout(LAYOUTS[c.draw(7)]);
    c.log() << create_sql(t) << " " << t.rows.size() << " rows\n";
    db.create(c, t, 2);
    const size_t col = c.draw(t.cols.size() - 1); const Ty &ty = t.cols[col].ty;
    auto &table = db.table("t"); auto &D = db.database();
    const bool no_rmi = ty.k == BOOL or ty.k == CHR; bool rmi = not no_rmi and c.coin();
    if (rmi) set_ratio(c.oneof<double>({0.5, 0.01, 0.1, 1}));
    m::Schema S; S.add(table.schema()[col]);
    if (c.coin()) { // by statement
        std::string sql = VP_STR("CREATE INDEX i ON t USING " << (rmi ? "rmi" : "array") << " ( " << t.cols[col].name << " );");
        if (not rmi and c.coin()) sql = VP_STR("CREATE INDEX i ON t ( " << t.cols[col].name << " );");
        c.log() << sql << "\n";
        Diag d; std::istringstream in(sql); m::process_stream(in, "in", d.diag);
        VP_REQUIRE(c, d.err.str().empty(), "create", "creation failed: " << sql << "\n" << d.err.str());
        const auto cn = db.C.pool(t.cols[col].name.c_str());
        const auto method = rmi ? m::idx::IndexMethod::Rmi : m::idx::IndexMethod::Array;
        VP_REQUIRE(c, D.has_index(db.C.pool("i")) and D.has_index(table.name(), cn, method), "has-index", "the index is not there");
        auto &idx = D.get_index(table.name(), cn, method);
        VP_REQUIRE(c, &idx == &D.get_index(db.C.pool("i")), "has-index", "two indexes");
        if (rmi) by_type<Rmi>(c, idx, t, col); else by_type<Array>(c, idx, t, col);
        // rows which come later must not be looked up in the index
        if (c.coin()) {
            Table more = t; more.rows.clear(); for (size_t n = 1 + c.draw(2); n; --n) { Row r; for (auto &k : t.cols) r.push_back(gen_val(c, k.ty, false)); more.rows.push_back(r); }
            std::ostringstream os; os << "INSERT INTO t VALUES ";
            for (size_t k = 0; k != more.rows.size(); ++k) { os << (k ? ", (" : "("); for (size_t j = 0; j != t.cols.size(); ++j) os << (j ? ", " : "") << lit(t.cols[j].ty, more.rows[k][j]); os << ')'; }
            os << ';'; c.log() << os.str() << "\n"; c.label("insert afterwards");
            if (c.chance(1, 3)) { // by import
                char dir[] = "/tmp/vp-idx-XXXXXX"; const std::string d = mkdtemp(dir), f = d + "/f.csv";
                { std::ofstream o(f); o << std::string(t.cols.size() - 1, ',') << '\n'; }
                const std::string imp = "IMPORT INTO t DSV \"" + f + "\";"; const unsigned how = unsigned(c.draw(2)); Diag d2;
                if (how == 0) db.exec(c, imp); else if (how == 1) { std::istringstream in2(imp); m::process_stream(in2, "in", d2.diag); } else m::load_from_CSV(d2.diag, table, f, 10, false, false);
                unlink(f.c_str()); rmdir(d.c_str());
                VP_REQUIRE(c, table.store().num_rows() > t.rows.size(), "import", "nothing imported\n" << d2.err.str()); c.label("import afterwards");
            } else if (c.coin()) db.exec(c, os.str()); else { Diag d2; std::istringstream in2(os.str()); m::process_stream(in2, "in", d2.diag); VP_REQUIRE(c, d2.err.str().empty(), "insert", d2.err.str()); }
            VP_REQUIRE(c, not D.has_index(table.name(), cn, method), "stale", "an index without the new rows remains valid");
            bool threw = false; try { D.get_index(table.name(), cn, method); } catch (m::invalid_argument&) { threw = true; }
            VP_REQUIRE(c, threw, "stale", "an index without the new rows is given out");
        }
        c.label("statement");
    } else {
        auto load = [&]<template<typename> typename Index>() {
            auto go = [&]<typename Key>() { Index<Key> idx; idx.bulkload(table, S); by_type<Index>(c, idx, t, col); };
            switch (ty.k) {
                case INT: switch (ty.bits) { case 8: return go.template operator()<int8_t>(); case 16: return go.template operator()<int16_t>(); case 32: return go.template operator()<int32_t>(); default: return go.template operator()<int64_t>(); }
                case DEC: switch (to_type(ty)->size()) { case 8: return go.template operator()<int8_t>(); case 16: return go.template operator()<int16_t>(); case 32: return go.template operator()<int32_t>(); default: return go.template operator()<int64_t>(); }
                case F32: return go.template operator()<float>();
                case F64: return go.template operator()<double>();
                case DATE: return go.template operator()<int32_t>();
                case DT: return go.template operator()<int64_t>();
                case BOOL: if constexpr (requires { typename Index<bool>; }) return go.template operator()<bool>(); break;
                case CHR: if constexpr (requires { typename Index<const char*>; }) return go.template operator()<const char*>(); break;
                default: break;
            }
        };
        if (rmi) load.template operator()<Rmi>(); else load.template operator()<Array>();
        // misuse
        if (ty.k != F64) expect_mismatch<Array<double>>(c, table, S, ty);
        if (ty.k != CHR) expect_mismatch<Array<const char*>>(c, table, S, ty);
        if (ty.k != BOOL) expect_mismatch<Array<bool>>(c, table, S, ty);
        if (to_type(ty)->size() != 16 or ty.k == CHR) expect_mismatch<Array<int16_t>>(c, table, S, ty);
        if (t.cols.size() > 1) { m::idx::ArrayIndex<int32_t> idx; bool threw = false; try { idx.bulkload(table, table.schema()); } catch (m::invalid_argument&) { threw = true; } VP_REQUIRE(c, threw, "several-keys", "bulk loading of several attributes is not rejected"); }
    }
    size_t nn = 0; for (auto &r : t.rows) nn += not r[col].null;
    c.label(ty.sql().substr(0, 4)); c.label_if(rmi, "rmi"); c.label_if(nn < t.rows.size(), "NULLs");
    c.nontrivial(nn > 2);
}

}
