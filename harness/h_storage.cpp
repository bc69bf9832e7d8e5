// C05 storage: data layouts, access to rows through them, tables, bulk manipulation of columns.
#include "exec.hpp"
#include "backend/Interpreter.hpp"
#include "backend/StackMachine.hpp"
#include "storage/store_manip.hpp"
#include <mutable/storage/DataLayout.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <map>
#include <memory>
#include <random>

using namespace db;
using m::storage::DataLayout;

namespace {

/*----- Types ----------------------------------------------------------------------------------------------------------*/
Ty gen_ty(Case &c, bool big = true) {
    switch (c.weighted({5, 4, 3, 3, 1, 1, 1, 1})) {
        case 0: return mk_int(c.oneof<unsigned>({32, 64, 16, 8}));
        case 1: return mk(BOOL);
        case 2: { unsigned len = 1 + unsigned(c.size(big ? 60 : 12)); bool v = c.chance(1, 3); return mk_chr(len, v); }
        case 3: { unsigned p = 1 + unsigned(c.draw(17)); return mk_dec(p, unsigned(c.draw(std::min(p, 4u)))); }
        case 4: return mk(F32);
        case 5: return mk(F64);
        case 6: return mk(DATE);
        default: return mk(DT);
    }
}
V gen_v(Case &c, const Ty &t) {
    if (t.k == CHR) {
        std::string s; const size_t n = c.coin() ? t.len : c.draw(t.len);
        for (size_t i = 0; i != n; ++i) s += char(c.chance(1, 4) ? 1 + c.draw(254) : 'a' + c.draw(3));
        return V::S(s);
    }
    if (t.k == DEC) return V::I(c.integer(t.prec <= 9 ? 30 : 60) % pow10(t.prec));
    if (t.k == F64) return V::D(c.chance(1, 8) ? double(c.integer(64)) : double(c.integer(30)) / 8);
    if (t.k == F32) return V::D(float(double(c.integer(24)) / 8));
    return gen_val(c, t, true);
}

/*----- Layouts --------------------------------------------------------------------------------------------------------*/
struct Place { uint64_t first, bits; }; ///< in bits
/// The places of attribute \p i of tuple \p row; i == types.size() is the NULL bitmap.
struct Geometry {
    DataLayout layout; std::vector<const m::Type*> types; std::string name;
    uint64_t block_bits = 0, block_tuples = 0; std::vector<uint64_t> off, stride;
    struct Level { uint64_t tuples, off, stride; }; ///< an instance of a node of the layout
    std::vector<std::vector<Level>> path; ///< of each attribute from the root to its leaf, if nested
    bool bitmap = true;
    Place place(size_t i, size_t row) const {
        if (not path.empty()) {
            uint64_t pos = 0;
            for (auto &l : path[i]) { pos += l.off + row / l.tuples * l.stride; row %= l.tuples; }
            return {pos, i == types.size() ? types.size() : types[i]->size()};
        }
        const uint64_t first = row / block_tuples * block_bits + off[i] + row % block_tuples * stride[i];
        return {first, i == types.size() ? types.size() : types[i]->size()};
    }
    uint64_t bytes(size_t rows) const { return (rows + block_tuples - 1) / block_tuples * block_bits / 8; }
};

DataLayout gen_layout(Case &c, const std::vector<const m::Type*> &types, size_t num_tuples, std::string &name) {
    switch (c.weighted({2, 4, 4})) {
        case 0: name = "row"; return m::storage::RowLayoutFactory().make(types, num_tuples);
        case 1: { const size_t n = c.coin() ? 1 + c.draw(70) : size_t(1) << c.draw(8);
            name = VP_STR("PAX of " << n << " tuples"); return m::storage::PAXLayoutFactory(m::storage::PAXLayoutFactory::NTuples, n).make(types, num_tuples); }
        default: { const size_t n = c.coin() ? 64 * (1 + c.draw(15)) : size_t(64) << c.draw(6);
            name = VP_STR("PAX of " << n << " bytes"); return m::storage::PAXLayoutFactory(m::storage::PAXLayoutFactory::NBytes, n).make(types, num_tuples); }
    }
}
/// Reads a layout through its public tree: one internal node below the root, with a leaf per attribute and one for the NULL bitmap.
void analyse(Case &c, Geometry &g) {
    const auto &root = static_cast<const DataLayout::INode&>(g.layout);
    VP_REQUIRE(c, root.num_children() == 1, "layout-shape", "layout without a child");
    g.off.assign(g.types.size() + 1, UINT64_MAX); g.stride.assign(g.types.size() + 1, 0);
    std::vector<unsigned> seen(g.types.size() + 1);
    size_t calls = 0;
    g.layout.for_sibling_leaves([&](const std::vector<DataLayout::leaf_info_t> &leaves, const DataLayout::level_info_stack_t &levels, uint64_t base) {
        ++calls;
        VP_REQUIRE(c, levels.size() == 1, "layout-shape", levels.size() << " levels");
        g.block_bits = levels[0].stride_in_bits; g.block_tuples = levels[0].num_tuples;
        for (auto &l : leaves) {
            const size_t i = l.leaf.index();
            VP_REQUIRE(c, i <= g.types.size(), "leaf-index", "leaf with index " << i << " of " << g.types.size());
            VP_REQUIRE(c, ++seen[i] == 1, "leaf-twice", "two leaves for attribute " << i);
            if (i < g.types.size()) { VP_REQUIRE(c, l.leaf.type() == g.types[i], "leaf-type", "attribute " << i << " has type " << *l.leaf.type() << " instead of " << *g.types[i]); }
            else { VP_REQUIRE(c, l.leaf.type()->is_bitmap() and l.leaf.type()->size() == g.types.size(), "bitmap", "NULL bitmap of type " << *l.leaf.type()); }
            g.off[i] = base + l.offset_in_bits; g.stride[i] = l.stride_in_bits;
        }
    });
    VP_REQUIRE(c, calls == 1, "layout-shape", calls << " groups of leaves");
    for (size_t i = 0; i <= g.types.size(); ++i) VP_REQUIRE(c, seen[i] == 1, "leaf-missing", "no leaf for attribute " << i << " of " << g.types.size());
    VP_REQUIRE(c, g.block_tuples >= 1 and g.block_bits % 8 == 0, "block", "a block of " << g.block_tuples << " tuples takes " << g.block_bits << " bits");
    // the tree says the same
    auto &node = m::as<const DataLayout::INode>(g.layout.child());
    VP_REQUIRE(c, node.num_tuples() == g.block_tuples and g.layout.stride_in_bits() == g.block_bits and node.num_children() == g.types.size() + 1, "tree", "tree and siblings differ");
    for (auto it = node.begin(); it != node.end(); ++it) {
        auto &ch = *it; auto &leaf = m::as<const DataLayout::Leaf>(*ch.ptr);
        VP_REQUIRE(c, g.off[leaf.index()] == ch.offset_in_bits and g.stride[leaf.index()] == ch.stride_in_bits, "tree", "tree and siblings differ in attribute " << leaf.index());
    }
}
Geometry gen_geometry(Case &c, const std::vector<Ty> &tys) {
    Geometry g;
    for (auto &t : tys) g.types.push_back(to_type(t));
    g.layout = gen_layout(c, g.types, 0, g.name);
    analyse(c, g);
    return g;
}
std::string describe(const std::vector<Ty> &tys) { std::string s; for (auto &t : tys) s += (s.empty() ? "" : ", ") + t.sql(); return s; }

m::Schema make_schema(const std::vector<const m::Type*> &types, const std::vector<bool> &notnull, m::Catalog &C) {
    m::Schema S;
    for (size_t i = 0; i != types.size(); ++i)
        S.add(m::Schema::Identifier(C.pool("t"), C.pool(VP_STR("a" << i).c_str())), types[i], notnull.size() > i and notnull[i] ? m::Schema::entry_type::NOT_NULLABLE : m::Schema::entry_type::constraints_t{0});
    return S;
}

/// A layout of nodes nested at will.
Geometry gen_nested(Case &c, const std::vector<Ty> &tys, bool nullable) {
    Geometry g; for (auto &t : tys) g.types.push_back(to_type(t));
    const size_t n = tys.size(); g.bitmap = nullable or c.coin(); g.path.resize(n + 1); g.name = "nested";
    g.layout = DataLayout(0);
    unsigned most = 0;
    struct Node { uint64_t tuples; std::vector<size_t> leaves; std::vector<std::pair<uint64_t, uint64_t>> leaf_at; std::vector<Node> kids; uint64_t off = 0, stride = 0, bits = 0, align = 8; };
    auto up = [](uint64_t x, uint64_t a) { return (x + a - 1) / a * a; };
    auto make = [&](uint64_t tuples, std::vector<size_t> todo, unsigned depth, auto &rec) -> Node {
        Node N; N.tuples = tuples; most = std::max(most, depth);
        std::vector<std::vector<size_t>> groups(c.draw(2));
        for (size_t i : todo) { const size_t k = depth < 4 ? c.draw(groups.size()) : 0; if (k) groups[k - 1].push_back(i); else N.leaves.push_back(i); }
        std::vector<bool> order; for (size_t i = 0; i != N.leaves.size(); ++i) order.push_back(true);
        for (auto &grp : groups) if (not grp.empty()) {
            std::vector<uint64_t> div; for (uint64_t d = 1; d <= tuples; ++d) if (tuples % d == 0) div.push_back(d);
            N.kids.push_back(rec(c.pick(div), grp, depth + 1, rec)); order.push_back(false);
        }
        for (size_t i = order.size(); i > 1; --i) { size_t j = c.draw(i - 1); bool t = order[i - 1]; order[i - 1] = order[j]; order[j] = t; }
        uint64_t pos = 0; size_t li = 0, ki = 0;
        for (bool leaf : order) {
            if (c.chance(1, 4)) pos = up(pos, 8) + 8 * c.draw(3); // a hole
            if (leaf) {
                const size_t i = N.leaves[li++]; const bool bitmap = i == n, bit = bitmap or g.types[i]->is_boolean();
                const uint64_t bits = bitmap ? n : g.types[i]->size(), al = bit ? 1 : std::max<uint64_t>(8, g.types[i]->alignment());
                uint64_t stride = 0;
                if (tuples > 1) {
                    if (bitmap) stride = bits + (c.coin() ? 0 : c.draw(9)); // any number of bits
                    else if (bit) stride = c.coin() ? 1 : 8 * (1 + c.draw(1)); // neighbouring bits, or a bit of every (second) byte
                    else stride = up(bits, al) + (c.chance(1, 4) ? al : 0);
                }
                // bits which advance by less than a byte begin with a byte, so does an advancing bitmap
                pos = up(pos, stride % 8 or (bitmap and stride) ? 8 : al); if (bit and stride % 8 == 0 and not (bitmap and stride) and c.coin()) pos += c.draw(7);
                N.leaf_at.push_back({pos, stride}); N.align = std::max(N.align, al);
                pos += tuples > 1 ? tuples * stride : bits; // whole strides
            } else {
                Node &K = N.kids[ki++]; N.align = std::max(N.align, K.align);
                K.off = pos = up(pos, K.align);
                K.stride = tuples > 1 ? up(K.bits, K.align) + (c.chance(1, 3) ? K.align * c.draw(2) : 0) : 0;
                pos += tuples > 1 ? tuples / K.tuples * K.stride : K.bits;
            }
        }
        N.bits = up(pos, N.align);
        return N;
    };
    std::vector<size_t> todo; for (size_t i = 0; i != n + g.bitmap; ++i) todo.push_back(i);
    if (n == 1 and not g.bitmap and c.coin()) { // a single leaf
        const auto *t = g.types[0]; const uint64_t al = std::max<uint64_t>(8, t->alignment()), stride = t->is_boolean() ? c.oneof<uint64_t>({1, 8}) : up(t->size(), al);
        g.layout.add_leaf(t, 0, stride); g.path[0] = {{1, 0, stride}}; g.name = "leaf"; g.block_tuples = 8; g.block_bits = 8 * stride; c.log() << "leaf with stride " << stride << "\n";
        return g;
    }
    const uint64_t block = c.oneof<uint64_t>({1, 2, 3, 4, 6, 8, 12, 16, 24, 36, 64});
    Node root = make(block, todo, 1, make);
    g.block_tuples = block; g.block_bits = up(root.bits, root.align) + (c.chance(1, 3) ? root.align * c.draw(3) : 0);
    root.stride = g.block_bits;
    size_t groups = 0;
    std::map<size_t, std::vector<Geometry::Level>> levels; // by first leaf of a node
    auto build = [&](DataLayout::INode &I, const Node &N, std::vector<Geometry::Level> path, auto &rec) -> void {
        path.push_back({N.tuples, N.off, N.stride});
        c.log() << "(" << N.tuples << " at " << N.off << "+" << N.stride << ":";
        for (size_t k = 0; k != N.leaves.size(); ++k) {
            const size_t i = N.leaves[k]; auto [off, stride] = N.leaf_at[k];
            I.add_leaf(i == n ? m::Type::Get_Bitmap(m::Type::TY_Vector, n) : g.types[i], i, off, stride);
            g.path[i] = path; g.path[i].push_back({1, off, stride}); c.log() << " a" << i << " at " << off << "+" << stride;
        }
        groups += not N.leaves.empty();
        for (auto &K : N.kids) rec(I.add_inode(K.tuples, K.off, K.stride), K, path, rec);
        c.log() << ")";
    };
    build(g.layout.add_inode(root.tuples, root.stride), root, {}, build); c.log() << "\n";
    // the groups of leaves
    size_t calls = 0, seen = 0;
    g.layout.for_sibling_leaves([&](const std::vector<DataLayout::leaf_info_t> &leaves, const DataLayout::level_info_stack_t &ls, uint64_t base) {
        ++calls;
        for (auto &l : leaves) {
            ++seen; auto &p = g.path[l.leaf.index()]; uint64_t sum = 0;
            VP_REQUIRE(c, ls.size() + 1 == p.size(), "levels", "attribute " << l.leaf.index() << " at level " << ls.size());
            for (size_t k = 0; k != ls.size(); ++k) { sum += p[k].off; VP_REQUIRE(c, ls[k].num_tuples == p[k].tuples and ls[k].stride_in_bits == p[k].stride, "levels", "level " << k << " of attribute " << l.leaf.index()); }
            VP_REQUIRE(c, base == sum and l.offset_in_bits == p.back().off and l.stride_in_bits == p.back().stride, "leaf", "attribute " << l.leaf.index() << " at " << base << "+" << l.offset_in_bits);
        }
    });
    VP_REQUIRE(c, calls == groups and seen == todo.size(), "groups", calls << " groups of " << seen << " leaves");
    c.label(VP_STR(most << " levels")); c.label_if(groups > 1, "several groups");
    return g;
}

VP_PROP("C05", "layouts", 80000, 800000) {
    m::Catalog &C = m::Catalog::Get();
    std::vector<Ty> tys; const size_t n = 1 + (c.chance(1, 10) ? c.draw(66) : c.size(12));
    for (size_t i = 0; i != n; ++i) tys.push_back(gen_ty(c));
    Geometry g; for (auto &t : tys) g.types.push_back(to_type(t));
    const size_t num_tuples = c.coin() ? 0 : 2 + c.draw(1000);
    c.log() << describe(tys) << "\n";
    g.layout = gen_layout(c, g.types, num_tuples, g.name);
    c.log() << g.name << ", for " << num_tuples << " tuples\n";
    VP_REQUIRE(c, g.layout.is_finite() == (num_tuples != 0) and (not num_tuples or g.layout.num_tuples() == num_tuples), "num-tuples", "layout for another number of tuples");
    analyse(c, g);
    c.nontrivial(n > 1); c.label(g.name.substr(0, 3)); c.label_if(g.block_tuples > 1, "several tuples per block"); c.label_if(n > 20, "more than 20 attributes");
    // Places are disjoint within two neighbouring blocks, hence anywhere.
    const uint64_t total = 2 * g.block_bits;
    std::vector<int> owner(total, -1);
    const size_t rows = std::min<size_t>(2 * g.block_tuples, 600);
    std::vector<size_t> ids;
    for (size_t r = 0; r != rows; ++r) ids.push_back(r < rows / 2 ? r : 2 * g.block_tuples - (rows - r)); // the first ones and the last ones
    for (size_t k = 0; k != ids.size(); ++k) for (size_t i = 0; i <= n; ++i) {
        const size_t r = ids[k]; const Place p = g.place(i, r);
        VP_REQUIRE(c, p.first + p.bits <= total, "outside", "attribute " << i << " of tuple " << r << " takes bits " << p.first << "+" << p.bits << " outside of blocks of " << g.block_bits << " bits");
        if (i < n) {
            const auto *t = g.types[i];
            if (t->is_boolean()) { }
            else VP_REQUIRE(c, p.first % std::max<uint64_t>(8, t->alignment()) == 0, "alignment", "attribute " << i << " of type " << *t << " of tuple " << r << " starts at bit " << p.first);
        }
        for (uint64_t b = p.first; b != p.first + p.bits; ++b) {
            VP_REQUIRE(c, owner[b] == -1, "overlap", "attribute " << i << " of tuple " << r << " and attribute " << owner[b] % int(n + 1) << " of tuple " << ids[owner[b] / int(n + 1)] << " share bit " << b);
            owner[b] = int(k * (n + 1) + i);
        }
    }
    // Access by lanes: where promised, neighbouring tuples are neighbours in memory.
    m::Schema S = make_schema(g.types, {}, C), sub;
    std::vector<size_t> pick; for (size_t i = 0; i != n; ++i) if (c.coin()) pick.push_back(i);
    if (pick.empty()) pick.push_back(c.draw(n - 1));
    std::vector<bool> nn; for (size_t i = 0; i != n; ++i) nn.push_back(c.coin());
    const bool all_nullable = c.coin();
    m::Schema L = make_schema(g.types, all_nullable ? std::vector<bool>{} : nn, C);
    for (size_t i : pick) sub.add(L[i].id, L[i].type, L[i].constraints);
    if (m::storage::supports_simd(g.layout, L, sub)) {
        const size_t lanes = m::storage::get_num_simd_lanes(g.layout, L, sub);
        c.label("lanes"); c.label_if(lanes > 1, "several lanes");
        VP_REQUIRE(c, lanes >= 1 and g.block_tuples % lanes == 0, "lanes", lanes << " lanes in blocks of " << g.block_tuples << " tuples");
        for (size_t i : pick) {
            const auto *t = g.types[i];
            VP_REQUIRE(c, not t->is_character_sequence(), "lanes", "lanes of texts");
            if (g.block_tuples > 1) VP_REQUIRE(c, g.stride[i] == t->size(), "lanes", "attribute " << i << " is " << t->size() << " bits wide, with stride " << g.stride[i]);
            VP_REQUIRE(c, lanes * t->size() % 8 == 0 or lanes == 1, "lanes", "lanes end within a byte");
            VP_REQUIRE(c, t->size() < 8 or lanes * t->size() >= 128, "lanes", lanes << " lanes of " << t->size() << " bits do not fill a vector");
        }
    }
}

/*----- Access to rows -------------------------------------------------------------------------------------------------*/
// The StackMachines compiled to store and to load rows, on memory of exactly the size of the layout.  After each row stored, only its bits may have changed.
void run_rows(Case &c, bool nested) {
    m::Catalog &C = m::Catalog::Get();
    std::vector<Ty> tys; const size_t n = 1 + (c.chance(1, 12) ? c.draw(60) : c.size(8));
    for (size_t i = 0; i != n; ++i) tys.push_back(gen_ty(c));
    c.log() << describe(tys) << "\n";
    std::vector<bool> nn; const bool some_nn = c.chance(1, 3); for (size_t i = 0; i != n; ++i) nn.push_back(some_nn and c.coin());
    Geometry g = nested ? gen_nested(c, tys, std::find(nn.begin(), nn.end(), false) != nn.end()) : gen_geometry(c, tys);
    const m::Schema L = make_schema(g.types, nn, C);
    const size_t rows = 1 + (c.coin() ? c.draw(3 * std::min<size_t>(g.block_tuples, 60)) : c.size(40));
    c.log() << g.name << ", " << rows << " rows\n";
    const size_t bytes = g.bytes(rows);
    auto mem = std::make_unique<uint64_t[]>((bytes + 7) / 8); // aligned; the sanitizer guards both ends
    uint8_t *base = reinterpret_cast<uint8_t*>(mem.get());
    const bool dirty = c.coin(); if (dirty) for (size_t i = 0; i != bytes; ++i) base[i] = uint8_t(vp::mix64(i));
    std::vector<Row> model(rows, Row(n)); std::vector<std::vector<bool>> known(rows, std::vector<bool>(n, false));
    size_t stored = 0, loaded = 0;

    auto random_subset = [&](std::vector<size_t> &idx, m::Schema &S) {
        for (size_t i = 0; i != n; ++i) idx.push_back(i);
        if (c.chance(1, 3)) {
            for (size_t i = n; i > 1; --i) std::swap(idx[i - 1], idx[c.draw(i - 1)]);
            idx.resize(1 + c.draw(n - 1));
        }
        for (size_t i : idx) S.add(L[i].id, L[i].type, L[i].constraints);
    };
    auto store = [&](size_t first, size_t count) {
        std::vector<size_t> idx; m::Schema S; random_subset(idx, S);
        const size_t tid = c.draw(1);
        auto W = m::Interpreter::compile_store(S, base, g.layout, L, first, tid);
        m::Tuple tup(S), other(S);
        for (size_t r = first; r != first + count; ++r) {
            std::vector<uint8_t> before(base, base + bytes);
            for (size_t k = 0; k != idx.size(); ++k) {
                const size_t i = idx[k];
                V v = not nn[i] and c.chance(1, 4) ? V::N() : gen_v(c, tys[i]);
                set_tuple(tup, k, tys[i], v); model[r][i] = v; known[r][i] = true;
            }
            m::Tuple *args[] = {tid ? &other : &tup, tid ? &tup : &other};
            W(args); ++stored;
            // nothing else has changed
            std::vector<bool> mine(bytes * 8);
            for (size_t i : idx) {
                const Place p = g.place(i, r); for (uint64_t b = p.first; b != p.first + p.bits; ++b) mine[b] = true;
                if (g.bitmap) mine[g.place(n, r).first + i] = true;
            }
            for (size_t b = 0; b != bytes; ++b) if (before[b] != base[b])
                for (size_t k = 0; k != 8; ++k) if (((before[b] ^ base[b]) >> k & 1) and not mine[b * 8 + k])
                    c.fail("disturbed", VP_STR("storing row " << r << " changed bit " << b * 8 + k << ", which belongs to something else\n"));
            // NULL bits
            for (size_t i : idx) if (not nn[i]) {
                const uint64_t b = g.place(n, r).first + i;
                VP_REQUIRE(c, (base[b / 8] >> b % 8 & 1) == model[r][i].null, "null-bit", "NULL bit of attribute " << i << " of row " << r << " is wrong");
            }
        }
    };
    auto load = [&](size_t first, size_t count) {
        std::vector<size_t> idx; m::Schema S; random_subset(idx, S);
        std::vector<uint8_t> before(base, base + bytes);
        const size_t tid = c.draw(1);
        auto R = m::Interpreter::compile_load(S, base, g.layout, L, first, tid);
        m::Tuple tup(S), other(S);
        for (size_t r = first; r != first + count; ++r) {
            m::Tuple *args[] = {tid ? &other : &tup, tid ? &tup : &other};
            // skip rows which are not entirely known: their bits are arbitrary
            R(args);
            for (size_t k = 0; k != idx.size(); ++k) if (known[r][idx[k]]) {
                ++loaded;
                const size_t i = idx[k]; const V got = get_tuple(tup, k, L[i].type), &want = model[r][i];
                VP_REQUIRE(c, cmp_null(tys[i], got, want) == 0, "value", "row " << r << ", attribute " << i << " (" << tys[i].sql() << "): read " << show(tys[i], got) << " instead of " << show(tys[i], want));
            }
        }
        VP_REQUIRE(c, memcmp(before.data(), base, bytes) == 0, "load-writes", "loading rows changed the memory");
    };
    // arbitrary bits may be no valid boolean or float; a first pass gives each row its values
    store(0, rows);
    for (size_t k = c.size(6); k; --k) {
        const size_t first = c.draw(rows - 1), count = 1 + c.draw(rows - first - 1);
        if (c.coin()) store(first, count); else load(first, count);
    }
    load(0, rows);
    c.nontrivial(rows > 1 and n > 1); c.label(g.name.substr(0, 3));
    c.label_if(rows > g.block_tuples, "several blocks"); c.label_if(some_nn, "attributes without NULL"); c.label_if(n > 32, "more than 32 attributes");
    c.log() << stored << " rows stored, " << loaded << " values loaded\n";
}
VP_PROP("C05", "rows", 30000, 400000) { run_rows(c, false); }
VP_PROP("C05", "nested layouts", 20000, 400000) { run_rows(c, true); }

/*----- Tables ---------------------------------------------------------------------------------------------------------*/
// A history of appends by writers and by INSERT statements, drops, and reads from any row on, on several tables.
VP_PROP("C05", "tables", 4000, 40000) {
    Db db;
    struct Tab { Table t; std::string layout; std::unique_ptr<m::StoreWriter> w[2]; std::vector<Row> rows; };
    std::vector<Tab> tabs(1 + c.draw(1));
    for (size_t k = 0; k != tabs.size(); ++k) {
        auto &T = tabs[k]; T.t.name = VP_STR("t" << k); T.layout = LAYOUTS[c.draw(7)];
        const size_t n = 1 + c.size(c.chance(1, 8) ? 60 : 7);
        for (size_t i = 0; i != n; ++i) { Col col; col.name = VP_STR("c" << i); col.ty = gen_ty(c); col.notnull = c.chance(1, 6); T.t.cols.push_back(col); }
        db.layout(T.layout.c_str());
        c.log() << T.layout << ": " << create_sql(T.t) << "\n";
        db.exec(c, create_sql(T.t));
    }
    auto gen_row = [&](Tab &T, bool literal) {
        Row r;
        for (auto &col : T.t.cols) {
            if (not col.notnull and c.chance(1, 5)) { r.push_back(V::N()); continue; }
            V v = literal and col.ty.k == DEC ? V::I(c.range(-9, 9) % pow10(std::min(col.ty.prec - col.ty.scale, 1u)) * pow10(col.ty.scale)) : literal ? gen_val(c, col.ty, true) : gen_v(c, col.ty);
            r.push_back(v);
        }
        return r;
    };
    size_t appended = 0, dropped = 0, inserted = 0;
    auto check = [&](Tab &T) {
        auto &table = db.table(T.t.name); auto &store = table.store();
        VP_REQUIRE(c, store.num_rows() == T.rows.size(), "num-rows", "store of " << T.t.name << " has " << store.num_rows() << " rows instead of " << T.rows.size());
        if (T.rows.empty()) return;
        const size_t first = c.coin() ? 0 : c.draw(T.rows.size() - 1);
        const m::Schema S = table.schema();
        auto R = m::Interpreter::compile_load(S, store.memory().addr(), table.layout(), S, first);
        m::Tuple tup(S); m::Tuple *args[] = {&tup};
        for (size_t r = first; r != T.rows.size(); ++r) {
            R(args);
            for (size_t i = 0; i != T.t.cols.size(); ++i) {
                const auto &ty = T.t.cols[i].ty; const V got = get_tuple(tup, i, S[i].type);
                VP_REQUIRE(c, cmp_null(ty, got, T.rows[r][i]) == 0, "value", T.t.name << " row " << r << ", column " << i << " (" << ty.sql() << "): read " << show(ty, got) << " instead of " << show(ty, T.rows[r][i]));
            }
        }
    };
    for (size_t steps = 1 + c.size(14); steps; --steps) {
        auto &T = tabs[c.draw(tabs.size() - 1)]; auto &store = db.table(T.t.name).store();
        switch (c.weighted({5, 2, 3, 2, 2})) {
            case 0: { // a writer, kept over the history
                auto &w = T.w[c.draw(1)];
                if (not w) w = std::make_unique<m::StoreWriter>(store);
                const size_t n = 1 + c.size(c.chance(1, 6) ? 300 : 20);
                m::Tuple tup(w->schema());
                for (size_t k = 0; k != n; ++k) {
                    Row r = gen_row(T, false);
                    for (size_t i = 0; i != r.size(); ++i) set_tuple(tup, i, T.t.cols[i].ty, r[i]);
                    w->append(tup); T.rows.push_back(std::move(r)); ++appended;
                }
                c.log() << "append " << n << " rows to " << T.t.name << "\n";
                break;
            }
            case 1: { // INSERT
                const size_t n = 1 + c.size(12); std::ostringstream os; os << "INSERT INTO " << T.t.name << " VALUES ";
                for (size_t k = 0; k != n; ++k) {
                    Row r = gen_row(T, true); os << (k ? ", (" : "(");
                    for (size_t i = 0; i != r.size(); ++i) os << (i ? ", " : "") << lit(T.t.cols[i].ty, r[i]);
                    os << ')'; T.rows.push_back(std::move(r)); ++inserted;
                }
                os << ';'; c.log() << os.str() << "\n";
                db.exec(c, os.str());
                break;
            }
            case 2: check(T); break;
            case 3: { // drop
                const size_t n = std::min(T.rows.size(), 1 + c.size(5));
                for (size_t k = 0; k != n; ++k) { store.drop(); T.rows.pop_back(); ++dropped; }
                c.log() << "drop " << n << " rows of " << T.t.name << "\n";
                break;
            }
            case 4: { // a fresh writer
                T.w[c.draw(1)].reset(); break;
            }
        }
    }
    for (auto &T : tabs) check(T);
    c.nontrivial(appended + inserted > 1); c.label_if(dropped, "drops"); c.label_if(inserted and appended, "writers and INSERT");
    c.label_if(tabs[0].w[0] and tabs[0].w[1], "two writers"); c.label_if(appended > 300, "more than 300 rows");
}

/*----- Capacity -------------------------------------------------------------------------------------------------------*/
// Rows so wide that the store runs full: each row which could be appended lies within the memory of the store.
VP_PROP("C05", "capacity", 240, 1200) {
    Db db; m::Catalog &C = m::Catalog::Get();
    Table t; t.name = "t";
    const size_t n = 1 + c.draw(3);
    for (size_t i = 0; i != n; ++i) { Col col; col.name = VP_STR("c" << i); col.ty = c.chance(3, 4) ? mk_chr(unsigned(1) << (12 + c.draw(9))) : gen_ty(c); if (col.ty.k == CHR and col.ty.len >= 4096) col.ty.len += unsigned(c.draw(64)) - 32; t.cols.push_back(col); }
    const char *layout = LAYOUTS[c.draw(7)]; db.layout(layout);
    const char *kind = c.oneof<const char*>({"PaxStore", "RowStore", "ColumnStore"});
    C.default_store(C.pool(kind));
    c.log() << kind << ' ' << layout << ": " << create_sql(t) << "\n";
    db.exec(c, create_sql(t));
    C.default_store(C.pool("PaxStore"));
    auto &table = db.table("t"); auto &store = table.store();
    Geometry g; for (auto &col : t.cols) g.types.push_back(to_type(col.ty));
    // the layout of the table, as the tree tells
    auto &node = m::as<const DataLayout::INode>(table.layout().child());
    g.block_tuples = node.num_tuples(); g.block_bits = table.layout().stride_in_bits(); g.off.resize(n + 1); g.stride.resize(n + 1);
    for (auto it = node.begin(); it != node.end(); ++it) { auto &ch = *it; auto &leaf = m::as<const DataLayout::Leaf>(*ch.ptr); g.off[leaf.index()] = ch.offset_in_bits; g.stride[leaf.index()] = ch.stride_in_bits; }
    uint64_t row_bits = 0; for (auto *ty : g.types) row_bits += ty->size();
    size_t limit = (uint64_t(3) << 30) * 8 / std::max<uint64_t>(row_bits, 1) + 2; // far more than fits
    if (limit > 2000000) c.discard();
    size_t rows = 0; bool full = false;
    while (rows != limit) { try { store.append(); ++rows; } catch (std::exception &) { full = true; break; } }
    c.label_if(full, "full"); c.nontrivial(full);
    VP_REQUIRE(c, store.num_rows() == rows, "num-rows", "failed append changed the number of rows");
    const uint64_t size = uint64_t(store.memory().size()) * 8;
    VP_REQUIRE(c, rows > 0 or g.block_bits > size, "no-room", "there is no room for a single row of " << row_bits << " bits");
    for (size_t back = 0; back != std::min<size_t>(rows, g.block_tuples + 2); ++back) for (size_t i = 0; i <= n; ++i) {
        const Place p = g.place(i, rows - 1 - back);
        VP_REQUIRE(c, p.first + p.bits <= size, "beyond", "attribute " << i << " of row " << rows - 1 - back << " of " << rows << " ends at bit " << p.first + p.bits << " of " << size);
    }
    // a good part of the memory can be used
    c.label_if(full and double(g.bytes(rows)) * 8 > 0.5 * double(size), "more than half of the memory usable");
}

/*----- Bulk manipulation of columns -----------------------------------------------------------------------------------*/
VP_PROP("C05", "columns", 60000, 600000) {
    const size_t rows = 1 + c.size(80); const size_t begin = c.draw(rows - 1), end = begin + 1 + c.draw(rows - begin - 1);
    switch (c.weighted({4, 2, 4, 3})) {
        case 0: { // NULL bits
            const size_t n = 1 + c.size(20); const bool null = c.coin();
            const size_t bytes = (rows * n + 7) / 8; auto mem = std::make_unique<uint8_t[]>(bytes);
            for (size_t i = 0; i != bytes; ++i) mem[i] = c.chance(1, 2) ? uint8_t(vp::mix64(i)) : null ? 0 : 0xff;
            std::vector<bool> want; for (size_t b = 0; b != bytes * 8; ++b) want.push_back(b >= begin * n and b < end * n ? null : mem[b / 8] >> b % 8 & 1);
            c.log() << (null ? "set" : "clear") << " the NULL bits of " << n << " attributes, rows " << begin << " to " << end << " of " << rows << "\n";
            if (null) m::set_all_null(mem.get(), n, begin, end); else m::set_all_not_null(mem.get(), n, begin, end);
            for (size_t b = 0; b != bytes * 8; ++b) VP_REQUIRE(c, (mem[b / 8] >> b % 8 & 1) == want[b], "null-bits", "bit " << b << " (row " << b / n << ") is " << not want[b]);
            c.label("NULL bits"); c.label_if(begin != 0, "not from the first row"); c.nontrivial(begin != 0 or end != rows);
            break;
        }
        case 1: { // keys
            const bool wide = c.coin(); const m::Type *ty = m::Type::Get_Integer(m::Type::TY_Vector, wide ? 8 : 4);
            std::vector<int64_t> a(rows, -7); std::vector<int32_t> b(rows, -7);
            c.log() << "keys of " << *ty << ", rows " << begin << " to " << end << " of " << rows << "\n";
            m::generate_primary_keys(wide ? (void*) a.data() : b.data(), *ty, begin, end);
            for (size_t i = 0; i != rows; ++i) {
                const int64_t got = wide ? a[i] : b[i], want = i >= begin and i < end ? int64_t(i) : -7;
                VP_REQUIRE(c, got == want, "keys", "key of row " << i << " is " << got);
            }
            c.label("keys"); c.nontrivial(begin != 0);
            break;
        }
        case 2: { // values
            Db db; Table tab; tab.name = "t"; Col col; col.name = c.chance(1, 6) ? "id" : "x";
            col.ty = col.name == "id" ? mk_int(c.coin() ? 32 : 64) : c.chance(1, 3) ? mk(c.coin() ? F32 : F64) : mk_int(c.oneof<unsigned>({32, 64, 16, 8}));
            tab.cols.push_back(col); db.exec(c, create_sql(tab));
            auto &attr = db.table("t")[size_t(0)];
            const size_t width = attr.type->size() / 8; const size_t distinct = 1 + c.size(40);
            auto mem = std::make_unique<uint64_t[]>((rows * width + 7) / 8 + 1); auto *p = reinterpret_cast<uint8_t*>(mem.get());
            std::vector<uint8_t> fill(width); for (size_t i = 0; i != rows * width; ++i) p[i] = uint8_t(0x5a);
            std::vector<uint8_t> before(p, p + rows * width);
            c.log() << distinct << " distinct values of " << col.ty.sql() << ", rows " << begin << " to " << end << " of " << rows << "\n";
            m::generate_column_data(p, attr, distinct, begin, end);
            std::map<std::string, size_t> seen;
            for (size_t i = 0; i != rows; ++i) {
                std::string v(reinterpret_cast<char*>(p + i * width), width);
                if (i < begin or i >= end) { VP_REQUIRE(c, memcmp(&before[i * width], p + i * width, width) == 0, "values-outside", "row " << i << " was overwritten"); }
                else ++seen[v];
            }
            if (col.name != "id") {
                VP_REQUIRE(c, seen.size() == std::min(distinct, end - begin), "distinct", seen.size() << " distinct values in " << end - begin << " rows");
                size_t lo = SIZE_MAX, hi = 0; for (auto &[v, k] : seen) { lo = std::min(lo, k); hi = std::max(hi, k); }
                VP_REQUIRE(c, hi - lo <= 1, "uniform", "one value occurs " << hi << " times, another one " << lo << " times");
            } else VP_REQUIRE(c, seen.size() == end - begin, "distinct", "keys repeat");
            if (col.name != "id" and col.ty.k == INT and col.ty.bits == 32) { // the same from given values
                std::vector<int32_t> column(rows, 77), values; for (size_t i = 0; i != distinct; ++i) values.push_back(int32_t(1000 + i));
                m::fill_uniform(column.data(), values, begin, end, std::mt19937_64(distinct));
                std::map<int32_t, size_t> count;
                for (size_t i = 0; i != rows; ++i) if (i < begin or i >= end) { VP_REQUIRE(c, column[i] == 77, "values-outside", "row " << i << " was overwritten"); } else ++count[column[i]];
                VP_REQUIRE(c, count.size() == std::min(distinct, end - begin) and not count.count(77), "distinct", count.size() << " distinct values in " << end - begin << " rows");
                for (auto &[v, k] : count) VP_REQUIRE(c, k == (end - begin) / distinct or k == (end - begin + distinct - 1) / distinct, "uniform", v << " occurs " << k << " times");
            }
            c.label("values"); c.nontrivial(end - begin > 1); c.label_if(begin != 0, "not from the first row");
            break;
        }
        case 3: { // correlated columns
            Db db; Table tab; tab.name = "t"; Col col; col.name = "x"; col.ty = mk_int(c.oneof<unsigned>({32, 64, 16, 8})); tab.cols.push_back(col); db.exec(c, create_sql(tab));
            auto &attr = db.table("t")[size_t(0)]; const size_t width = attr.type->size() / 8;
            const size_t dl = 1 + c.size(30), dr = 1 + c.size(30), dm = c.draw(std::min(dl, dr)), nl = dl + c.size(40), nr = dr + c.size(40);
            auto L = std::make_unique<uint64_t[]>((nl * width + 7) / 8), R = std::make_unique<uint64_t[]>((nr * width + 7) / 8);
            c.log() << dl << " and " << dr << " distinct values of " << col.ty.sql() << ", " << dm << " of them common; " << nl << " and " << nr << " rows\n";
            m::generate_correlated_column_data(L.get(), R.get(), attr, dl, dr, nl, nr, dm);
            auto set_of = [&](void *p, size_t k) { std::set<std::string> s; for (size_t i = 0; i != k; ++i) s.emplace(reinterpret_cast<char*>(p) + i * width, width); return s; };
            auto sl = set_of(L.get(), nl), sr = set_of(R.get(), nr); size_t common = 0; for (auto &x : sl) common += sr.count(x);
            VP_REQUIRE(c, sl.size() == dl and sr.size() == dr and common == dm, "correlated", sl.size() << " and " << sr.size() << " distinct values, " << common << " of them common");
            c.label("correlated"); c.nontrivial(dm and dm < std::max(dl, dr));
            break;
        }
    }
}

}
