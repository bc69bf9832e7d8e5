// C15 (containers, pools, allocators) and C16 (text and number utilities).
#include "engine.hpp"
#include <mutable/util/ADT.hpp>
#include <mutable/util/Pool.hpp>
#include <mutable/util/allocator_base.hpp>
#include <mutable/util/fn.hpp>
#include <mutable/util/list_allocator.hpp>
#include <mutable/util/malloc_allocator.hpp>
#include <mutable/util/memory.hpp>
#include <mutable/util/unsharable_shared_ptr.hpp>
#include "util/algorithms.hpp"
#include "util/container/RefCountingHashMap.hpp"
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
using namespace vp;

namespace {

/// An element which notices when it is lost, destroyed twice, or used after its destruction.
struct Tracked {
    static inline long live = 0;
    std::shared_ptr<int> p;
    Tracked(int x = 0) : p(std::make_shared<int>(x)) { ++live; }
    Tracked(const Tracked &o) : p(o.p) { ++live; }
    Tracked(Tracked &&o) : p(o.p) { ++live; }
    Tracked & operator=(const Tracked &o) = default;
    ~Tracked() { --live; }
    int v() const { return *p; }
    bool operator==(const Tracked &o) const { return v() == o.v(); }
    bool operator!=(const Tracked &o) const { return v() != o.v(); }
    bool operator<(const Tracked &o) const { return v() < o.v(); }
    bool operator>(const Tracked &o) const { return v() > o.v(); }
    friend std::ostream & operator<<(std::ostream &out, const Tracked &t) { return out << t.v(); }
};

template<typename L> std::vector<int> fwd(L &l) { std::vector<int> r; for (auto it = l.begin(); it != l.end(); ++it) r.push_back(it->v()); return r; }

using List = m::doubly_linked_list<Tracked>;
struct ListPair { List l; std::list<int> m; };

void check_list(Case &c, ListPair &p, const char *op) {
    auto &l = p.l; auto &m = p.m;
    VP_REQUIRE(c, l.size() == m.size() and l.empty() == m.empty(), "list size", "size after " << op);
    const std::vector<int> want(m.begin(), m.end());
    VP_REQUIRE(c, fwd(l) == want, "list order", "elements after " << op);
    const List &k = l;
    std::vector<int> got;
    for (auto it = k.cbegin(); it != k.cend(); it++) got.push_back((*it).v());
    VP_REQUIRE(c, got == want, "list order", "elements by const_iterator after " << op);
    got.clear();
    for (auto it = l.rbegin(); it != l.rend(); ++it) got.push_back(it->v());
    VP_REQUIRE(c, std::equal(got.begin(), got.end(), want.rbegin(), want.rend()), "list order", "elements in reverse after " << op);
    got.clear();
    for (auto it = l.end(); it != l.begin();) { if (got.size() % 2) it--; else --it; got.push_back(it->v()); }
    VP_REQUIRE(c, std::equal(got.begin(), got.end(), want.rbegin(), want.rend()), "list order", "elements backwards after " << op);
    if (not m.empty()) {
        VP_REQUIRE(c, l.front().v() == m.front() and l.back().v() == m.back(), "list ends", "front and back after " << op);
        VP_REQUIRE(c, k.front().v() == m.front() and k.back().v() == m.back(), "list ends", "front and back after " << op);
    }
    std::ostringstream os;
    if (want.empty()) os << "+-+"; else { os << "+-> "; for (size_t i = 0; i != want.size(); ++i) os << (i ? " <-> " : "") << want[i]; os << " <-+"; }
    VP_REQUIRE(c, to_string(l) == os.str(), "list text", to_string(l));
}

VP_PROP("C15", "list", 40000, 500000) {
    Tracked::live = 0;
    {
        ListPair p[2];
        const size_t n = 1 + c.size(40);
        size_t erased = 0;
        for (size_t k = 0; k != n; ++k) {
            const size_t who = c.weighted({4, 1});
            auto &[l, m] = p[who]; auto &other = p[1 - who];
            const int x = int(c.draw(9));
            auto at = [&](size_t pos) { auto it = l.begin(); while (pos--) ++it; return it; };
            auto mat = [&](size_t pos) { auto it = m.begin(); std::advance(it, pos); return it; };
            const char *op = "";
            switch (c.draw(17)) {
                case 0: op = "push_back"; l.push_back(x); m.push_back(x); break;
                case 1: op = "push_front"; l.push_front(Tracked(x)); m.push_front(x); break;
                case 2: op = "emplace_back"; VP_REQUIRE(c, l.emplace_back(x).v() == x, "emplace", op); m.emplace_back(x); break;
                case 3: op = "emplace_front"; VP_REQUIRE(c, l.emplace_front(x).v() == x, "emplace", op); m.emplace_front(x); break;
                case 4: { op = "insert"; size_t pos = c.draw(m.size()); auto it = l.insert(at(pos), Tracked(x)); VP_REQUIRE(c, it->v() == x, "insert", "returns another element");
                          m.insert(mat(pos), x); VP_REQUIRE(c, std::distance(l.begin(), it) == long(pos), "insert", "returns another position"); break; }
                case 5: { op = "insert many"; size_t pos = c.draw(m.size()), cnt = c.draw(3); auto it = l.insert(at(pos), cnt, Tracked(x)); m.insert(mat(pos), cnt, x);
                          VP_REQUIRE(c, std::distance(l.begin(), it) == long(pos), "insert", "returns another position"); break; }
                case 6: { op = "insert range"; size_t pos = c.draw(m.size()); std::vector<int> v; for (size_t i = c.draw(4); i; --i) v.push_back(int(c.draw(9)));
                          auto it = l.insert(at(pos), v.begin(), v.end()); m.insert(mat(pos), v.begin(), v.end());
                          VP_REQUIRE(c, std::distance(l.begin(), it) == long(pos), "insert", "returns another position"); break; }
                case 7: if (not m.empty()) { op = "erase"; ++erased; size_t pos = c.draw(m.size() - 1); auto it = c.coin() ? l.erase(at(pos)) : l.erase(List::const_iterator(at(pos))); m.erase(mat(pos));
                          VP_REQUIRE(c, std::distance(l.begin(), it) == long(pos), "erase", "returns another position"); } break;
                case 8: if (not m.empty()) { op = "pop_back"; ++erased; VP_REQUIRE(c, l.pop_back().v() == m.back(), "pop", op); m.pop_back(); } break;
                case 9: if (not m.empty()) { op = "pop_front"; ++erased; VP_REQUIRE(c, l.pop_front().v() == m.front(), "pop", op); m.pop_front(); } break;
                case 10: op = "reverse"; l.reverse(); m.reverse(); break;
                case 11: op = "clear"; if (c.chance(1, 3)) { l.clear(); m.clear(); } break;
                case 12: op = "swap"; swap(p[0].l, p[1].l); swap(p[0].m, p[1].m); break;
                case 13: { op = "copy"; List k(l); VP_REQUIRE(c, fwd(k) == std::vector<int>(m.begin(), m.end()), "copy", "the copy differs"); other.l = std::move(k); other.m = m; break; }
                case 14: { op = "move"; List k(std::move(l)); VP_REQUIRE(c, l.empty(), "move", "not empty after move"); l = std::move(k); break; }
                case 15: if (not m.empty()) { op = "assign"; size_t pos = c.draw(m.size() - 1); *at(pos) = x; *mat(pos) = x; } break;
                case 16: { op = "construct from range"; other.l = List(m.begin(), m.end()); other.m = m; break; }
                case 17: { op = "insert list"; size_t pos = c.draw(m.size()); l.insert(at(pos), {Tracked(x), Tracked(x + 1)}); m.insert(mat(pos), {x, x + 1}); break; }
            }
            c.log() << (who ? "2 " : "1 ") << op << " " << x << "\n";
            c.label_if(*op, op);
            check_list(c, p[0], op); check_list(c, p[1], op);
            VP_REQUIRE(c, Tracked::live == long(p[0].m.size() + p[1].m.size()), "list lifetime", Tracked::live << " elements live, but " << p[0].m.size() + p[1].m.size() << " are in lists, after " << op);
        }
        c.nontrivial(n > 3 and erased);
    }
    VP_REQUIRE(c, Tracked::live == 0, "list lifetime", Tracked::live << " elements are left");
}

VP_PROP("C15", "sorted and array", 20000, 200000) {
    Tracked::live = 0;
    {
        const bool desc = c.coin();
        auto cmp = [desc](int a, int b) { return desc ? a > b : a < b; };
        m::sorted_vector<int, std::function<bool(int, int)>> s(cmp);
        std::multiset<int, std::function<bool(int, int)>> ms(cmp);
        VP_REQUIRE(c, s.empty(), "sorted_vector", "not empty");
        for (size_t n = c.size(30); n; --n) {
            const int x = int(c.draw(12));
            if (c.coin()) { auto it = s.insert(x); VP_REQUIRE(c, *it == x, "sorted_vector", "insert returns " << *it); ms.insert(x); }
            else if (c.chance(1, 3)) { std::vector<int> v; for (size_t i = c.draw(4); i; --i) v.push_back(int(c.draw(12))); s.insert(v.begin(), v.end()); ms.insert(v.begin(), v.end()); }
            else if (c.coin()) s.reserve(c.draw(50));
            VP_REQUIRE(c, s.size() == ms.size() and s.empty() == ms.empty(), "sorted_vector", "size");
            VP_REQUIRE(c, std::equal(s.begin(), s.end(), ms.begin(), ms.end()), "sorted_vector", "elements");
            VP_REQUIRE(c, std::equal(s.cbegin(), s.cend(), ms.begin(), ms.end()), "sorted_vector", "elements");
            for (int y = 0; y != 13; ++y) VP_REQUIRE(c, s.contains(y) == bool(ms.count(y)), "sorted_vector", "contains " << y);
        }
        std::vector<int> v; for (size_t n = c.size(20); n; --n) v.push_back(int(c.draw(3)));
        c.nontrivial(ms.size() > 2 or v.size() > 2);
        c.log() << ms.size() << " sorted, array of " << v.size() << "\n";
        m::dyn_array<int> a(v.begin(), v.end());
        const m::dyn_array<int> b(a);
        VP_REQUIRE(c, a.size() == v.size() and std::equal(a.begin(), a.end(), v.begin(), v.end()), "dyn_array", "elements");
        VP_REQUIRE(c, a == b and not (a != b) and std::equal(b.cbegin(), b.cend(), v.begin(), v.end()), "dyn_array", "copy");
        for (size_t i = 0; i != v.size(); ++i) VP_REQUIRE(c, a[i] == v[i] and a.at(i) == v[i] and b[i] == v[i] and b.at(i) == v[i] and a.data()[i] == v[i], "dyn_array", "element " << i);
        for (size_t i : {v.size(), v.size() + c.draw(9), SIZE_MAX}) {
            bool t1 = false, t2 = false;
            try { a.at(i); } catch (m::out_of_range&) { t1 = true; }
            try { b.at(i); } catch (m::out_of_range&) { t2 = true; }
            VP_REQUIRE(c, t1 and t2, "dyn_array", "at(" << i << ") does not throw");
        }
        if (not v.empty()) {
            const size_t i = c.draw(v.size() - 1); a[i] += 1;
            VP_REQUIRE(c, a != b and not (a == b) and b[i] == v[i], "dyn_array", "change of a copy");
            m::dyn_array<int> d(std::move(a)); v[i] += 1;
            VP_REQUIRE(c, std::equal(d.begin(), d.end(), v.begin(), v.end()), "dyn_array", "move");
            std::vector<int> w(v.begin(), v.end() - 1); m::dyn_array<int> e(w.begin(), w.end());
            VP_REQUIRE(c, not (d == e) and d != e, "dyn_array", "a prefix is equal");
        }
        VP_REQUIRE(c, m::dyn_array<int>().size() == 0 and m::dyn_array<int>(v.size()).size() == v.size(), "dyn_array", "size");
    }
}

/*----- Hash map -----------------------------------------------------------------------------------------------------*/

struct WeakHash { unsigned mod = 1; bool high = false; size_t operator()(int k) const { return high ? size_t(k % int(mod)) * 64 : size_t(k % int(mod)); } };
using Map = m::RefCountingHashMap<int, std::shared_ptr<int>, WeakHash>;

VP_PROP("C15", "hash map", 30000, 400000) {
    std::vector<std::shared_ptr<int>> values;
    {
        const WeakHash h{unsigned(1 + c.draw(c.coin() ? 6 : 96)), c.chance(1, 3)};
        const size_t buckets = 1 + c.draw(c.coin() ? 3 : 40);
        c.log() << "hash mod " << h.mod << (h.high ? " * 64" : "") << ", " << buckets << " buckets\n";
        Map map(buckets, h);
        std::multimap<int, int> ref; // key -> index of value
        const bool dup = c.coin();
        auto check = [&](const char *op) {
            VP_REQUIRE(c, map.size() == ref.size(), "map size", "size " << map.size() << " instead of " << ref.size() << " after " << op);
            VP_REQUIRE(c, map.capacity() > map.size() and (map.capacity() & (map.capacity() - 1)) == 0, "map capacity", "capacity " << map.capacity());
            std::multiset<std::pair<int, int>> got, want(ref.begin(), ref.end());
            for (auto it = map.begin(); it != map.end(); ++it) got.insert({it->first, *(*it).second});
            VP_REQUIRE(c, got == want, "map iteration", got.size() << " entries are iterated of " << want.size() << " after " << op);
            const Map &k = map; got.clear();
            for (auto it = k.cbegin(); it != k.cend(); it++) got.insert({it->first, *(*it).second});
            VP_REQUIRE(c, got == want, "map iteration", "iteration of the const map after " << op);
        };
        const size_t n = 1 + c.size(60);
        for (size_t i = 0; i != n; ++i) {
            const int key = int(c.draw(20)) * (c.chance(1, 4) ? 7 : 1);
            const char *op = "";
            switch (c.weighted({10, 4, 1, 1, 1, 1, 1})) {
                case 0: case 1: {
                    const int id = int(values.size());
                    values.push_back(std::make_shared<int>(id));
                    if (dup) {
                        op = "insert_with_duplicates";
                        auto it = map.insert_with_duplicates(key, values.back());
                        VP_REQUIRE(c, it->first == key and *it->second == id, "map insert", "the iterator refers to another entry");
                        ref.emplace(key, id);
                    } else {
                        op = "insert_without_duplicates";
                        auto [it, fresh] = map.insert_without_duplicates(key, values.back());
                        VP_REQUIRE(c, fresh == not ref.count(key), "map insert", "inserted: " << fresh);
                        if (fresh) ref.emplace(key, id);
                        VP_REQUIRE(c, it->first == key and *it->second == ref.find(key)->second, "map insert", "the iterator refers to another entry");
                    }
                    break; }
                case 2: if (map.size() <= map.watermark_high()) { op = "rehash"; map.rehash(); } break; // precondition of rehash
                case 3: op = "resize"; map.resize(c.draw(200)); break;
                case 4: op = "shrink_to_fit"; map.shrink_to_fit(); break;
                case 5: { op = "max_load_factor"; float f = float(1 + c.draw(98)) / 100; map.max_load_factor(f); VP_REQUIRE(c, map.max_load_factor() == f, "map load", "load factor"); break; }
                case 6: if (auto it = map.find(key); it != map.end()) { op = "assign"; const int id = int(values.size()); values.push_back(std::make_shared<int>(id));
                            int old = *it->second; it->second = values.back(); for (auto r = ref.lower_bound(key); r != ref.upper_bound(key); ++r) if (r->second == old) { r->second = id; break; } } break;
            }
            c.log() << op << ' ' << key << "\n"; c.label_if(*op, op);
            check(op);
            /* lookup */
            for (int key : {key, int(c.draw(150))}) {
                auto it = map.find(key);
                VP_REQUIRE(c, (it != map.end()) == bool(ref.count(key)), "map find", "find " << key << " after " << op);
                if (it != map.end()) VP_REQUIRE(c, it->first == key, "map find", "find " << key << " yields another key");
                const Map &k = map;
                auto cit = k.find(key);
                VP_REQUIRE(c, (cit != k.end()) == bool(ref.count(key)), "map find", "find in the const map");
                std::multiset<int> got, want; for (auto r = ref.lower_bound(key); r != ref.upper_bound(key); ++r) want.insert(r->second);
                map.for_all(key, [&](Map::value_type &v) { VP_REQUIRE(c, v.first == key, "map for_all", "another key"); got.insert(*v.second); });
                VP_REQUIRE(c, got == want, "map for_all", got.size() << " entries of key " << key << " instead of " << want.size() << " after " << op);
                got.clear(); k.for_all(key, [&](const Map::value_type &v) { got.insert(*v.second); });
                VP_REQUIRE(c, got == want, "map for_all", "for_all of the const map");
                VP_REQUIRE(c, map.count(key) == want.size(), "map count", "count of " << key);
                got.clear(); for (auto b = map.bucket(key); b.has_next(); ++b) if (b->first == key) got.insert(*(*b).second);
                VP_REQUIRE(c, got == want, "map bucket", "iteration of the bucket of " << key);
            }
        }
        c.nontrivial(ref.size() > 4);
        c.label_if(map.capacity() > 64, "capacity above 64");
        for (auto [_, id] : ref) VP_REQUIRE(c, values[id].use_count() == 2, "map lifetime", "a value in the map is held " << values[id].use_count() - 1 << " times");
    }
    for (auto &v : values) VP_REQUIRE(c, v.use_count() == 1, "map lifetime", "a value outlives the map");
}

/*----- Pools --------------------------------------------------------------------------------------------------------*/

struct Base { int a; Base(int a) : a(a) { } virtual ~Base() { } virtual bool operator==(const Base &o) const { return typeid(*this) == typeid(o) and a == o.a; } };
struct Derived : Base { int b; Derived(int a, int b) : Base(a), b(b) { } bool operator==(const Base &o) const override { auto d = dynamic_cast<const Derived*>(&o); return d and a == d->a and b == d->b; } };
struct BaseHash { size_t operator()(const Base &b) const { return size_t(b.a) % 3; } };

template<bool TS> void pods(Case &c) {
    using Pool = m::PODPool<std::string, m::StrHash, m::StrEqual, std::identity, TS>;
    Pool pool;
    std::map<std::string, const std::string*> addr;
    std::vector<std::pair<std::string, typename Pool::proxy_type>> held;
    std::vector<std::pair<std::string, typename Pool::proxy_optional_type>> opt;
    for (size_t n = c.size(60); n; --n) {
        std::string s(c.draw(3), char('a' + c.draw(2)));
        switch (c.draw(7)) {
            case 0: case 1: case 2: {
                auto p = pool(s);
                VP_REQUIRE(c, *p == s, "pool", "pooled " << *p << " instead of " << s);
                auto [it, fresh] = addr.insert({s, &*p});
                VP_REQUIRE(c, it->second == &*p, "pool", "equal objects are pooled twice");
                held.emplace_back(s, std::move(p)); break; }
            case 3: if (not held.empty()) { auto &h = held[c.draw(held.size() - 1)]; held.emplace_back(std::string(h.first), typename Pool::proxy_type(h.second)); } break;
            case 4: if (not held.empty()) { size_t i = c.draw(held.size() - 1); std::swap(held[i], held.back()); held.pop_back(); } break;
            case 5: if (not held.empty()) { auto &h = held[c.draw(held.size() - 1)]; opt.emplace_back(h.first, h.second); VP_REQUIRE(c, opt.back().second.has_value() and *opt.back().second == h.first, "pool", "optional"); } break;
            case 6: opt.emplace_back("", typename Pool::proxy_optional_type()); VP_REQUIRE(c, not opt.back().second.has_value() and opt.back().second.count() == 0, "pool", "empty optional");
                    { bool t = false; try { opt.back().second.assert_not_none(); } catch (m::invalid_argument&) { t = true; } VP_REQUIRE(c, t, "pool", "assert_not_none does not throw"); } break;
            case 7: if (held.size() > 1) { auto &a = held[c.draw(held.size() - 1)], &b = held[c.draw(held.size() - 1)]; a = std::pair(b.first, b.second); } break;
        }
        c.log() << s << ' ' << held.size() << "\n";
        VP_REQUIRE(c, pool.size() == addr.size(), "pool", "size");
        std::map<std::string, unsigned> cnt;
        for (auto &h : held) ++cnt[h.first];
        for (auto &h : opt) if (h.second.has_value()) ++cnt[h.first];
        for (auto &h : held) { VP_REQUIRE(c, *h.second == h.first and &*h.second == addr[h.first], "pool", "the object changed or moved");
            VP_REQUIRE(c, h.second.count() == cnt[h.first], "pool", "count " << h.second.count() << " instead of " << cnt[h.first]); }
        for (auto &h : opt) if (h.second.has_value()) VP_REQUIRE(c, *h.second == h.first and h.second.count() == cnt[h.first], "pool", "the object changed or is miscounted");
        if (held.size() > 1) { auto &a = held.front(), &b = held.back(); VP_REQUIRE(c, (a.second == b.second) == (a.first == b.first) and (a.second != b.second) == (a.first != b.first), "pool", "equality of pooled objects"); }
    }
    c.nontrivial(held.size() > 2);
}

VP_PROP("C15", "pools", 20000, 200000) {
    switch (c.draw(2)) {
        case 0: pods<false>(c); break;
        case 1: pods<true>(c); break;
        case 2: {
            using Pool = m::Pool<Base, BaseHash>;
            Pool pool;
            std::map<std::pair<int, int>, const Base*> addr;
            std::vector<std::pair<std::pair<int, int>, Pool::proxy_type<Base>>> held;
            for (size_t n = c.size(40); n; --n) {
                const int a = int(c.draw(5)), b = int(c.draw(4)) - 1;
                if (c.chance(1, 4) and not held.empty()) held.erase(held.begin() + c.draw(held.size() - 1));
                if (b < 0) { auto p = pool(Base(a)); held.emplace_back(std::pair(a, b), p); }
                else {
                    auto p = pool(Derived(a, b));
                    VP_REQUIRE(c, p->a == a and p->b == b, "pool", "another object");
                    Pool::proxy_type<Base> q = p; VP_REQUIRE(c, q.as<Derived>()->b == b and p.count() == q.count(), "pool", "cast");
                    held.emplace_back(std::pair(a, b), q);
                }
                auto &h = held.back();
                auto [it, _] = addr.insert({{a, b}, &*h.second});
                VP_REQUIRE(c, it->second == &*h.second and h.second->a == a, "pool", "equal objects are pooled twice, or different ones once");
                VP_REQUIRE(c, pool.size() == addr.size(), "pool", "size");
                size_t cnt = 0; for (auto &x : held) cnt += x.first == h.first;
                VP_REQUIRE(c, h.second.count() == cnt, "pool", "count");
                c.log() << a << ' ' << b << "\n";
            }
            c.nontrivial(held.size() > 2);
            break; }
    }
}

VP_PROP("C15", "unsharable pointer", 8000, 60000) {
    Tracked::live = 0;
    {
        auto p = m::make_unsharable_shared<Tracked>(int(c.draw(9)));
        std::vector<m::unsharable_shared_ptr<Tracked>> copies;
        for (size_t n = c.draw(6); n; --n) {
            if (c.coin()) copies.push_back(p); else if (not copies.empty()) copies.pop_back();
        }
        c.log() << copies.size() << " copies\n"; c.nontrivial(not copies.empty());
        const int v = p->v(); const Tracked *raw = p.get();
        bool thrown = false; std::unique_ptr<Tracked> u;
        try { u = p.exclusive_shared_to_unique(); } catch (m::invalid_state&) { thrown = true; }
        VP_REQUIRE(c, thrown == not copies.empty(), "unshare", "thrown: " << thrown);
        VP_REQUIRE(c, Tracked::live == 1, "unshare", "live: " << Tracked::live);
        if (thrown) VP_REQUIRE(c, p.get() == raw and p->v() == v, "unshare", "changed by a failed attempt");
        else { VP_REQUIRE(c, not p and u.get() == raw and u->v() == v, "unshare", "not moved");
               if (c.coin()) { m::unsharable_shared_ptr<Tracked> q(u.release()); auto w = c.coin() ? q.exclusive_shared_to_unique() : nullptr; VP_REQUIRE(c, Tracked::live == 1, "unshare", "live"); } }
        m::unsharable_shared_ptr<Tracked> none; VP_REQUIRE(c, none.exclusive_shared_to_unique() == nullptr, "unshare", "of nothing");
    }
    VP_REQUIRE(c, Tracked::live == 0, "unshare", "leak");
}

/*----- Allocators ---------------------------------------------------------------------------------------------------*/

template<typename A> struct Arena {
    struct Block { uint8_t *p; size_t size, align; uint8_t seed; };
    std::vector<Block> blocks;
    static uint8_t pat(const Block &b, size_t i) { return uint8_t(b.seed + i * 7); }
    void check(Case &c) {
        for (auto &b : blocks) for (size_t i = 0; i < b.size; i += b.size > 5000 ? 97 : 1) VP_REQUIRE(c, b.p[i] == pat(b, i), "allocator", "byte " << i << " of a block of " << b.size << " bytes changed");
    }
    void add(Case &c, void *p, size_t size, size_t align) {
        Block b{static_cast<uint8_t*>(p), size, align, uint8_t(c.draw(255))};
        VP_REQUIRE(c, (size == 0) or p, "allocator", "no memory for " << size << " bytes");
        if (align) VP_REQUIRE(c, reinterpret_cast<uintptr_t>(p) % align == 0, "allocator", p << " is not aligned to " << align);
        for (auto &o : blocks) VP_REQUIRE(c, b.p + b.size <= o.p or o.p + o.size <= b.p or not b.size or not o.size, "allocator", "blocks overlap");
        for (size_t i = 0; i != size; ++i) b.p[i] = pat(b, i);
        blocks.push_back(b);
    }
};

size_t gen_size(Case &c) {
    switch (c.weighted({6, 4, 2, 1, 1})) {
        case 0: return 1 + c.draw(40);
        case 1: return 1 + c.draw(600);
        case 2: return 4096 + size_t(c.range(-40, 40));
        case 3: return 1 + c.draw(40000);
        default: return size_t(1) << c.draw(14);
    }
}

VP_PROP("C15", "list allocator", 20000, 300000) {
    const size_t init = c.coin() ? 0 : 1 + c.draw(20000);
    const auto strategy = c.coin() ? m::AllocationStrategy::Linear : m::AllocationStrategy::Exponential;
    c.log() << "initial size " << init << "\n";
    m::list_allocator A[2] = {m::list_allocator(init, strategy), m::list_allocator()};
    Arena<m::list_allocator> R[2];
    size_t frees = 0;
    const size_t n = 1 + c.size(60);
    for (size_t k = 0; k != n; ++k) {
        const size_t w = c.weighted({5, 1});
        switch (c.weighted({8, 6, 1, 1, 1})) {
            case 0: {
                const size_t size = gen_size(c), align = c.coin() ? 0 : size_t(1) << c.draw(c.chance(1, 10) ? 15 : 6);
                c.log() << w << " allocate " << size << " aligned to " << align << "\n";
                R[w].add(c, A[w].allocate(size, align), size, align);
                break; }
            case 1: if (not R[w].blocks.empty()) {
                const size_t i = c.draw(R[w].blocks.size() - 1);
                auto b = R[w].blocks[i]; R[w].blocks.erase(R[w].blocks.begin() + i);
                c.log() << w << " deallocate " << b.size << "\n";
                A[w].deallocate(b.p, b.size); ++frees;
                break; }
            case 2: { using std::swap; c.log() << "swap\n"; swap(A[0], A[1]); swap(R[0].blocks, R[1].blocks); break; }
            case 3: { c.log() << "move\n"; m::list_allocator B(std::move(A[w])); A[w] = std::move(B); break; }
            case 4: { c.log() << "typed\n"; auto p = A[w].allocate<uint64_t>(5); VP_REQUIRE(c, reinterpret_cast<uintptr_t>(p) % alignof(uint64_t) == 0, "allocator", "typed allocation"); for (int i = 0; i != 5; ++i) p[i] = ~uint64_t(0); A[w].deallocate(p, 5);
                      VP_REQUIRE(c, A[w].allocate(0) == nullptr, "allocator", "allocation of nothing"); A[w].deallocate(nullptr, 0); break; }
        }
        R[0].check(c); R[1].check(c);
    }
    c.nontrivial(frees > 1 and n > 5);
    for (size_t w = 0; w != 2; ++w) {
        /* In some order, return everything: then one chunk per mapping is left, and the next small request needs no new one. */
        while (not R[w].blocks.empty()) { const size_t i = c.draw(R[w].blocks.size() - 1); auto b = R[w].blocks[i]; R[w].blocks.erase(R[w].blocks.begin() + i); A[w].deallocate(b.p, b.size); }
        const size_t avail = A[w].num_chunks_available();
        if (avail) {
            void *p = A[w].allocate(8, 8); VP_REQUIRE(c, p, "allocator", "no memory");
            VP_REQUIRE(c, A[w].num_chunks_available() <= avail, "allocator reuse", "returned memory is not reused: " << avail << " chunks before, " << A[w].num_chunks_available() << " after");
            A[w].deallocate(p, 8);
            VP_REQUIRE(c, A[w].num_chunks_available() == avail, "allocator coalesce", "chunks are not merged: " << avail << " chunks before, " << A[w].num_chunks_available() << " after");
        }
    }
}

VP_PROP("C15", "malloc allocator", 5000, 50000) {
    m::malloc_allocator A; Arena<m::malloc_allocator> R;
    for (size_t n = c.size(30); n; --n) {
        if (c.chance(1, 3) and not R.blocks.empty()) { size_t i = c.draw(R.blocks.size() - 1); auto b = R.blocks[i]; R.blocks.erase(R.blocks.begin() + i); A.deallocate(b.p, b.size); }
        const size_t size = gen_size(c), align = c.coin() ? 0 : size_t(1) << c.draw(10);
        c.log() << size << '/' << align << "\n";
        R.add(c, A.allocate(size, align), size, align); R.check(c);
    }
    c.nontrivial(R.blocks.size() > 2);
    for (auto &b : R.blocks) A.deallocate(b.p, b.size);
}

bool mapped(const void *p) { unsigned char v; return mincore(const_cast<void*>(p), 4096, &v) == 0; }

VP_PROP("C15", "rewirable memory", 4000, 40000) {
    using namespace m::memory;
    const size_t page = m::get_pagesize();
    LinearAllocator A;
    struct B { Memory mem; uint8_t seed; };
    std::vector<std::unique_ptr<B>> live;
    auto check = [&] {
        for (auto &b : live) for (size_t i = 0; i < b->mem.size(); i += 211) VP_REQUIRE(c, b->mem.as<uint8_t*>()[i] == uint8_t(b->seed + i), "memory", "content changed");
        for (auto &a : live) for (auto &b : live) if (a != b) {
            VP_REQUIRE(c, a->mem.offset() + a->mem.size() <= b->mem.offset() or b->mem.offset() + b->mem.size() <= a->mem.offset(), "memory", "allocations share a part of the file");
        }
    };
    size_t end = 0; std::vector<std::pair<size_t, bool>> stack; // allocations in order, and whether they are live
    for (size_t n = 1 + c.size(20); n; --n) {
        if (c.weighted({3, 2}) == 0 or live.empty()) {
            const size_t size = c.draw(5) == 0 ? 0 : 1 + c.draw(3 * page);
            c.log() << "allocate " << size << "\n";
            Memory mem = A.allocate(size);
            if (size == 0) { VP_REQUIRE(c, mem.addr() == nullptr and mem.size() == 0, "memory", "allocation of nothing"); continue; }
            VP_REQUIRE(c, mem.size() >= size and mem.size() % page == 0 and mem.size() < size + page and mem.offset() % page == 0, "memory", "size " << mem.size());
            VP_REQUIRE(c, mem.offset() == end, "memory", "offset " << mem.offset() << " instead of " << end);
            VP_REQUIRE(c, &mem.allocator() == &A, "memory", "allocator");
            stack.push_back({mem.offset(), true}); end += mem.size();
            auto b = std::make_unique<B>(); b->mem = std::move(mem); b->seed = uint8_t(c.draw(255));
            for (size_t i = 0; i != b->mem.size(); ++i) b->mem.as<uint8_t*>()[i] = uint8_t(b->seed + i);
            live.push_back(std::move(b));
        } else {
            const size_t i = c.draw(live.size() - 1);
            void *p = live[i]->mem.addr();
            for (auto &s : stack) if (s.first == live[i]->mem.offset()) s.second = false;
            c.log() << "deallocate " << i << "\n";
            live.erase(live.begin() + i);
            VP_REQUIRE(c, not mapped(p), "memory", "still mapped after deallocation");
            while (not stack.empty() and not stack.back().second) { end = stack.back().first; stack.pop_back(); }
        }
        VP_REQUIRE(c, A.offset() == end, "memory", "the next allocation is at " << A.offset() << " instead of " << end);
        check();
    }
    c.nontrivial(live.size() > 1);
    /* Map some of them into one address space. */
    AddressSpace none(0); VP_REQUIRE(c, none.addr() == nullptr and none.size() == 0, "memory", "empty address space");
    size_t want = 1 + c.draw(8 * page);
    AddressSpace vm(want);
    VP_REQUIRE(c, vm.size() >= want and vm.size() % page == 0 and vm.size() < want + page, "memory", "size of the address space");
    size_t at = 0;
    for (auto &b : live) {
        const size_t pages = b->mem.size() / page, first = c.draw(pages - 1), cnt = 1 + c.draw(pages - first - 1);
        if (at + cnt * page > vm.size()) break;
        b->mem.map(cnt * page, first * page, vm, at);
        uint8_t *v = vm.as<uint8_t*>() + at;
        for (size_t i = 0; i < cnt * page; i += 53) VP_REQUIRE(c, v[i] == b->mem.as<uint8_t*>()[first * page + i], "memory", "mapped content");
        v[3] = 0x5a; VP_REQUIRE(c, b->mem.as<uint8_t*>()[first * page + 3] == 0x5a, "memory", "a write is not seen through the mapping");
        v[3] = uint8_t(b->seed + first * page + 3);
        at += cnt * page; c.label("rewired");
    }
    check();
    AddressSpace moved(std::move(vm));
    VP_REQUIRE(c, vm.addr() == nullptr and moved.addr(), "memory", "move of an address space");
}

/*----- C16 ----------------------------------------------------------------------------------------------------------*/

// LIKE by its definition, over the tokens of a pattern.
struct Tok { enum { CHAR, ANY, ONE } k; char c; };
bool tokens(const std::string &p, char esc, std::vector<Tok> &out) {
    for (size_t i = 0; i != p.size(); ++i) {
        if (p[i] == esc) { if (++i == p.size()) return false; if (p[i] != '_' and p[i] != '%' and p[i] != esc) return false; out.push_back({Tok::CHAR, p[i]}); }
        else if (p[i] == '%') out.push_back({Tok::ANY, 0});
        else if (p[i] == '_') out.push_back({Tok::ONE, 0});
        else out.push_back({Tok::CHAR, p[i]});
    }
    return true;
}
bool match(const std::string &s, size_t i, const std::vector<Tok> &t, size_t j) {
    if (j == t.size()) return i == s.size();
    if (t[j].k == Tok::ANY) { for (size_t k = i; k <= s.size(); ++k) if (match(s, k, t, j + 1)) return true; return false; }
    return i < s.size() and (t[j].k == Tok::ONE or t[j].c == s[i]) and match(s, i + 1, t, j + 1);
}
std::string gen_text(Case &c, size_t max, const std::string &alphabet) { std::string s; for (size_t n = c.size(max); n; --n) s += c.pick(alphabet); return s; }

VP_PROP("C16", "like", 60000, 800000) {
    static const std::string meta = "ab_%\\.*+?()[]{}^$|/-\n\r\t \"'\x80\xff";
    const char esc = c.weighted({3, 1}) ? c.pick(std::string("#!a$.*[")) : '\\';
    std::string alpha = c.coin() ? std::string("ab_%") + esc : meta + esc;
    std::string pat;
    size_t any = 0;
    for (size_t n = c.size(14); n; --n) {
        char ch = c.pick(alpha);
        if (ch == '%' and ++any > 4) ch = '_';
        if (ch == esc and c.chance(9, 10)) { pat += esc; pat += c.pick(std::string("_%") + esc); } else pat += ch;
    }
    std::vector<Tok> t; const bool valid = tokens(pat, esc, t);
    /* a text which is likely to match: derived from the pattern, then perhaps changed */
    std::string str;
    if (c.chance(3, 4)) {
        for (auto &k : t) if (k.k == Tok::CHAR) str += k.c; else if (k.k == Tok::ONE) str += c.pick(alpha); else for (size_t n = c.draw(3); n; --n) str += c.pick(alpha);
        if (c.coin() and not str.empty()) { if (c.coin()) str.erase(c.draw(str.size() - 1), 1); else str[c.draw(str.size() - 1)] = c.pick(alpha); }
    } else str = gen_text(c, 12, alpha);
    c.log() << quote(str) << " LIKE " << quote(pat) << " ESCAPE " << quote(std::string(1, esc)) << "\n";
    bool got = false, thrown = false;
    try { got = m::like(str, pat, esc); } catch (m::runtime_error&) { thrown = true; }
    VP_REQUIRE(c, thrown == not valid, "like", (thrown ? "rejects a valid pattern" : "accepts an invalid pattern"));
    bool rthrown = false; std::regex re;
    try { re = m::pattern_to_regex(pat.c_str(), c.coin(), esc); } catch (m::runtime_error&) { rthrown = true; }
    VP_REQUIRE(c, rthrown == not valid, "regex", (rthrown ? "rejects a valid pattern" : "accepts an invalid pattern"));
    if (not valid) { c.label("invalid pattern"); return; }
    const bool want = match(str, 0, t, 0);
    VP_REQUIRE(c, got == want, "like", "like() gives " << got);
    VP_REQUIRE(c, std::regex_match(str, re) == want, "regex", "the regular expression gives " << not want);
    c.nontrivial(not t.empty() and any + str.size() > 1);
    c.label(want ? "matches" : "does not match");
    for (char bad : {'_', '%'}) { bool th = false; try { (void) m::pattern_to_regex("a", false, bad); } catch (m::invalid_argument&) { th = true; } VP_REQUIRE(c, th, "regex", "accepts the escape character " << bad); }
}

VP_PROP("C16", "escape", 60000, 600000) {
    const char esc = c.weighted({3, 1}) ? c.pick(std::string("#!^")) : '\\', quo = c.weighted({3, 1}) ? c.pick(std::string("'`$")) : '"';
    std::string s = gen_text(c, 24, std::string("abn\n\"'\\#!^`$<>&; \t\r\x80\xff") + esc + quo);
    c.log() << quote(s) << "\n"; c.nontrivial(s.find(esc) != std::string::npos or s.find(quo) != std::string::npos);
    std::string want; for (char ch : s) { if (ch == esc or ch == quo) { want += esc; want += ch; } else if (ch == '\n') { want += esc; want += 'n'; } else want += ch; }
    const std::string e = m::escape(s, esc, quo);
    VP_REQUIRE(c, e == want, "escape", "escaped as " << quote(e));
    VP_REQUIRE(c, m::unescape(e, esc, quo) == s, "unescape", "unescaped as " << quote(m::unescape(e, esc, quo)));
    VP_REQUIRE(c, m::interpret(std::string(1, quo) + e + quo, esc, quo) == s, "interpret", "interpret");
    VP_REQUIRE(c, m::unquote(m::quote(s)) == s, "quote", "quote and unquote");
    /* unescape of any text */
    std::string un; for (size_t i = 0; i != s.size(); ++i) { if (s[i] == esc and i + 1 < s.size() and (s[i + 1] == esc or s[i + 1] == quo)) un += s[++i]; else if (s[i] == esc and i + 1 < s.size() and s[i + 1] == 'n') { un += '\n'; ++i; } else un += s[i]; }
    VP_REQUIRE(c, m::unescape(s, esc, quo) == un, "unescape", "unescaped as " << quote(m::unescape(s, esc, quo)));
    if (quo == '"' and esc == '\\') { std::string x; for (char ch : s) x += m::escape(ch); VP_REQUIRE(c, x == e, "escape", "of single characters"); }
    /* unquote */
    bool thrown = false; std::string q; try { q = m::unquote(s, quo); } catch (m::invalid_argument&) { thrown = true; }
    const bool bad = s.size() < 2 or (s[0] == quo and s.back() != quo);
    VP_REQUIRE(c, thrown == bad, "unquote", "thrown: " << thrown);
    if (not bad) VP_REQUIRE(c, q == (s[0] == quo ? s.substr(1, s.size() - 2) : s), "unquote", quote(q));
    std::string h; for (char ch : s) switch (ch) { case '<': h += "&lt;"; break; case '>': h += "&gt;"; break; case '&': h += "&amp;"; break; default: h += ch; }
    VP_REQUIRE(c, m::html_escape(s) == h, "html_escape", quote(m::html_escape(s)));
    std::string from = gen_text(c, 3, "ab\\"), to = gen_text(c, 3, "ab\\<");
    if (not from.empty()) {
        std::string w; for (size_t i = 0; i < s.size();) if (s.compare(i, from.size(), from) == 0) { w += to; i += from.size(); } else w += s[i++];
        VP_REQUIRE(c, m::replace_all(s, from, to) == w, "replace_all", quote(from) << " by " << quote(to));
    }
    const std::string t = c.coin() ? s : gen_text(c, 6, "ab\n");
    VP_REQUIRE(c, m::streq(s.c_str(), t.c_str()) == (s == t), "streq", "streq");
    const size_t n = c.draw(30); VP_REQUIRE(c, m::strneq(s.c_str(), t.c_str(), n) == (s.substr(0, n) == t.substr(0, n)), "strneq", n);
    m::StrHash H; m::StrEqual E; m::StrEqualWithNull EN;
    VP_REQUIRE(c, E(s, t) == (s == t) and E(s.c_str(), t.c_str()) == (s == t), "StrEqual", "");
    VP_REQUIRE(c, EN(s.c_str(), t.c_str()) == (s == t) and not EN(nullptr, s.c_str()) and not EN(s.c_str(), nullptr) and EN(nullptr, nullptr), "StrEqualWithNull", "");
    VP_REQUIRE(c, H(s) == H(s.c_str()) and H(s) == H(std::string_view(s)) and H(s) == H(s.c_str(), s.size()), "StrHash", "hashes of one text differ");
    const bool ws = std::all_of(s.begin(), s.end(), [](char x) { return x == ' ' or x == '\t' or x == '\n' or x == '\r'; });
    VP_REQUIRE(c, m::isspace(s.c_str()) == ws, "isspace", "");
}

/*----- Dates --------------------------------------------------------------------------------------------------------*/
// days from civil, by Howard Hinnant's algorithm
int64_t days_from_civil(int64_t y, unsigned mo, unsigned d) { y -= mo <= 2; const int64_t era = (y >= 0 ? y : y - 399) / 400; const unsigned yoe = unsigned(y - era * 400), doy = (153 * (mo > 2 ? mo - 3 : mo + 9) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + int64_t(doe) - 719468; }

VP_PROP("C16", "time", 20000, 200000) {
    std::tm tm{};
    const int year = c.coin() ? int(c.range(1970, 2037)) : int(c.range(-9999, 9999)); tm.tm_year = year - 1900; tm.tm_mon = int(c.draw(11)); tm.tm_mday = int(1 + c.draw(27));
    tm.tm_hour = int(c.draw(23)); tm.tm_min = int(c.draw(59)); tm.tm_sec = int(c.draw(59));
    char buf[64]; snprintf(buf, sizeof buf, "%s%04d-%02d-%02d %02d:%02d:%02d", year < 0 ? "-" : "", std::abs(year), tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
    c.log() << buf << "\n"; c.nontrivial();
    std::ostringstream os; os.fill('*'); os << std::left << m::put_tm(tm);
    VP_REQUIRE(c, os.str() == buf, "put_tm", os.str());
    VP_REQUIRE(c, os.fill() == '*' and (os.flags() & std::ios::adjustfield) == std::ios::left, "put_tm", "the format of the stream changed");
    std::tm back{}; std::istringstream is(buf); is >> m::get_tm(back);
    VP_REQUIRE(c, not is.fail() and back.tm_year == tm.tm_year and back.tm_mon == tm.tm_mon and back.tm_mday == tm.tm_mday and back.tm_hour == tm.tm_hour and back.tm_min == tm.tm_min and back.tm_sec == tm.tm_sec, "get_tm", buf << " is read as year " << back.tm_year + 1900);
    const int64_t t = days_from_civil(year, unsigned(tm.tm_mon + 1), unsigned(tm.tm_mday)) * 86400 + tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec;
    if (year > 1700 and year < 2200) {
        std::chrono::system_clock::time_point tp{std::chrono::seconds(t)};
        std::ostringstream o2; o2 << m::put_timepoint(tp, true);
        VP_REQUIRE(c, o2.str() == buf, "put_timepoint", o2.str());
    }
}

/*----- Numbers ------------------------------------------------------------------------------------------------------*/
template<typename T> void nums(Case &c) {
    using W = unsigned __int128;
    const unsigned bits = sizeof(T) * 8;
    const T n = T(c.integer(bits)), k = T(c.integer(bits));
    c.log() << bits << " bits: " << uint64_t(n) << ", " << uint64_t(k) << "\n"; c.nontrivial(n > 2);
    VP_REQUIRE(c, m::is_pow_2(n) == (__builtin_popcountll(n) == 1), "is_pow_2", uint64_t(n));
    unsigned fl = 0; while (fl + 1 < bits and (n >> (fl + 1))) ++fl;
    if (n) VP_REQUIRE(c, m::log2_floor(n) == fl, "log2_floor", uint64_t(n) << ": " << uint64_t(m::log2_floor(n)));
    unsigned ce = 0; while (ce < bits and (W(1) << ce) < W(n)) ++ce;
    VP_REQUIRE(c, m::log2_ceil(n) == ce, "log2_ceil", uint64_t(n) << ": " << uint64_t(m::log2_ceil(n)));
    if (bits >= 32 and ce < bits) VP_REQUIRE(c, W(m::ceil_to_pow_2(n)) == W(1) << ce, "ceil_to_pow_2", uint64_t(n) << ": " << uint64_t(m::ceil_to_pow_2(n)));
    const T p2 = T(T(1) << c.draw(bits - 1));
    if (W(n) + p2 - 1 < (W(1) << bits)) { const T r = m::ceil_to_multiple_of_pow_2(n, p2); VP_REQUIRE(c, r >= n and r % p2 == 0 and W(r) - n < p2, "ceil_to_multiple_of_pow_2", uint64_t(n) << ", " << uint64_t(p2)); }
    if (k and (W(n) + k - 1) / k * k < (W(1) << bits)) { const T r = m::round_up_to_multiple(n, k); VP_REQUIRE(c, r >= n and r % k == 0 and W(r) - n < k, "round_up_to_multiple", uint64_t(n) << ", " << uint64_t(k)); }
    if (n) { bool th = false; try { (void) m::round_up_to_multiple(n, T(0)); } catch (m::invalid_argument&) { th = true; } VP_REQUIRE(c, th, "round_up_to_multiple", "multiple of zero"); }
    const W mx = (W(1) << bits) - 1;
    if constexpr (sizeof(T) >= 4) {
        VP_REQUIRE(c, W(m::add_wo_overflow(n, k)) == std::min(mx, W(n) + k), "add_wo_overflow", uint64_t(n) << ", " << uint64_t(k));
        VP_REQUIRE(c, W(m::mul_wo_overflow(n, k)) == std::min(mx, W(n) * k), "mul_wo_overflow", uint64_t(n) << ", " << uint64_t(k));
        const T j = T(c.integer(bits));
        VP_REQUIRE(c, W(m::sum_wo_overflow(n, k, j)) == std::min(mx, W(n) + k + j), "sum_wo_overflow", "three numbers");
        VP_REQUIRE(c, W(m::prod_wo_overflow(n, k, j)) == std::min(mx, std::min(mx, W(n) * k) * j), "prod_wo_overflow", "three numbers");
    }
    { T b = n; const uint32_t i = uint32_t(c.draw(bits - 1)); const bool v = c.coin(); m::setbit(&b, v, i); VP_REQUIRE(c, b == T(v ? (n | (T(1) << i)) : (n & ~(T(1) << i))), "setbit", "bit " << i << " of " << uint64_t(n)); }
}
template<typename T> void ranges(Case &c) {
    const T a = T(c.integer(sizeof(T) * 8)), b = c.chance(1, 3) ? T(std::make_unsigned_t<T>(a) + std::make_unsigned_t<T>(c.draw(5))) : T(c.integer(sizeof(T) * 8));
    const unsigned __int128 cnt = (unsigned __int128)(__int128(std::max(a, b)) - __int128(std::min(a, b))) + 1;
    size_t n = c.coin() ? size_t(cnt) + size_t(c.range(-2, 2)) : size_t(c.integer(64));
    c.log() << "[" << int64_t(a) << ", " << int64_t(b) << "] with " << n << " values\n"; c.nontrivial(a != b);
    VP_REQUIRE(c, m::is_range_wide_enough(a, b, n) == (cnt >= n), "is_range_wide_enough", "");
}
VP_PROP("C16", "numbers", 150000, 2000000) {
    switch (c.draw(12)) {
        case 0: nums<uint64_t>(c); break;
        case 1: nums<uint32_t>(c); break;
        case 2: nums<uint16_t>(c); break;
        case 3: nums<uint8_t>(c); break;
        case 4: ranges<int64_t>(c); break;
        case 5: ranges<int32_t>(c); break;
        case 6: ranges<int16_t>(c); break;
        case 7: ranges<uint64_t>(c); break;
        case 8: ranges<uint32_t>(c); break;
        case 9: {
            const int64_t base = c.range(-12, 12); const unsigned e = unsigned(c.draw(17));
            int64_t w = 1; for (unsigned i = 0; i != e; ++i) w *= base;
            c.log() << base << "^" << e << "\n"; c.nontrivial(e > 1);
            VP_REQUIRE(c, m::powi(base, e) == w, "powi", m::powi(base, e)); break; }
        case 10: {
            double x; uint64_t b = c.draw(UINT64_MAX); if (c.coin()) b = uint64_t(c.integer(64)); memcpy(&x, &b, 8);
            if (std::isnan(x) or std::isinf(x)) c.discard();
            c.log() << "double " << x << "\n"; c.nontrivial();
            const double y = std::nextafter(x, INFINITY);
            VP_REQUIRE(c, m::sequence_number(y) == m::sequence_number(x) + (x == 0 or y == 0 ? m::sequence_number(y) - m::sequence_number(x) : 1), "sequence_number", "");
            if (x != 0) VP_REQUIRE(c, m::sequence_number(y) == m::sequence_number(x) + 1, "sequence_number", "");
            double z; uint64_t b2 = c.draw(UINT64_MAX); memcpy(&z, &b2, 8); if (std::isnan(z)) z = 1;
            VP_REQUIRE(c, (x < z) == (m::sequence_number(x) < m::sequence_number(z)), "sequence_number", "order"); break; }
        case 11: {
            float x; uint32_t b = uint32_t(c.draw(UINT32_MAX)); memcpy(&x, &b, 4);
            if (std::isnan(x) or std::isinf(x) or x == 0) c.discard();
            c.log() << "float " << x << "\n"; c.nontrivial();
            VP_REQUIRE(c, m::sequence_number(std::nextafterf(x, INFINITY)) == m::sequence_number(x) + 1, "sequence_number", ""); break; }
        case 12: {
            const unsigned n = unsigned(c.draw(40)), k = unsigned(c.draw(n)); c.log() << n << " choose " << k << "\n"; c.nontrivial(k > 1);
            double w = 1; for (unsigned i = 0; i != k; ++i) w = w * (n - i) / (i + 1);
            VP_REQUIRE(c, std::abs(double(m::n_choose_k_approx(n, k)) - w) <= 1 + w * 1e-9, "n_choose_k_approx", m::n_choose_k_approx(n, k)); break; }
    }
}

VP_PROP("C16", "sets and sorting", 40000, 400000) {
    std::vector<int> v; const int range = c.coin() ? 3 : 1000; for (size_t n = c.size(60); n; --n) v.push_back(int(c.range(-range, range)));
    if (c.chance(1, 4)) std::sort(v.begin(), v.end()); if (c.chance(1, 6)) std::reverse(v.begin(), v.end());
    for (int x : v) c.log() << x << ' '; c.log() << "\n"; c.nontrivial(v.size() > 3);
    auto s = v, want = v; std::sort(want.begin(), want.end());
    m::qsort(s.begin(), s.end(), m::partition_predicated_naive{});
    VP_REQUIRE(c, s == want, "qsort", "not sorted, or not a permutation");
    s = v; const int pivot = int(c.range(-range, range));
    auto mid = m::partition_predicated_naive{}(pivot, s.begin(), s.end());
    for (auto it = s.begin(); it != mid; ++it) VP_REQUIRE(c, *it <= pivot, "partition", *it << " is in the lower part of " << pivot);
    for (auto it = mid; it != s.end(); ++it) VP_REQUIRE(c, *it >= pivot, "partition", *it << " is in the upper part of " << pivot);
    auto t = s; std::sort(t.begin(), t.end()); VP_REQUIRE(c, t == want, "partition", "not a permutation");
    if (not v.empty()) { size_t k = c.draw(v.size()); bool ok = true; int lo = INT_MIN; for (size_t i = 0; i != k; ++i) lo = std::max(lo, v[i]); for (size_t i = k; i != v.size(); ++i) if (v[i] < lo) ok = false;
        VP_REQUIRE(c, m::verify_partition(v.begin(), v.begin() + k, v.end()) == ok, "verify_partition", "at " << k); }
    std::vector<int> w; for (size_t n = c.size(8); n; --n) w.push_back(v.empty() or c.coin() ? int(c.draw(6)) : c.pick(v));
    if (c.chance(1, 4)) w = v;
    std::set<int> S(v.begin(), v.end()), T(w.begin(), w.end()), I; for (int x : S) if (T.count(x)) I.insert(x);
    VP_REQUIRE(c, m::contains(v, pivot) == bool(S.count(pivot)), "contains", pivot);
    VP_REQUIRE(c, m::equal(v, w) == (S == T), "equal", "");
    VP_REQUIRE(c, m::subset(w, S) == std::includes(S.begin(), S.end(), T.begin(), T.end()), "subset", "");
    VP_REQUIRE(c, m::intersect(w, S) == not I.empty(), "intersect", "");
}

}
