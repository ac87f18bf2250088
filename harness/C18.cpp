//@ entry: std_vector reach=done,present,absent
//@ entry: std_array reach=done,present,absent
//@ entry: std_map reach=done,present,absent
//@ entry: std_unordered_map reach=done,present,absent
//@ entry: immer_vector reach=done,present,absent
//@ entry: immer_flex_vector reach=done,present,absent
//@ entry: immer_array reach=done,present,absent
//@ entry: immer_map reach=done,present,absent
//@ entry: immer_table_at reach=done
//@ entry: immer_table_absent reach=done
//@ entry: alternatives reach=done
//@ entry: lifted reach=done
//@ entry: lifted_partial reach=done
//@ entry: forced reach=done
//@ entry: chains reach=done
//@ entry: partial_overs reach=done
//@ bounds: containers of 0-3 elements (maps: keys arbitrary and distinct for std::map, from a set of 5 for the hashed maps), index arbitrary (64 bits, and negative ints), elements and parts arbitrary ints emptied when moved from; engaged and empty parts; whole as const, lvalue or temporary; plain and type-erased lenses
//@ outside: containers with more than 3 elements; keys of other types
#include "lens.hpp"
#include <array>
#include <immer/array.hpp>
#include <immer/flex_vector.hpp>
#include <immer/map.hpp>
#include <immer/table.hpp>
#include <immer/vector.hpp>
#include <map>
#include <unordered_map>
#include <variant>
#include <vector>

using namespace lager::lenses;
using opt = std::optional<mv>;
template <class C>
bool seqeq(const C& a, const C& b)
{
    if (a.size() != b.size())
        return false;
    bool r = true;
    for (std::size_t i = 0; i < a.size(); ++i)
        r &= eqv(a[i], b[i]);
    return r;
}
bool eqv(const std::vector<mv>& a, const std::vector<mv>& b) { return seqeq(a, b); }
bool eqv(const std::array<mv, 3>& a, const std::array<mv, 3>& b) { return seqeq(a, b); }
bool eqv(const immer::vector<mv>& a, const immer::vector<mv>& b) { return seqeq(a, b); }
bool eqv(const immer::flex_vector<mv>& a, const immer::flex_vector<mv>& b) { return seqeq(a, b); }
bool eqv(const immer::array<mv>& a, const immer::array<mv>& b) { return seqeq(a, b); }
bool eqv(const std::map<int, mv>& a, const std::map<int, mv>& b)
{
    if (a.size() != b.size())
        return false;
    bool r = true;
    auto i = a.begin();
    for (auto j = b.begin(); j != b.end(); ++i, ++j)
        r &= (i->first == j->first) & eqv(i->second, j->second);
    return r;
}
template <class M>
bool hasheq(const M& a, const M& b)
{
    if (a.size() != b.size())
        return false;
    bool r = true;
    for (auto& kv : a) {
        if (!b.count(kv.first))
            return false;
        r &= eqv(kv.second, b.at(kv.first));
    }
    return r;
}
bool eqv(const std::unordered_map<int, mv>& a, const std::unordered_map<int, mv>& b) { return hasheq(a, b); }
bool eqv(const immer::map<int, mv>& a, const immer::map<int, mv>& b) { return hasheq(a, b); }

// a partial lens against plain functions, with an engaged and an empty part
template <class P, class L, class W, class Get, class Put>
void partial(const L& l, const W& w, const P& v, Get get, Put put)
{
    agrees<P>(l, w, v, get, put);
    agrees<P>(l, w, P{}, get, put);
    lager::lens<W, P> e{l};
    agrees<P>(e, w, v, get, put);
    agrees<P>(e, w, P{}, get, put);
    W x  = lager::set(l, w, v);
    P p  = lager::view(l, x);
    P p0 = get(w);
    CHECK(p.has_value() == p0.has_value(), "setting neither creates nor removes the focus");
    if (p0.has_value()) {
        CHECK(eqv(p, v), "viewing after setting a present focus gives the set value");
        sym::reach("present");
    } else
        sym::reach("absent");
    W y = lager::set(l, w, p0);
    CHECK(eqv(y, w), "setting the viewed value changes nothing");
}
// at, at_or of a container with at(); has and ref as plain functions
template <class W, class Key, class Has, class Put>
void container(const W& w, Key k, Has has, Put put)
{
    mv v = any_mv(), d = any_mv();
    partial<opt>(at(k), w, opt{v}, [&](const W& x) { return has(x) ? opt{x.at(k)} : opt{}; }, [&](W x, const opt& p) { return p && has(x) ? put(x, *p) : x; });
    agrees<mv>(at_or(k), w, v, [&](const W& x) { return has(x) ? x.at(k) : mv{}; }, [&](W x, const mv& p) { return has(x) ? put(x, p) : x; });
    agrees<mv>(at_or(k, d), w, v, [&](const W& x) { return has(x) ? x.at(k) : d; }, [&](W x, const mv& p) { return has(x) ? put(x, p) : x; });
    lager::lens<W, mv> e{at_or(k, d)};
    agrees<mv>(e, w, v, [&](const W& x) { return has(x) ? x.at(k) : d; }, [&](W x, const mv& p) { return has(x) ? put(x, p) : x; });
}
template <class W>
void sequence(const W& w)
{
    auto put = [](auto k) { return [k](W x, const mv& p) { x[k] = p; return x; }; };
    auto has = [](auto k) { return [k](const W& x) { return (std::size_t) k < x.size(); }; };
    if (sym::flip()) {
        auto k = sym::any<std::size_t>();
        container(w, k, has(k), put(k));
    } else {
        auto k = sym::any<int>();
        container(w, k, has(k), put(k));
    }
    sym::reach("done");
}
template <class W>
void immutable_sequence()
{
    W w;
    for (int n = sym::choice(4), i = 0; i < n; ++i)
        w = w.push_back(any_mv());
    auto put = [](auto k) { return [k](W x, const mv& p) { return x.set(k, p); }; };
    auto has = [](auto k) { return [k](const W& x) { return (std::size_t) k < x.size(); }; };
    if (sym::flip()) {
        auto k = sym::any<std::size_t>();
        container(w, k, has(k), put(k));
    } else {
        auto k = sym::any<int>();
        container(w, k, has(k), put(k));
    }
    sym::reach("done");
}
HARNESS(std_vector)
{
    std::vector<mv> w;
    for (int n = sym::choice(4), i = 0; i < n; ++i)
        w.push_back(any_mv());
    sequence(w);
}
HARNESS(std_array)
{
    std::array<mv, 3> w{any_mv(), any_mv(), any_mv()};
    sequence(w);
}
HARNESS(std_map)
{
    std::map<int, mv> w;
    for (int n = sym::choice(4), i = 0; i < n; ++i) {
        int k = sym::any();
        sym::assume(!w.count(k));
        w[k] = any_mv();
    }
    int k = sym::any();
    using W = std::map<int, mv>;
    container(w, k, [k](const W& x) { return x.find(k) != x.end(); }, [k](W x, const mv& p) { x.find(k)->second = p; return x; });
    sym::reach("done");
}
namespace {
const int keys[] = {0, 1, -1, 32, 33};
}
HARNESS(std_unordered_map)
{
    using W = std::unordered_map<int, mv>;
    W w;
    for (int n = sym::choice(4), i = 0; i < n; ++i)
        w[keys[i + 1]] = any_mv();
    int k = keys[sym::choice(5)];
    container(w, k, [k](const W& x) { return x.find(k) != x.end(); }, [k](W x, const mv& p) { x.find(k)->second = p; return x; });
    sym::reach("done");
}
HARNESS(immer_vector) { immutable_sequence<immer::vector<mv>>(); }
HARNESS(immer_flex_vector) { immutable_sequence<immer::flex_vector<mv>>(); }
HARNESS(immer_array)
{
    immutable_sequence<immer::array<mv>>();
}
HARNESS(immer_map)
{
    using W = immer::map<int, mv>;
    W w;
    for (int n = sym::choice(4), i = 0; i < n; ++i)
        w = w.set(keys[i + 1], any_mv());
    int k = keys[sym::choice(5)];
    container(w, k, [k](const W& x) { return x.count(k) > 0; }, [k](W x, const mv& p) { return x.set(k, p); });
    sym::reach("done");
}
// a table: the part is an entry that carries its own key
namespace {
struct row
{
    int id;
    mv v;
};
bool eqv(const row& a, const row& b) { return (a.id == b.id) & eqv(a.v, b.v); }
bool operator==(const row& a, const row& b) { return eqv(a, b); }
bool eqv(const std::optional<row>& a, const std::optional<row>& b)
{
    if (a.has_value() != b.has_value())
        return false;
    return a ? eqv(*a, *b) : true;
}
bool eqv(const immer::table<row>& a, const immer::table<row>& b)
{
    if (a.size() != b.size())
        return false;
    bool r = true;
    for (auto& x : a) {
        auto p = b.find(x.id);
        if (!p)
            return false;
        r &= eqv(x, *p);
    }
    return r;
}
} // namespace
HARNESS(immer_table_at)
{
    using W = immer::table<row>;
    W w;
    int n = sym::choice(3);
    for (int i = 0; i < n; ++i)
        w = w.insert(row{keys[i + 1], any_mv()});
    int k = keys[1 + sym::choice(n ? n : 1)];
    bool present = w.count(k) > 0;
    row v{k, any_mv()};
    auto get = [k](const W& x) { auto p = x.find(k); return p ? std::optional<row>{*p} : std::nullopt; };
    auto put = [k](W x, const std::optional<row>& p) { return p ? x.insert(*p) : x; };
    if (present) {
        agrees<std::optional<row>>(at(k), w, std::optional<row>{v}, get, put);
        W x = lager::set(at(k), w, std::optional<row>{v});
        CHECK(eqv(std::optional<row>{lager::view(at(k), x)}, std::optional<row>{v}), "viewing after setting a present entry");
    }
    agrees<std::optional<row>>(at(k), w, std::optional<row>{}, get, put);
    sym::reach("done");
}
// setting at a key that is absent inserts (known_findings.txt)
HARNESS(immer_table_absent)
{
    using W = immer::table<row>;
    W w;
    for (int n = sym::choice(3), i = 0; i < n; ++i)
        w = w.insert(row{keys[i + 1], any_mv()});
    int k = keys[4];
    std::optional<row> v{row{k, any_mv()}};
    std::optional<row> got = lager::view(at(k), w);
    CHECK(!got.has_value(), "an absent table entry is viewed as nothing");
    W x = lager::set(at(k), w, v);
    sym::reach("done");
    CHECK(eqv(x, w), "setting at the key of an absent table entry changes nothing");
}
namespace {
struct leaf { mv x, y; };
struct node { leaf l; std::optional<leaf> o; std::vector<mv> vec; };
bool eqv(const leaf& a, const leaf& b) { return eqv(a.x, b.x) & eqv(a.y, b.y); }
bool eqv(const std::optional<leaf>& a, const std::optional<leaf>& b)
{
    if (a.has_value() != b.has_value())
        return false;
    return a ? eqv(*a, *b) : true;
}
bool eqv(const node& a, const node& b) { return eqv(a.l, b.l) & eqv(a.o, b.o) & eqv(a.vec, b.vec); }
bool eqv(const std::optional<node>& a, const std::optional<node>& b)
{
    if (a.has_value() != b.has_value())
        return false;
    return a ? eqv(*a, *b) : true;
}
bool eqv(const std::optional<opt>& a, const std::optional<opt>& b)
{
    if (a.has_value() != b.has_value())
        return false;
    return a ? ::eqv(*a, *b) : true;
}
bool eqv(const std::optional<std::vector<mv>>& a, const std::optional<std::vector<mv>>& b)
{
    if (a.has_value() != b.has_value())
        return false;
    return a ? ::eqv(*a, *b) : true;
}
bool operator==(const leaf& a, const leaf& b) { return eqv(a, b); }
leaf any_leaf() { leaf l; l.x = any_mv(); l.y = any_mv(); return l; }
node any_node()
{
    node n;
    n.l = any_leaf();
    if (sym::flip()) n.o = any_leaf();
    for (int k = sym::choice(3), i = 0; i < k; ++i)
        n.vec.push_back(any_mv());
    return n;
}
using V = std::variant<mv, leaf, int>;
bool eqv(const V& a, const V& b)
{
    if (a.index() != b.index())
        return false;
    if (a.index() == 0) return ::eqv(std::get<0>(a), std::get<0>(b));
    if (a.index() == 1) return eqv(std::get<1>(a), std::get<1>(b));
    return std::get<2>(a) == std::get<2>(b);
}
V any_variant()
{
    switch (sym::choice(3)) {
    case 0: return V{any_mv()};
    case 1: return V{any_leaf()};
    default: return V{sym::any()};
    }
}
} // namespace
HARNESS(alternatives)
{
    auto w = any_variant();
    auto l = any_leaf();
    partial<opt>(alternative<mv>, w, opt{any_mv()}, [](const V& x) { return x.index() == 0 ? opt{std::get<0>(x)} : opt{}; }, [](V x, const opt& p) { return p && x.index() == 0 ? V{*p} : x; });
    using OL = std::optional<leaf>;
    partial<OL>(alternative<leaf>, w, OL{l}, [](const V& x) { return x.index() == 1 ? OL{std::get<1>(x)} : OL{}; }, [](V x, const OL& p) { return p && x.index() == 1 ? V{*p} : x; });
    using OI = std::optional<int>;
    partial<OI>(alternative<int>, w, OI{sym::any()}, [](const V& x) { return x.index() == 2 ? OI{std::get<2>(x)} : OI{}; }, [](V x, const OI& p) { return p && x.index() == 2 ? V{*p} : x; });
    partial<opt>(zug::comp(alternative<leaf>, with_opt(attr(&leaf::y))), w, opt{any_mv()}, [](const V& x) { return x.index() == 1 ? opt{std::get<1>(x).y} : opt{}; },
                 [](V x, const opt& p) { if (p && x.index() == 1) std::get<1>(x).y = *p; return x; });
    sym::reach("done");
}
// total lenses lifted to optionals
HARNESS(lifted)
{
    using OL = std::optional<leaf>;
    OL w;
    if (sym::flip()) w = any_leaf();
    auto get = [](const OL& x) { return x ? opt{x->y} : opt{}; };
    auto put = [](OL x, const opt& p) { if (x && p) x->y = *p; return x; };
    partial<opt>(with_opt(attr(&leaf::y)), w, opt{any_mv()}, get, put);
    partial<opt>(map_opt(attr(&leaf::y)), w, opt{any_mv()}, get, put);
    using ON = std::optional<node>;
    ON n;
    if (sym::flip()) n = any_node();
    partial<opt>(with_opt(zug::comp(attr(&node::l), attr(&leaf::x))), n, opt{any_mv()}, [](const ON& x) { return x ? opt{x->l.x} : opt{}; }, [](ON x, const opt& p) { if (x && p) x->l.x = *p; return x; });
    partial<opt>(zug::comp(with_opt(attr(&node::l)), with_opt(attr(&leaf::x))), n, opt{any_mv()}, [](const ON& x) { return x ? opt{x->l.x} : opt{}; }, [](ON x, const opt& p) { if (x && p) x->l.x = *p; return x; });
    sym::reach("done");
}
// partial lenses lifted to optionals
HARNESS(lifted_partial)
{
    using ON = std::optional<node>;
    ON n;
    if (sym::flip()) n = any_node();
    auto k   = sym::any<std::size_t>();
    auto get = [k](const ON& x) { return x && k < x->vec.size() ? opt{x->vec[k]} : opt{}; };
    auto put = [k](ON x, const opt& p) { if (x && p && k < x->vec.size()) x->vec[k] = *p; return x; };
    partial<opt>(with_opt(zug::comp(attr(&node::vec), at(k))), n, opt{any_mv()}, get, put);
    partial<opt>(bind_opt(zug::comp(attr(&node::vec), at(k))), n, opt{any_mv()}, get, put);
    partial<opt>(zug::comp(with_opt(attr(&node::vec)), with_opt(at(k))), n, opt{any_mv()}, get, put);
    partial<opt>(with_opt(zug::comp(attr(&node::o), with_opt(attr(&leaf::x)))), n, opt{any_mv()}, [](const ON& x) { return x && x->o ? opt{x->o->x} : opt{}; }, [](ON x, const opt& p) { if (x && x->o && p) x->o->x = *p; return x; });
    // map_opt keeps the two levels apart
    using OO = std::optional<opt>;
    auto get2 = [k](const ON& x) { return x ? OO{k < x->vec.size() ? opt{x->vec[k]} : opt{}} : OO{}; };
    auto put2 = [k](ON x, const OO& p) { if (x && p && *p && k < x->vec.size()) x->vec[k] = **p; return x; };
    auto l2 = map_opt(zug::comp(attr(&node::vec), at(k)));
    OO v{opt{any_mv()}};
    agrees<OO>(l2, n, v, get2, put2);
    agrees<OO>(l2, n, OO{}, get2, put2);
    agrees<OO>(l2, n, OO{opt{}}, get2, put2);
    using OV = std::optional<V>;
    (void) sizeof(OV);
    sym::reach("done");
}
HARNESS(forced)
{
    mv w = any_mv();
    agrees<opt>(force_opt, w, opt{any_mv()}, [](const mv& x) { return opt{x}; }, [](const mv& x, const opt& p) { return p ? *p : x; });
    agrees<opt>(force_opt, w, opt{}, [](const mv& x) { return opt{x}; }, [](const mv& x, const opt& p) { return p ? *p : x; });
    leaf l = any_leaf();
    auto c = zug::comp(attr(&leaf::y), force_opt);
    agrees<opt>(c, l, opt{any_mv()}, [](const leaf& x) { return opt{x.y}; }, [](leaf x, const opt& p) { if (p) x.y = *p; return x; });
    agrees<opt>(c, l, opt{}, [](const leaf& x) { return opt{x.y}; }, [](leaf x, const opt& p) { if (p) x.y = *p; return x; });
    sym::reach("done");
}
// over() of partial lenses, with functions that take the part away and may give none
HARNESS(partial_overs)
{
    auto f = [](opt p) { return p && p->v != 3 ? opt{mv{sym::uf(1, p->v)}} : opt{}; };
    mv w   = any_mv();
    agrees_over<opt>(force_opt, w, [](const mv& x) { return opt{x}; }, [](const mv& x, const opt& p) { return p ? *p : x; }, f);
    leaf l = any_leaf();
    agrees_over<opt>(zug::comp(attr(&leaf::y), force_opt), l, [](const leaf& x) { return opt{x.y}; }, [](leaf x, const opt& p) { if (p) x.y = *p; return x; }, f);
    using W = std::pair<mv, leaf>;
    using P = std::pair<opt, opt>;
    W z{any_mv(), any_leaf()};
    auto zl  = zip(force_opt, zug::comp(attr(&leaf::x), force_opt));
    auto get = [](const W& x) { return P{x.first, x.second.x}; };
    auto put = [](W x, const P& p) { if (p.first) x.first = *p.first; if (p.second) x.second.x = *p.second; return x; };
    agrees<P>(zl, z, P{any_mv(), std::nullopt}, get, put);
    agrees<P>(zl, z, P{}, get, put);
    agrees_over<P>(zl, z, get, put, [f](P p) { return P{f(std::move(p.first)), opt{}}; });
    using OL = std::optional<leaf>;
    OL o;
    if (sym::flip())
        o = any_leaf();
    agrees_over<opt>(with_opt(attr(&leaf::y)), o, [](const OL& x) { return x ? opt{x->y} : opt{}; }, [](OL x, const opt& p) { if (x && p) x->y = *p; return x; }, f);
    auto n = any_node();
    auto k = sym::any<std::size_t>();
    agrees_over<opt>(zug::comp(attr(&node::vec), at(k)), n, [k](const node& x) { return k < x.vec.size() ? opt{x.vec[k]} : opt{}; }, [k](node x, const opt& p) { if (p && k < x.vec.size()) x.vec[k] = *p; return x; }, f);
    sym::reach("done");
}
HARNESS(chains)
{
    auto n = any_node();
    auto k = sym::any<std::size_t>();
    partial<opt>(zug::comp(attr(&node::vec), at(k)), n, opt{any_mv()}, [k](const node& x) { return k < x.vec.size() ? opt{x.vec[k]} : opt{}; }, [k](node x, const opt& p) { if (p && k < x.vec.size()) x.vec[k] = *p; return x; });
    partial<opt>(zug::comp(attr(&node::o), with_opt(attr(&leaf::y))), n, opt{any_mv()}, [](const node& x) { return x.o ? opt{x.o->y} : opt{}; }, [](node x, const opt& p) { if (p && x.o) x.o->y = *p; return x; });
    mv d = any_mv();
    agrees<mv>(zug::comp(attr(&node::vec), at(k), value_or(d)), n, any_mv(), [k, d](const node& x) { return k < x.vec.size() ? x.vec[k] : d; }, [k](node x, const mv& p) { if (k < x.vec.size()) x.vec[k] = p; return x; });
    agrees<mv>(zug::comp(attr(&node::vec), at_or(k, d)), n, any_mv(), [k, d](const node& x) { return k < x.vec.size() ? x.vec[k] : d; }, [k](node x, const mv& p) { if (k < x.vec.size()) x.vec[k] = p; return x; });
    sym::reach("done");
}
