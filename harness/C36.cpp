//@ entry: members reach=done
//@ entry: keys reach=done,present,absent
//@ entry: optionals reach=done,engaged,empty
//@ entry: optional_containers reach=done
//@ entry: lenses_ reach=done
//@ entry: merged reach=done
//@ entry: readers_writers reach=done
//@ bounds: 2 (thorough: 3) writes, through the indexed cursor or the root, with arbitrary values; chains of 1 to 5 indices out of member pointers, indices and keys of vectors of 0-2 elements, of vectors of vectors and of maps of 0-2 entries (index -1 to 2 or arbitrary), lenses (attribute, composed, fan, element, value-or-default, type-erased), on values and lifted through up to two levels of optionals, engaged or empty; each chain in one expression and through intermediate cursors; cursors, readers and writers
//@ outside: indexing an optional with a lens of its content, which does not compile (only members and keys lift); containers with more than 2 elements; immutable containers (C18, C37)
#include "common.hpp"
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>
#include <map>
#include <optional>
#include <vector>

namespace h36 {
namespace ls = lager::lenses;
struct leaf
{
    int a, b;
};
struct mid
{
    leaf l;
    int n;
    std::optional<leaf> o;
};
struct R
{
    mid m;
    std::vector<leaf> v;
    std::vector<std::vector<int>> vv;
    std::map<int, leaf> mp;
    std::optional<mid> om;
    std::optional<std::vector<leaf>> ov;
};
inline bool eq(int a, int b) { return a == b; }
inline bool eq(const leaf& x, const leaf& y) { return (x.a == y.a) & (x.b == y.b); }
template <class A, class B>
bool eq(const std::tuple<A, B>& x, const std::tuple<A, B>& y);
inline bool eq(const mid& x, const mid& y);
template <class T>
bool eq(const std::vector<T>& x, const std::vector<T>& y)
{
    if (x.size() != y.size())
        return false;
    bool r = true;
    for (unsigned i = 0; i < x.size(); ++i)
        r &= eq(x[i], y[i]);
    return r;
}
template <class T>
bool eq(const std::optional<T>& x, const std::optional<T>& y)
{
    return x.has_value() == y.has_value() && (!x || eq(*x, *y));
}
inline bool eq(const mid& x, const mid& y) { return eq(x.l, y.l) & (x.n == y.n) & eq(x.o, y.o); }
inline bool eq(const std::map<int, leaf>& x, const std::map<int, leaf>& y)
{
    if (x.size() != y.size())
        return false;
    bool r = true;
    auto j = y.begin();
    for (auto i = x.begin(); i != x.end(); ++i, ++j)
        r &= (i->first == j->first) & eq(i->second, j->second);
    return r;
}
template <class A, class B>
bool eq(const std::tuple<A, B>& x, const std::tuple<A, B>& y)
{
    return eq(std::get<0>(x), std::get<0>(y)) & eq(std::get<1>(x), std::get<1>(y));
}
inline bool eq(const R& x, const R& y) { return eq(x.m, y.m) & eq(x.v, y.v) & eq(x.vv, y.vv) & eq(x.mp, y.mp) & eq(x.om, y.om) & eq(x.ov, y.ov); }
inline bool operator==(const leaf& x, const leaf& y) { return eq(x, y); }
inline bool operator!=(const leaf& x, const leaf& y) { return !eq(x, y); }
inline bool operator==(const mid& x, const mid& y) { return eq(x, y); }
inline bool operator!=(const mid& x, const mid& y) { return !eq(x, y); }
inline bool operator==(const R& x, const R& y) { return eq(x, y); }
inline bool operator!=(const R& x, const R& y) { return !eq(x, y); }

template <class T>
struct any_of;
template <>
struct any_of<int>
{
    static int make() { return sym::any(); }
};
template <>
struct any_of<leaf>
{
    static leaf make() { return {sym::any(), sym::any()}; }
};
template <>
struct any_of<mid>
{
    static mid make() { return {any_of<leaf>::make(), sym::any(), sym::flip() ? std::optional<leaf>{any_of<leaf>::make()} : std::nullopt}; }
};
template <class T>
struct any_of<std::optional<T>>
{
    static std::optional<T> make()
    {
        if (sym::flip())
            return any_of<T>::make();
        return std::nullopt;
    }
};
template <class T>
struct any_of<std::vector<T>>
{
    static std::vector<T> make()
    {
        std::vector<T> v;
        for (unsigned n = sym::choice(3); n; --n)
            v.push_back(any_of<T>::make());
        return v;
    }
};
template <class A, class B>
struct any_of<std::tuple<A, B>>
{
    static std::tuple<A, B> make() { return {any_of<A>::make(), any_of<B>::make()}; }
};
using Root = lager::state<R, lager::transactional_tag>;
// the cursor c must read and write as the lens does on a plain root
template <class C, class L>
void agrees(Root& root, R& model, C& c, const L& lens, int writes)
{
    using V = std::decay_t<decltype(c.get())>;
    static_assert(std::is_same_v<V, std::decay_t<decltype(lager::view(lens, model))>>, "the type of the lens");
    CHECK(eq(c.get(), V(lager::view(lens, model))), "an indexed cursor reads as the composed lens");
    for (int i = 0; i < writes; ++i) {
        if (i && sym::flip()) {
            auto n = root.get();
            n.m.l.a = sym::any();
            n.m.n   = sym::any();
            if (!n.v.empty())
                n.v[0].b = sym::any();
            if (n.om)
                n.om->l.a = sym::any();
            root.set(n);
            model = n;
        } else {
            V v = any_of<V>::make();
            c.set(v);
            model = lager::set(lens, model, v);
        }
        lager::commit(root);
        CHECK(eq(root.get(), model), "an indexed cursor writes as the composed lens");
        CHECK(eq(c.get(), V(lager::view(lens, model))), "an indexed cursor reads as the composed lens");
    }
    if constexpr (std::is_same_v<V, int>) {
        c.update([](int x) { return sym::uf(5, x); });
        lager::commit(root);
        model = lager::over(lens, model, [](int x) { return sym::uf(5, x); });
        CHECK(eq(root.get(), model), "an indexed cursor updates as the composed lens");
    }
}
constexpr int W = bound(2, 3);
template <class T>
using cur = lager::cursor<T>;
template <class T>
using opt = std::optional<T>;
inline R base()
{
    R r{};
    r.m = {{sym::any(), sym::any()}, sym::any(), std::nullopt};
    return r;
}
} // namespace h36
using namespace h36;
HARNESS(members)
{
    R model = base();
    Root root{model};
    switch (sym::choice(6)) {
    case 0: {
        cur<int> c = root[&R::m][&mid::l][&leaf::a];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::l), ls::attr(&leaf::a)), W);
        break;
    }
    case 1: {
        cur<mid> m  = root[&R::m];
        cur<leaf> l = m[&mid::l];
        cur<int> c  = l[&leaf::b];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::l), ls::attr(&leaf::b)), W);
        break;
    }
    case 2: {
        cur<leaf> c = cur<mid>{root[&R::m]}[&mid::l];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::l)), W);
        break;
    }
    case 3: {
        cur<mid> m = root[&R::m];
        cur<int> c = m[&mid::l][&leaf::a];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::l), ls::attr(&leaf::a)), W);
        break;
    }
    case 4: {
        auto c = root[&R::m][&mid::n].make();
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::n)), W);
        break;
    }
    default: {
        const cur<mid> m = root[&R::m];
        auto c           = lager::with(m)[&mid::l][&leaf::b].make();
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::l), ls::attr(&leaf::b)), W);
    }
    }
    sym::reach("done");
}
HARNESS(keys)
{
    R model = base();
    unsigned w = sym::choice(6);
    if (w < 2)
        model.v = any_of<std::vector<leaf>>::make();
    else if (w < 4)
        model.vv = any_of<std::vector<std::vector<int>>>::make();
    else {
        unsigned n = sym::choice(3);
        int k      = sym::any();
        if (n > 0)
            model.mp[k] = any_of<leaf>::make();
        if (n > 1) {
            int k2 = sym::any();
            sym::assume(k2 > k);
            model.mp[k2] = any_of<leaf>::make();
        }
    }
    Root root{model};
    std::size_t i = (std::size_t) ((int) sym::choice(4) - 1), j = sym::choice(2);
    switch (w) {
    case 0: {
        cur<opt<leaf>> c = root[&R::v][i];
        sym::reach(c.get() ? "present" : "absent");
        agrees(root, model, c, zug::comp(ls::attr(&R::v), ls::at(i)), W);
        break;
    }
    case 1: {
        // lifted
        if (sym::flip()) {
            cur<opt<int>> c = root[&R::v][i][&leaf::b];
            agrees(root, model, c, zug::comp(ls::attr(&R::v), ls::at(i), ls::with_opt(ls::attr(&leaf::b))), W);
        } else {
            cur<std::vector<leaf>> v = root[&R::v];
            cur<opt<leaf>> e         = v[i];
            cur<opt<int>> c          = e[&leaf::a];
            agrees(root, model, c, zug::comp(ls::attr(&R::v), ls::at(i), ls::with_opt(ls::attr(&leaf::a))), W);
        }
        break;
    }
    case 2: {
        cur<opt<int>> c = root[&R::vv][i][j];
        agrees(root, model, c, zug::comp(ls::attr(&R::vv), ls::at(i), ls::with_opt(ls::at(j))), W);
        break;
    }
    case 3: {
        cur<opt<std::vector<int>>> v = root[&R::vv][i];
        cur<opt<int>> c              = v[j];
        agrees(root, model, c, zug::comp(ls::attr(&R::vv), ls::at(i), ls::with_opt(ls::at(j))), W);
        break;
    }
    case 4: {
        int k            = sym::any();
        cur<opt<leaf>> c = root[&R::mp][k];
        agrees(root, model, c, zug::comp(ls::attr(&R::mp), ls::at(k)), W);
        break;
    }
    default: {
        int k           = sym::any();
        cur<opt<int>> c = root[&R::mp][k][&leaf::a];
        agrees(root, model, c, zug::comp(ls::attr(&R::mp), ls::at(k), ls::with_opt(ls::attr(&leaf::a))), W);
    }
    }
    sym::reach("done");
}
HARNESS(optionals)
{
    R model = base();
    model.om = any_of<opt<mid>>::make();
    model.m.o = any_of<opt<leaf>>::make();
    sym::reach(model.om ? "engaged" : "empty");
    Root root{model};
    switch (sym::choice(7)) {
    case 0: {
        cur<opt<int>> c = root[&R::m][&mid::o][&leaf::a];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::o), ls::with_opt(ls::attr(&leaf::a))), W);
        break;
    }
    case 1: {
        cur<opt<int>> c = root[&R::om][&mid::n];
        agrees(root, model, c, zug::comp(ls::attr(&R::om), ls::with_opt(ls::attr(&mid::n))), W);
        break;
    }
    case 2: {
        cur<opt<leaf>> c = root[&R::om][&mid::l];
        agrees(root, model, c, zug::comp(ls::attr(&R::om), ls::with_opt(ls::attr(&mid::l))), W);
        break;
    }
    case 3: {
        // lifted twice: an optional in an optional
        cur<opt<leaf>> c = root[&R::om][&mid::o];
        agrees(root, model, c, zug::comp(ls::attr(&R::om), ls::with_opt(ls::attr(&mid::o))), W);
        break;
    }
    case 4: {
        cur<opt<int>> c = root[&R::om][&mid::o][&leaf::b];
        agrees(root, model, c, zug::comp(ls::attr(&R::om), ls::with_opt(ls::attr(&mid::o)), ls::with_opt(ls::attr(&leaf::b))), W);
        break;
    }
    case 5: {
        cur<opt<mid>> m  = root[&R::om];
        cur<opt<leaf>> l = m[&mid::l];
        cur<opt<int>> c  = l[&leaf::b];
        agrees(root, model, c, zug::comp(ls::attr(&R::om), ls::with_opt(ls::attr(&mid::l)), ls::with_opt(ls::attr(&leaf::b))), W);
        break;
    }
    default: {
        // lenses that take the optional itself
        int d = sym::any();
        cur<int> c = root[&R::om][&mid::n][ls::value_or(d)];
        agrees(root, model, c, zug::comp(ls::attr(&R::om), ls::with_opt(ls::attr(&mid::n)), ls::value_or(d)), W);
    }
    }
    sym::reach("done");
}
HARNESS(optional_containers)
{
    R model = base();
    model.ov = any_of<opt<std::vector<leaf>>>::make();
    Root root{model};
    std::size_t i = sym::choice(3);
    switch (sym::choice(3)) {
    case 0: {
        cur<opt<leaf>> c = root[&R::ov][i];
        agrees(root, model, c, zug::comp(ls::attr(&R::ov), ls::with_opt(ls::at(i))), W);
        break;
    }
    case 1: {
        cur<opt<int>> c = root[&R::ov][i][&leaf::a];
        agrees(root, model, c, zug::comp(ls::attr(&R::ov), ls::with_opt(ls::at(i)), ls::with_opt(ls::attr(&leaf::a))), W);
        break;
    }
    default: {
        cur<opt<std::vector<leaf>>> v = root[&R::ov];
        auto c                        = v[i][&leaf::b].make();
        agrees(root, model, c, zug::comp(ls::attr(&R::ov), ls::with_opt(ls::at(i)), ls::with_opt(ls::attr(&leaf::b))), W);
    }
    }
    sym::reach("done");
}
HARNESS(lenses_)
{
    R model = base();
    model.om = any_of<opt<mid>>::make();
    Root root{model};
    auto leaf_a = zug::comp(ls::attr(&mid::l), ls::attr(&leaf::a));
    switch (sym::choice(8)) {
    case 0: {
        cur<int> c = root[zug::comp(ls::attr(&R::m), leaf_a)];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), leaf_a), W);
        break;
    }
    case 1: {
        cur<int> c = root[&R::m][leaf_a];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), leaf_a), W);
        break;
    }
    case 2: {
        lager::lens<mid, int> e{leaf_a};
        cur<mid> m = root[&R::m];
        cur<int> c = m[e];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), e), W);
        break;
    }
    case 3: {
        // a lens that takes the optional, over a member of it
        auto w     = zug::comp(ls::with_opt(ls::attr(&mid::n)), ls::value_or(5));
        cur<int> c = root[&R::om].zoom(w);
        agrees(root, model, c, zug::comp(ls::attr(&R::om), w), W);
        break;
    }
    case 4: {
        cur<mid> m = root[&R::om].zoom(ls::value_or(model.m));
        cur<int> c = m[&mid::n];
        agrees(root, model, c, zug::comp(ls::attr(&R::om), ls::value_or(model.m), ls::attr(&mid::n)), W);
        break;
    }
    case 5: {
        cur<int> c = root[&R::om][ls::value_or(model.m)][&mid::l][&leaf::b];
        agrees(root, model, c, zug::comp(ls::attr(&R::om), ls::value_or(model.m), ls::attr(&mid::l), ls::attr(&leaf::b)), W);
        break;
    }
    case 6: {
        auto gs    = ls::getset([](const leaf& l) { return sym::uf(1, l.a, l.b); }, [](leaf l, int x) {
            l.b = sym::uf(2, l.b, x);
            return l;
        });
        cur<int> c = root[&R::m][&mid::l][gs];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::l), gs), W);
        break;
    }
    default: {
        auto f = ls::fan(ls::attr(&leaf::b), ls::attr(&leaf::a));
        cur<int> c = root[&R::m][&mid::l][f][ls::element<1>];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::l), f, ls::element<1>), W);
    }
    }
    sym::reach("done");
}
// over several cursors at once
HARNESS(merged)
{
    R model = base();
    Root root{model};
    cur<leaf> l = root[&R::m][&mid::l];
    cur<int> n  = root[&R::m][&mid::n];
    auto pairl  = ls::fan(zug::comp(ls::attr(&R::m), ls::attr(&mid::l)), zug::comp(ls::attr(&R::m), ls::attr(&mid::n)));
    if (sym::flip()) {
        cur<int> c = lager::with(l, n)[ls::element<0>][&leaf::b];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::l), ls::attr(&leaf::b)), W);
    } else {
        cur<std::tuple<leaf, int>> t = lager::with(l, n);
        cur<int> c                   = t[ls::element<1>];
        agrees(root, model, c, zug::comp(ls::attr(&R::m), ls::attr(&mid::n)), W);
    }
    (void) pairl;
    sym::reach("done");
}
HARNESS(readers_writers)
{
    R model = base();
    model.om = any_of<opt<mid>>::make();
    model.v  = any_of<std::vector<leaf>>::make();
    Root root{model};
    lager::reader<R> r = root;
    lager::writer<R> w = cur<R>{root};
    std::size_t i      = sym::choice(3);
    lager::reader<int> ra       = sym::flip() ? lager::reader<int>{r[&R::m][&mid::l][&leaf::a]} : lager::reader<int>{lager::reader<mid>{r[&R::m]}[&mid::l][&leaf::a]};
    lager::reader<opt<int>> rv  = r[&R::v][i][&leaf::b];
    lager::reader<opt<int>> ro  = r[&R::om][&mid::n];
    lager::reader<int> rx       = r.xform(zug::map([](const R& x) { return x.m; }))[&mid::l][&leaf::b];
    auto la = zug::comp(ls::attr(&R::m), ls::attr(&mid::l), ls::attr(&leaf::a));
    auto lv = zug::comp(ls::attr(&R::v), ls::at(i), ls::with_opt(ls::attr(&leaf::b)));
    auto lo = zug::comp(ls::attr(&R::om), ls::with_opt(ls::attr(&mid::n)));
    auto chk = [&] {
        CHECK(eq(ra.get(), lager::view(la, model)), "an indexed reader reads as the composed lens");
        CHECK(eq(rv.get(), opt<int>(lager::view(lv, model))), "an indexed reader reads as the composed lens");
        CHECK(eq(ro.get(), opt<int>(lager::view(lo, model))), "an indexed reader reads as the composed lens");
        CHECK(eq(rx.get(), model.m.l.b), "an indexed reader reads as the composed lens");
        CHECK(eq(root.get(), model), "an indexed writer writes as the composed lens");
    };
    chk();
    for (int k = 0; k < W; ++k) {
        int x = sym::any();
        switch (sym::choice(4)) {
        case 0: {
            lager::writer<int> q = w[&R::m][&mid::l][&leaf::a];
            q.set(x);
            model = lager::set(la, model, x);
            break;
        }
        case 1: {
            lager::writer<opt<int>> q = w[&R::v][i][&leaf::b];
            q.set(x);
            model = lager::set(lv, model, opt<int>{x});
            break;
        }
        case 2: {
            lager::writer<opt<mid>> p = w[&R::om];
            lager::writer<opt<int>> q = p[&mid::n];
            q.set(x);
            model = lager::set(lo, model, opt<int>{x});
            break;
        }
        default: {
            model.m.l.b = x;
            root.set(model);
        }
        }
        lager::commit(root);
        chk();
    }
    sym::reach("done");
}
