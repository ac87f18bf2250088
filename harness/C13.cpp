//@ entry: transactional reach=done,present,absent,nothing
//@ entry: automatic reach=done,present,absent,nothing
//@ entry: several_parents reach=done
//@ entry: deep_chain reach=done
//@ bounds: 2 (thorough: 3) writes through the root and any two of 11 kinds of cursor (attribute, nested attribute, composed lens, getter/setter pair with arbitrary functions, element of a vector of 0-2 elements at an index -1..2, optional member, value-or-default, pair and tuple elements, fan, type-erased lens, element of the vector inside of an optional), arbitrary values given as lvalues or temporaries; committed after each or at the end; deep_chain: every chain of 4 lenses of 3 kinds
//@ outside: containers with more than 2 elements; associative containers (C18)
#include "graph.hpp"
#include <lager/lens.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <optional>
#include <vector>

namespace {
struct R
{
    mdl in;
    std::pair<int, int> p;
    std::vector<int> vec;
    std::optional<mdl> opt;
    std::tuple<int, int> t;
};
bool eq(const R& x, const R& y)
{
    bool r = (x.in == y.in) & (x.p.first == y.p.first) & (x.p.second == y.p.second) & (std::get<0>(x.t) == std::get<0>(y.t)) & (std::get<1>(x.t) == std::get<1>(y.t)) & (x.vec.size() == y.vec.size()) & (x.opt.has_value() == y.opt.has_value());
    if (x.vec.size() == y.vec.size())
        for (std::size_t i = 0; i < x.vec.size(); ++i)
            r &= x.vec[i] == y.vec[i];
    if (x.opt && y.opt)
        r &= *x.opt == *y.opt;
    return r;
}
bool operator==(const R& x, const R& y) { return eq(x, y); }
bool operator!=(const R& x, const R& y) { return !eq(x, y); }
R any_root()
{
    R r;
    r.in = any_mdl();
    r.p.first  = sym::any();
    r.p.second = sym::any();
    std::get<0>(r.t) = sym::any();
    std::get<1>(r.t) = sym::any();
    int n = sym::choice(3);
    for (int i = 0; i < n; ++i)
        r.vec.push_back(sym::any());
    if (n != 1)
        r.opt = any_mdl();
    return r;
}
auto gs = [] {
    return lager::lenses::getset([](const R& r) { return sym::uf(1, r.in.a, r.in.b); }, [](R r, int v) {
        r.in.a = sym::uf(2, r.in.a, v);
        return r;
    });
};
template <class Root>
struct cursors
{
    lager::cursor<mdl> in;
    lager::cursor<int> a, b2, g, sec, te, er;
    lager::cursor<std::optional<int>> el, ob;
    lager::cursor<mdl> od;
    lager::cursor<std::tuple<int, int>> fan;
    int idx = 0;
    unsigned made[2]; // the two kinds of cursor in use
    bool has_kind(unsigned k) const { return made[0] == k || made[1] == k; }
    cursors(Root& root)
    {
        made[0] = 1 + sym::choice(11);
        made[1] = made[0] + sym::choice(12 - made[0]);
        if (has_kind(7))
            idx = (int) sym::choice(4) - 1;
        if (has_kind(1)) in = root[&R::in];
        if (has_kind(2)) a = (has_kind(1) ? in : lager::cursor<mdl>{root[&R::in]})[&mdl::a];
        if (has_kind(3)) b2 = root.zoom(zug::comp(lager::lenses::attr(&R::in), lager::lenses::attr(&mdl::b)));
        if (has_kind(4)) g = root.zoom(gs());
        if (has_kind(5)) sec = root[&R::p][lager::lenses::second];
        if (has_kind(6)) te = root[&R::t].zoom(lager::lenses::element<0>);
        if (has_kind(7)) el = root[&R::vec][(std::size_t) idx];
        if (has_kind(8)) ob = root[&R::opt][&mdl::b];
        if (has_kind(9)) od = root[&R::opt].zoom(lager::lenses::or_default);
        if (has_kind(10)) fan = (has_kind(1) ? in : lager::cursor<mdl>{root[&R::in]}).zoom(lager::lenses::fan(lager::lenses::attr(&mdl::b), lager::lenses::attr(&mdl::a)));
        if (has_kind(11)) er = lager::cursor<mdl>{root[&R::in]}.zoom(lager::lens<mdl, int>{lager::lenses::attr(&mdl::a)});
    }
    bool temporaries = sym::flip();
    bool has(const R& r) const { return idx >= 0 && idx < (int) r.vec.size(); }
    // writes an lvalue or a temporary
    template <class C, class V>
    void put(C& c, V v)
    {
        if (temporaries)
            c.set(std::move(v));
        else
            c.set(v);
    }
    void write(Root& root, R& m)
    {
        unsigned k = sym::choice(made[0] == made[1] ? 2 : 3);
        switch (k == 0 ? 0 : made[k - 1]) {
        case 0: {
            auto n = any_root();
            put(root, n);
            m = n;
            break;
        }
        case 1: {
            auto v = any_mdl();
            put(in, v);
            m.in = v;
            break;
        }
        case 2: {
            int v = sym::any();
            put(a, v);
            m.in.a = v;
            break;
        }
        case 3: {
            int v = sym::any();
            put(b2, v);
            m.in.b = v;
            break;
        }
        case 4: {
            int v = sym::any();
            put(g, v);
            m.in.a = sym::uf(2, m.in.a, v);
            break;
        }
        case 5: {
            int v = sym::any();
            put(sec, v);
            m.p.second = v;
            break;
        }
        case 6: {
            int v = sym::any();
            put(te, v);
            std::get<0>(m.t) = v;
            break;
        }
        case 7: {
            if (sym::flip()) {
                int v = sym::any();
                put(el, v);
                if (has(m)) {
                    m.vec[idx] = v;
                    sym::reach("present");
                } else
                    sym::reach("absent");
            } else {
                el.set(std::nullopt);
                sym::reach("nothing");
            }
            break;
        }
        case 8: {
            if (sym::flip()) {
                int v = sym::any();
                ob.set(std::optional<int>{v});
                if (m.opt)
                    m.opt->b = v;
            } else
                ob.set(std::optional<int>{});
            break;
        }
        case 9: {
            auto v = any_mdl();
            put(od, v);
            m.opt = v;
            break;
        }
        case 10: {
            int v = sym::any(), w = sym::any();
            fan.set(std::tuple<int, int>{v, w});
            m.in = mdl{w, v};
            break;
        }
        case 11: {
            int v = sym::any();
            put(er, v);
            m.in.a = v;
            break;
        }
        }
    }
    void shows(Root& root, const R& m)
    {
        CHECK(eq(root.get(), m), "the root holds exactly the result of the writes");
        if (has_kind(1)) CHECK(in.get() == m.in, "attribute");
        if (has_kind(2)) CHECK(a.get() == m.in.a, "nested attribute");
        if (has_kind(11)) CHECK(er.get() == m.in.a, "type-erased lens");
        if (has_kind(3)) CHECK(b2.get() == m.in.b, "composed lens");
        if (has_kind(4)) CHECK(g.get() == sym::uf(1, m.in.a, m.in.b), "getter");
        if (has_kind(5)) CHECK(sec.get() == m.p.second, "member of a pair");
        if (has_kind(6)) CHECK(te.get() == std::get<0>(m.t), "element of a tuple");
        if (has_kind(7)) {
            CHECK(el.get().has_value() == has(m), "presence of an index");
            if (has(m))
                CHECK(*el.get() == m.vec[idx], "value at an index");
        }
        if (has_kind(8)) {
            CHECK(ob.get().has_value() == m.opt.has_value(), "presence of an optional member");
            if (m.opt)
                CHECK(*ob.get() == m.opt->b, "value of an optional member");
        }
        if (has_kind(9)) CHECK(od.get() == m.opt.value_or(mdl{0, 0}), "value or default");
        if (has_kind(10)) CHECK((std::get<0>(fan.get()) == m.in.b) & (std::get<1>(fan.get()) == m.in.a), "fan");
    }
};
template <class Tag>
void run()
{
    auto m    = any_root();
    auto root = lager::make_state(m, Tag{});
    cursors<decltype(root)> c{root};
    c.shows(root, m);
    bool each = sym::flip();
    for (int i = 0; i < bound(2, 3); ++i) {
        c.write(root, m);
        if (std::is_same_v<Tag, lager::automatic_tag>)
            c.shows(root, m);
        else if (each)
            lager::commit(root);
    }
    lager::commit(root);
    c.shows(root, m);
    sym::observe(root.get().in.a);
    sym::reach("done");
}
} // namespace
HARNESS(transactional) { run<lager::transactional_tag>(); }
HARNESS(automatic) { run<lager::automatic_tag>(); }
// a lens over the values of two cursors of the same root and of another root
HARNESS(several_parents)
{
    auto m = any_mdl();
    int s  = sym::any();
    auto x = lager::make_state(m, lager::transactional_tag{});
    auto y = lager::make_state(s, lager::transactional_tag{});
    lager::cursor<int> a = x[&mdl::a], b = x[&mdl::b];
    using tr             = std::tuple<int, int, int>;
    lager::cursor<int> k = lager::with(a, b, y).zoom(lager::lenses::getset([](const tr& t) { return sym::uf(3, std::get<0>(t), std::get<1>(t), std::get<2>(t)); },
                                                                          [](tr t, int v) {
                                                                              return tr{sym::uf(4, std::get<0>(t), v), std::get<1>(t), sym::uf(5, std::get<2>(t), v)};
                                                                          }));
    lager::cursor<int> mid = lager::with(a, y).zoom(lager::lenses::second);
    auto go = [&] {
        switch (sym::choice(5)) {
        case 0: {
            int v = sym::any();
            sym::flip() ? k.set(v) : k.set(int{v});
            m.a = sym::uf(4, m.a, v);
            s   = sym::uf(5, s, v);
            break;
        }
        case 1: m.b = sym::any(); b.set(m.b); break;
        case 2: s = sym::any(); y.set(s); break;
        case 3: m = any_mdl(); x.set(m); break;
        case 4: s = sym::any(); mid.set(s); break;
        }
    };
    for (int i = 0; i < bound(3, 4); ++i)
        go();
    lager::commit(x, y);
    CHECK((x.get() == m) & (y.get() == s), "both roots hold the result of the writes");
    CHECK(k.get() == sym::uf(3, m.a, m.b, s), "the lens over several parents");
    CHECK(mid.get() == s, "the element");
    sym::observe(m.a);
    sym::reach("done");
}
// chains of lenses: attribute, getter/setter with arbitrary functions, swap
namespace {
struct pairv
{
    int x, y;
    friend bool operator==(const pairv& a, const pairv& b) { return (a.x == b.x) & (a.y == b.y); }
    friend bool operator!=(const pairv& a, const pairv& b) { return !(a == b); }
};
pairv getf(int k, const pairv& p) { return k == 0 ? pairv{p.y, p.x} : k == 1 ? pairv{sym::uf(1, p.x), p.y} : pairv{p.x, sym::uf(2, p.x, p.y)}; }
pairv setf(int k, pairv p, const pairv& v)
{
    if (k == 0) return pairv{v.y, v.x};
    if (k == 1) return pairv{sym::uf(3, p.x, v.x), v.y};
    return pairv{sym::uf(4, p.y, v.x), sym::uf(5, p.x, v.y)};
}
auto mk(int k)
{
    return lager::lenses::getset([k](const pairv& p) { return getf(k, p); }, [k](pairv p, const pairv& v) { return setf(k, p, v); });
}
} // namespace
HARNESS(deep_chain)
{
    int x = sym::any(), y = sym::any();
    pairv m{x, y};
    auto root = lager::make_state(m, lager::automatic_tag{});
    constexpr int D = 4;
    int k[D];
    lager::cursor<pairv> c[D + 1];
    c[0] = root;
    for (int i = 0; i < D; ++i) {
        k[i]     = sym::choice(3);
        c[i + 1] = c[i].zoom(mk(k[i]));
    }
    bool split = sym::flip();
    lager::cursor<pairv> direct = root.zoom(zug::comp(zug::comp(mk(k[0]), mk(k[1])), zug::comp(mk(k[2]), mk(k[3]))));
    lager::cursor<pairv> expr   = lager::with(root).zoom(mk(k[0])).zoom(mk(k[1])).zoom(mk(k[2])).zoom(mk(k[3]));
    auto ref = [&](int d) {
        pairv p = m;
        for (int i = 0; i < d; ++i)
            p = getf(k[i], p);
        return p;
    };
    int vx = sym::any(), vy = sym::any();
    pairv v{vx, vy};
    int d = 1 + sym::choice(D);
    if (d == D && split)
        (sym::flip() ? direct : expr).set(v);
    else if (sym::flip())
        c[d].set(v);
    else
        c[d].set(pairv{v});
    pairv part = v;
    for (int i = d - 1; i >= 0; --i)
        part = setf(k[i], ref(i), part);
    m = part;
    CHECK(root.get() == m, "setting through a chain of lenses is setting the composed lenses on the root");
    for (int i = 0; i <= D; ++i)
        CHECK(c[i].get() == ref(i), "every cursor of the chain shows its view");
    CHECK((direct.get() == ref(D)) & (expr.get() == ref(D)), "the composed cursors as well");
    sym::observe(m.x);
    sym::reach("done");
}
