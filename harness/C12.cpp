//@ entry: automatic reach=done,equal
//@ entry: transactional reach=done,equal
//@ entry: no_equality reach=done
//@ entry: equalities reach=done,equal
//@ entry: diamond_unchanged reach=done
//@ bounds: 2 (thorough: 3) writes of 8 kinds with arbitrary (equal or different) values; 6 single-path readers, mapping functions arbitrary; commit after every 1 or 2 writes; equalities: types that define only operator==, a partial equality, or containers and optionals of those; diamond_unchanged: a reader of two parts of the root whose combined value does not change
//@ outside: user-defined equality that is not an equivalence
#include "graph.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>

namespace {
void judge(graph& g, const outer& old, const outer& m)
{
    for (auto& p : g.ps) {
        if (!p->single)
            continue;
        if (!p->differs(old, m)) {
            CHECK(p->calls == 0, "writing an equal value notifies nobody");
            sym::reach("equal");
        } else
            CHECK(p->calls >= 1, "writing a different value notifies");
    }
    g.reset();
}
} // namespace
HARNESS(automatic)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::automatic_tag{});
    graph g;
    g.build_single(root);
    for (int i = 0; i < bound(2, 3); ++i) {
        auto old = m;
        g.write(root, m);
        judge(g, old, m);
    }
    sym::observe(root.get().c);
    sym::reach("done");
}
HARNESS(transactional)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::transactional_tag{});
    graph g;
    g.build_single(root);
    auto old = m;
    for (int i = 0; i < bound(2, 3); ++i) {
        g.write(root, m);
        if (sym::flip()) {
            lager::commit(root);
            judge(g, old, m);
            old = m;
        }
    }
    lager::commit(root);
    judge(g, old, m);
    sym::observe(root.get().c);
    sym::reach("done");
}
// a value without equality always counts as changed
namespace {
struct opaque { int v; };
struct holder { opaque o; int k; };
} // namespace
HARNESS(no_equality)
{
    holder h{{sym::any()}, sym::any()};
    bool autom = sym::flip();
    auto go    = [&](auto root) {
        lager::cursor<opaque> o = root[&holder::o];
        lager::cursor<int> k    = root[&holder::k];
        int nr = 0, no = 0, nk = 0;
        lager::watch(root, [&](auto&&) { nr++; });
        lager::watch(o, [&](auto&&) { no++; });
        lager::watch(k, [&](auto&&) { nk++; });
        for (int i = 1; i <= 2; ++i) {
            int old = h.k;
            if (sym::flip()) {
                h.o.v = sym::any();
                o.set(opaque{h.o.v});
            } else {
                h.k = sym::any();
                k.set(h.k);
            }
            nk = 0;
            if (!autom)
                lager::commit(root);
            CHECK((nr >= i) & (no >= i), "a value without equality is treated as changed");
            if (!autom)
                CHECK(nk == (h.k != old ? 1 : 0), "one with equality is not");
            CHECK((o.get().v == h.o.v) & (k.get() == h.k), "values");
        }
    };
    if (autom)
        go(lager::make_state(h, lager::automatic_tag{}));
    else
        go(lager::make_state(h, lager::transactional_tag{}));
    sym::reach("done");
}
// the equality of the type decides, whatever else it defines
namespace c12 {
struct only_eq { int x, y; bool operator==(const only_eq& o) const { return (x == o.x) & (y == o.y); } };
struct partial { int x, ignored; bool operator==(const partial& o) const { return x == o.x; } bool operator!=(const partial& o) const { return !(*this == o); } };
struct free_eq { int x; };
inline bool operator==(const free_eq& a, const free_eq& b) { return a.x == b.x; }
template <class T> T make(int x, int y)
{
    if constexpr (std::is_same_v<T, free_eq>) return T{x};
    else if constexpr (std::is_same_v<T, std::optional<only_eq>>) return T{only_eq{x, y}};
    else if constexpr (std::is_same_v<T, std::vector<only_eq>>) return T{only_eq{x, y}};
    else return T{x, y};
}
template <class T> void go()
{
    int x = sym::any(), y = sym::any(), u = sym::any(), v = sym::any();
    bool autom = sym::flip();
    auto judge = [&](auto root) {
        int nr = 0, nm = 0, nc = 0;
        lager::reader<T> id = root.map([](const T& t) { return t; });
        lager::cursor<T> cu = root.zoom(lager::lenses::getset([](const T& t) { return t; }, [](const T&, const T& n) { return n; }));
        lager::watch(root, [&](auto&&) { nr++; });
        lager::watch(id, [&](auto&&) { nm++; });
        lager::watch(cu, [&](auto&&) { nc++; });
        if (sym::flip())
            cu.set(make<T>(u, v));
        else
            root.set(make<T>(u, v));
        if (!autom)
            lager::commit(root);
        bool same = make<T>(x, y) == make<T>(u, v);
        if (same)
            sym::reach("equal");
        CHECK((nr == !same) & (nm == !same) & (nc == !same), "watchers are called if and only if the values are not equal");
        CHECK(root.get() == make<T>(u, v), "the value");
    };
    if (autom)
        judge(lager::make_state(make<T>(x, y), lager::automatic_tag{}));
    else
        judge(lager::make_state(make<T>(x, y), lager::transactional_tag{}));
}
} // namespace c12
HARNESS(equalities)
{
    switch (sym::choice(5)) {
    case 0: c12::go<c12::only_eq>(); break;
    case 1: c12::go<c12::partial>(); break;
    case 2: c12::go<c12::free_eq>(); break;
    case 3: c12::go<std::optional<c12::only_eq>>(); break;
    case 4: c12::go<std::vector<c12::only_eq>>(); break;
    }
    sym::reach("done");
}
// a reader of two parts of the root, both of which change, whose own value does not
HARNESS(diamond_unchanged)
{
    auto m    = any_mdl();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::reader<int> a = root[&mdl::a], b = root[&mdl::b];
    lager::reader<int> h = lager::with(a, b).map([](int x, int y) { return sym::uf(1, x, y); });
    int calls = 0;
    lager::watch(h, [&](int) { calls++; });
    auto n = any_mdl();
    root.set(n);
    lager::commit(root);
    sym::observe(h.get());
    sym::reach("done");
    if (sym::uf(1, m.a, m.b) == sym::uf(1, n.a, n.b))
        CHECK(calls == 0, "a reader with several dependency paths whose value is unchanged stays quiet");
}
