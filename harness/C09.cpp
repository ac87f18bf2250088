//@ entry: state_single reach=done,watched
//@ entry: state_multi reach=done,watched
//@ entry: store_dispatch reach=done,watched
//@ entry: any_shape reach=done
//@ bounds: 2 (thorough: 3) writes, each one of 8 kinds (whole, nested attribute, leaf, writer, update on root and derived cursor, merged pair), with arbitrary values; 9 readers over a two-level model; any_shape: every dependency graph of 2 roots and 2 (3) derived readers, 2 (3) writes; mapping functions arbitrary
//@ outside: a write of n components through a merged cursor is n writes: the intermediate roots are accepted as visible inside watchers
#include "dag.hpp"
#include "graph.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>

namespace {
void run(bool multi)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::automatic_tag{});
    graph g;
    g.build_single(root);
    if (multi)
        g.build_multi(root);
    for (auto& p : g.ps)
        p->hook = [&](probe_base&) {
            g.shows(root.get());
            sym::reach("watched");
        };
    g.shows(m);
    for (int i = 0; i < (multi ? bound(2, 3) : bound(2, 4)); ++i) {
        auto old = m;
        g.reset();
        g.write(root, m);
        g.shows(m);
        for (auto& p : g.ps)
            if (p->differs(old, m)) {
                CHECK(p->calls >= 1, "the watcher of a changed reader was called by the time the write returned");
                p->arg_is(m);
            }
    }
    sym::observe(root.get().c);
    sym::reach("done");
}
} // namespace
HARNESS(state_single) { run(false); }
HARNESS(state_multi) { run(true); }
HARNESS(store_dispatch)
{
    auto m = any_outer();
    struct act { int k, v; };
    auto red = [](outer o, act a) {
        if (a.k == 0) o.in.a = sym::uf(10, o.in.a, a.v);
        else if (a.k == 1) o.c = a.v;
        else o = outer{{a.v, o.in.a}, sym::uf(11, o.c)};
        return o;
    };
    auto store = lager::make_store<act>(outer{m}, lager::with_manual_event_loop{}, lager::with_reducer(red));
    lager::reader<outer> r = store;
    lager::reader<mdl> in  = store[&outer::in];
    lager::reader<int> a   = in[&mdl::a];
    lager::reader<int> h   = lager::with(a, lager::reader<int>{store[&outer::c]}).map([](int x, int y) { return sym::uf(3, x, y); });
    auto shows = [&](const outer& o) {
        CHECK(r.get() == o, "store value");
        CHECK(store.get() == o, "store value");
        CHECK(in.get() == o.in, "inner value");
        CHECK(a.get() == o.in.a, "leaf value");
        CHECK(h.get() == sym::uf(3, o.in.a, o.c), "mapped value");
    };
    int ncalls[4] = {};
    outer cur = m;
    auto chk = [&](int i) {
        ncalls[i]++;
        shows(cur);
        sym::reach("watched");
    };
    lager::watch(r, [&](auto&&) { chk(0); });
    lager::watch(in, [&](auto&&) { chk(1); });
    lager::watch(a, [&](auto&&) { chk(2); });
    lager::watch(h, [&](auto&&) { chk(3); });
    for (int i = 0; i < bound(3, 4); ++i) {
        act x{(int) sym::choice(3), sym::any()};
        auto old = m;
        m   = red(m, x);
        cur = m;
        for (auto& c : ncalls) c = 0;
        store.dispatch(x);
        shows(m);
        CHECK(ncalls[0] == (m == old ? 0 : 1), "watchers of the store");
        CHECK(ncalls[1] == (m.in == old.in ? 0 : 1), "watchers of an attribute");
        CHECK(ncalls[2] == (m.in.a == old.in.a ? 0 : 1), "watchers of a leaf");
        if (sym::uf(3, m.in.a, m.c) != sym::uf(3, old.in.a, old.c))
            CHECK(ncalls[3] == 1, "watchers of a mapped reader");
    }
    sym::observe(r.get().c);
    sym::reach("done");
}
HARNESS(any_shape)
{
    int v[dag::MAX];
    v[0] = sym::any();
    v[1] = sym::any();
    auto x = lager::make_state(v[0], lager::automatic_tag{});
    auto y = lager::make_state(v[1], lager::automatic_tag{});
    dag d;
    d.root(x);
    d.root(y);
    for (int i = 0; i < bound(2, 3); ++i)
        d.grow();
    d.watch_all();
    d.eval(v);
    d.shows(v);
    int cur[dag::MAX];
    d.hook = [&](int i) { d.shows(cur); };
    for (int k = 0; k < bound(2, 3); ++k) {
        for (int i = 0; i < d.n; ++i) cur[i] = v[i];
        bool second = sym::flip();
        int nv      = sym::any();
        cur[second] = nv;
        d.eval(cur);
        d.reset();
        if (second) y.set(nv); else x.set(nv);
        d.shows(cur);
        for (int i = 0; i < d.n; ++i) {
            if (cur[i] != v[i])
                CHECK((d.calls[i] == 1) & (d.arg[i] == cur[i]), "a changed reader notifies exactly once");
            v[i] = cur[i];
        }
    }
    sym::observe(x.get());
    sym::reach("done");
}
