//@ entry: one_root reach=done,watched
//@ entry: any_shape reach=done,watched
//@ entry: store_and_state reach=done,watched
//@ entry: filter_below_merge reach=done
//@ bounds: one_root: 2 writes (8 kinds, arbitrary values), commit, again (thorough: 3 writes); any_shape: every dependency graph of 2 transactional roots and 3 (4) derived readers, both roots written and committed together, in two rounds; mapping functions arbitrary
//@ outside: graphs with more derived readers; mapping functions with side effects
#include "dag.hpp"
#include "graph.hpp"
#include <lager/event_loop/queue.hpp>
#include <lager/store.hpp>

HARNESS(one_root)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::transactional_tag{});
    graph g;
    g.build_single(root);
    g.build_multi(root);
    for (auto& p : g.ps)
        p->hook = [&](probe_base& me) {
            g.shows(m);
            me.arg_is(m);
            sym::reach("watched");
        };
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < (k == 1 ? 1 : bound(1, 2)); ++i)
            g.write(root, m);
        lager::commit(root);
        g.shows(m);
    }
    sym::observe(root.get().c);
    sym::reach("done");
}
HARNESS(any_shape)
{
    int v[dag::MAX];
    v[0] = sym::any();
    v[1] = sym::any();
    auto x = lager::make_state(v[0], lager::transactional_tag{});
    auto y = lager::make_state(v[1], lager::transactional_tag{});
    dag d;
    d.root(x);
    d.root(y);
    for (int i = 0; i < bound(3, 4); ++i)
        d.grow();
    d.watch_all();
    d.eval(v);
    d.shows(v);
    d.hook = [&](int i) {
        d.shows(v);
        sym::reach("watched");
    };
    for (int k = 0; k < 2; ++k) {
        if (k == 0 || sym::flip()) {
            v[0] = sym::any();
            x.set(v[0]);
        }
        if (k == 0 || sym::flip()) {
            v[1] = sym::any();
            y.set(v[1]);
        }
        d.eval(v);
        if (k == 0 || sym::flip())
            lager::commit(x, y);
        else
            lager::commit(y, x);
        d.shows(v);
    }
    sym::observe(v[d.n - 1]);
    sym::reach("done");
}
// a transactional store committed together with a state
HARNESS(store_and_state)
{
    int m = sym::any(), s = sym::any();
    lager::queue_event_loop q;
    auto store = lager::make_store<int, lager::transactional_tag>(int{m}, lager::with_queue_event_loop{q}, lager::with_reducer([](int a, int b) { return sym::uf(1, a, b); }));
    auto st    = lager::make_state(s, lager::transactional_tag{});
    lager::reader<int> r = store;
    lager::reader<int> h = lager::with(r, lager::reader<int>{st}).map([](int a, int b) { return sym::uf(2, a, b); });
    lager::reader<int> j = lager::with(h, r).map([](int a, int b) { return sym::uf(3, a, b); });
    auto shows = [&] {
        CHECK(r.get() == m, "store reader");
        CHECK(st.get() == s, "state");
        CHECK(h.get() == sym::uf(2, m, s), "reader of both");
        CHECK(j.get() == sym::uf(3, sym::uf(2, m, s), m), "reader of reader of both");
        sym::reach("watched");
    };
    lager::watch(r, [&](int v) { CHECK(v == m, "argument"); shows(); });
    lager::watch(st, [&](int v) { CHECK(v == s, "argument"); shows(); });
    lager::watch(h, [&](int v) { CHECK(v == sym::uf(2, m, s), "argument"); shows(); });
    lager::watch(j, [&](int v) { CHECK(v == sym::uf(3, sym::uf(2, m, s), m), "argument"); shows(); });
    for (int k = 0; k < bound(2, 3); ++k) {
        if (sym::flip()) {
            int a = sym::any();
            store.dispatch(a);
            q.step();
            m = sym::uf(1, m, a);
        }
        if (sym::flip()) {
            s = sym::any();
            st.set(s);
        }
        lager::commit(st, store);
        shows();
    }
    sym::observe(m);
    sym::reach("done");
}
// a filter below a merge keeps the last consistent pair that satisfied the predicate
HARNESS(filter_below_merge)
{
    auto m    = any_mdl();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::reader<int> a = root[&mdl::a], b = root[&mdl::b];
    auto ok = [](int x, int y) { return sym::up(7, x, y); };
    sym::assume(ok(m.a, m.b));
    lager::reader<pr> f = lager::with(a, b).filter([&](int x, int y) { return ok(x, y); }).map([](int x, int y) { return pr{x, y}; });
    CHECK(same(f.get(), pr{m.a, m.b}), "initial value of the filter");
    auto n = any_mdl();
    root.set(n);
    lager::commit(root);
    sym::observe(ok(n.a, n.b));
    sym::reach("done");
    CHECK(same(f.get(), ok(n.a, n.b) ? pr{n.a, n.b} : pr{m.a, m.b}), "a filter below a merge never shows a combination of old and new values");
}
