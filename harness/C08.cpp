//@ entry: state_single reach=done,pending,committed
//@ entry: state_multi reach=done,pending,committed
//@ entry: store_dispatch reach=done,pending,committed
//@ entry: bind_pending reach=done
//@ entry: pending_elsewhere reach=done
//@ bounds: 3 (thorough: 4) operations (2, 3 on the graph with several paths), each one of 8 kinds of write (whole, nested attribute, leaf, writer, update on root and on a derived cursor, merged pair) with arbitrary values, or a commit; 9 readers (attributes, maps, merges, diamonds) over a two-level model, mapping functions arbitrary (uninterpreted)
//@ outside: models of other shapes; readers created between a write and the commit show the written value already
#include "graph.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/store.hpp>

namespace {
void run(bool multi)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::transactional_tag{});
    graph g;
    g.build_single(root);
    if (multi)
        g.build_multi(root);
    g.shows(m);
    outer pub = m;
    for (int i = 0; i < (multi ? bound(2, 3) : bound(3, 4)); ++i) {
        if (i > 0 && sym::flip()) {
            lager::commit(root);
            pub = m;
            g.shows(pub);
            g.reset();
            sym::reach("committed");
        } else {
            g.write(root, m);
            g.shows(pub);
            g.quiet("no watcher is called before commit");
            sym::reach("pending");
        }
    }
    lager::commit(root);
    g.shows(m);
    sym::observe(root.get().c);
    sym::reach("done");
}
} // namespace
HARNESS(state_single) { run(false); }
HARNESS(state_multi) { run(true); }
HARNESS(store_dispatch)
{
    auto m = any_outer();
    lager::queue_event_loop q;
    struct act { int k, v; };
    auto red = [](outer o, act a) {
        if (a.k == 0) o.in.a = sym::uf(10, o.in.a, a.v);
        else if (a.k == 1) o.c = a.v;
        else o = outer{{a.v, o.in.a}, sym::uf(11, o.c)};
        return o;
    };
    auto store = lager::make_store<act, lager::transactional_tag>(outer{m}, lager::with_queue_event_loop{q}, lager::with_reducer(red));
    std::vector<int> dummy;
    lager::reader<outer> r = store;
    lager::reader<mdl> in  = store[&outer::in];
    lager::reader<int> a   = in[&mdl::a];
    lager::reader<int> h   = lager::with(a, lager::reader<int>{store[&outer::c]}).map([](int x, int y) { return sym::uf(3, x, y); });
    int calls = 0;
    lager::watch(r, [&](auto&&) { calls++; });
    lager::watch(in, [&](auto&&) { calls++; });
    lager::watch(a, [&](auto&&) { calls++; });
    lager::watch(h, [&](auto&&) { calls++; });
    auto shows = [&](const outer& o) {
        CHECK(r.get() == o, "store value");
        CHECK(in.get() == o.in, "inner value");
        CHECK(a.get() == o.in.a, "leaf value");
        CHECK(h.get() == sym::uf(3, o.in.a, o.c), "mapped value");
    };
    outer pub = m;
    bool stepped = true;
    outer nxt = m;
    for (int i = 0; i < bound(4, 6); ++i) {
        switch (sym::choice(3)) {
        case 0: {
            act x{(int) sym::choice(3), sym::any()};
            store.dispatch(x);
            nxt     = red(nxt, x);
            stepped = false;
            shows(pub);
            CHECK(calls == 0, "no watcher is called before commit");
            sym::reach("pending");
            break;
        }
        case 1:
            q.step();
            m = nxt;
            shows(pub);
            CHECK(calls == 0, "no watcher is called before commit");
            break;
        case 2:
            lager::commit(store);
            pub = m;
            shows(pub);
            calls = 0;
            sym::reach("committed");
            break;
        }
    }
    q.step();
    shows(pub);
    lager::commit(store);
    shows(nxt);
    sym::observe(r.get().c);
    sym::reach("done");
}
// asking to be told right away tells what is visible, not what has been written
HARNESS(bind_pending)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::cursor<mdl> in = root[&outer::in];
    lager::cursor<int> a  = in[&mdl::a];
    lager::reader<outer> r = root;
    lager::reader<int> ra  = a;
    a.set(sym::any());
    if (sym::flip())
        in.update([](mdl x) { x.b = sym::uf(1, x.b); return x; });
    int n     = 0;
    auto is   = [&](auto& x, auto v) {
        using T = std::decay_t<decltype(v)>;
        int n0  = n;
        if (sym::flip()) {
            x.bind([&, v](const T& w) { ++n; CHECK(same(v, w), "bind tells what is visible"); });
        } else {
            x.watch([&, v](const T& w) { ++n; CHECK(same(v, w), "nudge tells what is visible"); });
            CHECK(n == n0, "watching tells nothing");
            x.nudge();
        }
        CHECK(n == n0 + 1, "once");
        CHECK(same(x.get(), v), "which is what it shows");
    };
    switch (sym::choice(5)) {
    case 0: is(root, m); break;
    case 1: is(r, m); break;
    case 2: is(in, m.in); break;
    case 3: is(a, m.in.a); break;
    case 4: is(ra, m.in.a); break;
    }
    sym::reach("done");
}
// a write to one root stays invisible while another root is committed (see known_findings.txt for merges of both)
HARNESS(pending_elsewhere)
{
    int x = sym::any(), y = sym::any(), px = x;
    auto s = lager::make_state(x, lager::transactional_tag{});
    auto t = lager::make_state(y, lager::transactional_tag{});
    lager::reader<int> fs = s.map([](int v) { return sym::uf(1, v); });
    lager::reader<int> m  = lager::with(s, t).map([](int u, int v) { return sym::uf(2, u, v); });
    int n = 0;
    s.watch([&](int) { ++n; });
    fs.watch([&](int) { ++n; });
    x = sym::any();
    s.set(x);
    y = sym::any();
    t.set(y);
    lager::commit(t);
    CHECK((s.get() == px) & (fs.get() == sym::uf(1, px)) & (t.get() == y), "committing another root does not publish a pending write through the readers of its own root");
    CHECK(n == 0, "nor notify them");
    sym::reach("done");
    CHECK(m.get() == sym::uf(2, px, y), "committing another root does not publish a pending write through a merge of both");
}
