//@ entry: writes reach=done,nested
//@ entry: writes_auto reach=done,nested
//@ entry: shapes reach=done,nested
//@ entry: links reach=done,linked,dropped
//@ entry: reverts reach=done,reverted
//@ entry: other_root reach=done,nested
//@ entry: store_dispatch reach=done,nested
//@ bounds: writes: the readers of C11 (6 on single paths, thorough: also those with several paths), one first write of 8 kinds with arbitrary values, then one (thorough: two) of the watchers, any, writes once (twice) with arbitrary values through an arbitrary handle, without or with (transactional) a nested commit; shapes: every dependency graph of a root and 3 (thorough: 4) derived readers, with or without the remains of destroyed readers in between, any watcher writing the root, committing or not; links: a root with any number up to 4 (thorough: 6) of readers of which any have been destroyed, a watcher of any of the rest destroying any other and making 1 to 3 new ones while it is notified, and committing up to two further changes; reverts: a watcher that writes twice, in the end possibly the value that was there, and commits; two roots writing each other; mapping functions arbitrary
//@ outside: watchers that keep writing forever
#include "dag.hpp"
#include "graph.hpp"
#include <lager/store.hpp>
#include <optional>
#include <lager/event_loop/manual.hpp>

namespace {
// every reader shows the values, and the last call of every watcher received them
void settled(graph& g, const outer& before, const outer& m)
{
    g.shows(m);
    for (auto& p : g.ps) {
        if (p->calls)
            p->arg_is(m);
        else
            CHECK(!p->differs(before, m), "a reader whose value changed calls its watchers");
    }
}
template <class Tag>
void writes_t()
{
    constexpr bool automatic = std::is_same_v<Tag, lager::automatic_tag>;
    auto m    = any_outer();
    auto root = lager::make_state(m, Tag{});
    graph g;
    g.build_single(root);
    if (bound(0, 1) && sym::flip())
        g.build_multi(root);
    auto before = m;
    outer pub;      // the last committed value
    int budget = bound(1, 2), total = 0;
    int who = sym::choice(g.ps.size());
    auto hook = [&](probe_base&) {
        ++total;
        CHECK(total < 200, "nothing recurses without a write");
        if (budget > 0) {
            --budget;
            sym::reach("nested");
            int n = 1 + sym::choice(2);
            // a second write goes through the same kinds of handles
            for (int i = 0; i < n; ++i) {
                if (i == 0) {
                    switch (sym::choice(3)) {
                    case 0: { int v = sym::any(); g.a.set(v); m.in.a = v; break; }
                    case 1: { int v = sym::any(); g.c.set(v); m.c = v; break; }
                    case 2: { auto v = any_outer(); root.set(v); m = v; break; }
                    }
                } else {
                    switch (sym::choice(2)) {
                    case 0: { int v = sym::any(); g.a.set(v); m.in.a = v; break; }
                    case 1: { int v = sym::any(); g.b.set(v); m.in.b = v; break; }
                    }
                }
            }
            if constexpr (!automatic)
                if (sym::flip()) {
                    lager::commit(root);
                    pub = m;
                    g.shows(m);
                }
        }
    };
    g.ps[who]->hook = hook;
    if (bound(0, 1))
        g.ps[(who + 1) % g.ps.size()]->hook = hook;
    switch (sym::choice(3)) {
    case 0: { auto v = any_outer(); m = v; pub = m; root.set(v); break; }
    case 1: { int v = sym::any(); m.in.a = v; pub = m; g.a.set(v); break; }
    case 2: { int v = sym::any(); m.c = v; pub = m; g.c.set(v); break; }
    }
    if constexpr (automatic) {
        settled(g, before, m);
    } else {
        pub = m;
        lager::commit(root);
        settled(g, before, pub);
        // what is still pending is published by the next commit
        g.reset();
        before = pub;
        budget = 0;
        lager::commit(root);
        settled(g, before, m);
        for (auto& p : g.ps)
            if (p->single)
                CHECK(p->calls == (p->differs(before, m) ? 1 : 0), "and notified exactly once");
    }
    sym::observe(total);
    sym::reach("done");
}
} // namespace
HARNESS(writes) { writes_t<lager::transactional_tag>(); }
HARNESS(writes_auto) { writes_t<lager::automatic_tag>(); }
HARNESS(shapes)
{
    int v[dag::MAX], before[dag::MAX];
    v[0]   = sym::any();
    auto s = lager::make_state(v[0], lager::transactional_tag{});
    dag d;
    d.root(s);
    bool ghosts = sym::flip();
    for (int i = 0; i < bound(3, 4); ++i) {
        if (ghosts)
            d.ghosts();
        d.grow();
    }
    d.watch_all();
    d.eval(v);
    for (int i = 0; i < d.n; ++i)
        before[i] = v[i];
    int who = sym::choice(d.n), budget = bound(1, 2), total = 0;
    int pub = 0;
    d.hook = [&](int i) {
        CHECK(++total < 200, "nothing recurses without a write");
        if (i == who && budget > 0) {
            --budget;
            sym::reach("nested");
            v[0] = sym::any();
            s.set(v[0]);
            if (sym::flip()) {
                pub = v[0];
                lager::commit(s);
            }
        }
    };
    v[0] = sym::any();
    pub  = v[0];
    s.set(v[0]);
    lager::commit(s);
    int last = v[0];
    v[0]     = pub;
    d.eval(v);
    d.shows(v);
    for (int i = 0; i < d.n; ++i)
        if (d.calls[i])
            CHECK(d.arg[i] == v[i], "every watcher's last call received its reader's final value");
        else
            CHECK(v[i] == before[i], "a reader whose value changed calls its watchers");
    d.reset();
    budget = 0;
    lager::commit(s);
    for (int i = 0; i < d.n; ++i)
        before[i] = v[i];
    v[0] = last;
    d.eval(v);
    d.shows(v);
    for (int i = 0; i < d.n; ++i) {
        if (d.calls[i])
            CHECK(d.arg[i] == v[i], "every watcher's last call received its reader's final value");
        else
            CHECK(v[i] == before[i], "a reader whose value changed calls its watchers");
        CHECK(d.calls[i] <= 1, "once");
    }
    sym::reach("done");
}
// a watcher makes and destroys other readers of the value it is told about
HARNESS(links)
{
    constexpr int N = 6;
    int v  = sym::any();
    auto s = lager::make_state(v, lager::transactional_tag{});
    std::optional<lager::reader<int>> r[N], late[3];
    int calls[N] = {}, arg[N] = {};
    bool alive[N] = {};
    int n = 1 + sym::choice(bound(4, N));
    for (int i = 0; i < n; ++i) {
        r[i].emplace(s.map([i](int x) { return x + i; }));
        alive[i] = true;
    }
    for (int i = 0; i < n; ++i)
        if (sym::flip()) {
            r[i].reset();
            alive[i] = false;
        }
    int who = sym::choice(n), drop = sym::choice(n + 1), make = 1 + sym::choice(3), nest = sym::choice(3);
    sym::assume(alive[who]);
    sym::assume(drop == n || (alive[drop] && drop != who));
    int dropped_at = -1, order = 0;
    for (int i = 0; i < n; ++i)
        if (alive[i])
            r[i]->watch([&, i](int x) {
                CHECK(alive[i], "a destroyed watcher is not called");
                ++calls[i];
                arg[i] = x;
                ++order;
                if (i != who || late[0])
                    return;
                if (drop < n) {
                    r[drop].reset();
                    alive[drop] = false;
                    dropped_at  = order;
                    sym::reach("dropped");
                }
                for (int k = 0; k < make; ++k) {
                    late[k].emplace(s.map([k](int x) { return x - k; }));
                    CHECK(late[k]->get() == v - k, "a reader made while notifying shows the new value");
                }
                sym::reach("linked");
                // and commits further changes
                for (int k = 0; k < nest; ++k) {
                    int w = sym::any();
                    sym::assume(w != v);
                    v = w;
                    s.set(v);
                    lager::commit(s);
                    for (int j = 0; j < n; ++j)
                        if (alive[j])
                            CHECK(arg[j] == v + j, "every watcher is told about a change made by a watcher");
                }
            });
    (void) dropped_at;
    for (int round = 0; round < 2; ++round) {
        int w = sym::any();
        sym::assume(w != v);
        v = w;
        for (auto& c : calls)
            c = 0;
        s.set(v);
        lager::commit(s);
        for (int i = 0; i < n; ++i)
            if (alive[i])
                CHECK(calls[i] >= 1 && calls[i] <= 1 + (round == 0 ? nest : 0) && arg[i] == v + i && r[i]->get() == v + i, "every watcher that is kept is called once with each value, in the end with the final one");
        for (int k = 0; k < 3; ++k)
            if (late[k])
                CHECK(late[k]->get() == v - k, "and readers made meanwhile show the value");
    }
    sym::reach("done");
}
// a watcher writes a value and then the previous or another one before it commits
HARNESS(reverts)
{
    int v  = sym::any(), v0 = v;
    auto s = lager::make_state(v, lager::transactional_tag{});
    lager::cursor<int> c = s;
    lager::reader<int> f = s.map([](int x) { return x ^ 1; });
    int calls[3] = {}, arg[3] = {}, who = sym::choice(3), again = 0;
    auto hook    = [&](int i, int x) {
        CHECK(++calls[i] < 8, "nothing recurses without a write");
        arg[i] = x;
        if (i != who || again)
            return;
        int w1 = sym::any(), w2 = sym::any();
        c.set(w1);
        c.set(w2);
        again = 1 + (w2 != v);
        v     = w2;
        lager::commit(s);
    };
    s.watch([&](int x) { hook(0, x); });
    c.watch([&](int x) { hook(1, x); });
    f.watch([&](int x) { hook(2, x); });
    v = sym::any();
    sym::assume(v != v0);
    s.set(v);
    lager::commit(s);
    CHECK((s.get() == v) & (c.get() == v) & (f.get() == (v ^ 1)), "all show what was written last");
    for (int i = 0; i < 3; ++i)
        CHECK(calls[i] >= 1 && calls[i] <= again && arg[i] == (i == 2 ? v ^ 1 : v), "every watcher is called once with each value, in the end with the final one");
    if (again == 1)
        sym::reach("reverted");
    sym::reach("done");
}
// a watcher of one root writes another, and the other way round
HARNESS(other_root)
{
    bool ta = sym::flip();
    int x = sym::any(), y = sym::any();
    auto s = lager::make_state(x, lager::automatic_tag{});
    auto t = lager::make_state(y, lager::transactional_tag{});
    lager::reader<int> fs = s.map([](int v) { return sym::uf(1, v); });
    lager::reader<int> h  = lager::with(s, t).map([](int a, int b) { return sym::uf(2, a, b); });
    int budget = 2, hn = 0, harg = 0, fn = 0, farg = 0, total = 0;
    int x0 = x, y0 = y, ty = y;
    h.watch([&](int v) { ++hn; harg = v; CHECK(v == h.get(), "argument"); });
    fs.watch([&](int v) {
        ++fn;
        farg = v;
        CHECK(++total < 100, "nothing recurses without a write");
        if (budget > 0) {
            --budget;
            sym::reach("nested");
            y = sym::any();
            t.set(y);
            if (sym::flip()) {
                ty = y;
                lager::commit(t);
            }
        }
    });
    t.watch([&](int) {
        CHECK(++total < 100, "nothing recurses without a write");
        if (budget > 0) {
            --budget;
            x = sym::any();
            s.set(x);
        }
    });
    if (ta) {
        x = sym::any();
        s.set(x);
    } else {
        y = sym::any();
        ty = y;
        t.set(y);
        lager::commit(t);
    }
    CHECK((s.get() == x) & (t.get() == ty), "the roots show what was published last");
    CHECK(fs.get() == sym::uf(1, x), "map");
    CHECK(h.get() == sym::uf(2, x, ty), "merge");
    if (hn)
        CHECK(harg == sym::uf(2, x, ty), "every watcher's last call received its reader's final value");
    else
        CHECK(sym::uf(2, x, ty) == sym::uf(2, x0, y0), "a reader whose value changed calls its watchers");
    if (fn)
        CHECK(farg == sym::uf(1, x), "every watcher's last call received its reader's final value");
    else
        CHECK(sym::uf(1, x) == sym::uf(1, x0), "a reader whose value changed calls its watchers");
    sym::reach("done");
}
// dispatching to a store from inside a watcher
HARNESS(store_dispatch)
{
    int cur = sym::any(), last = 0, calls = 0, budget = 2, seen = 0;
    auto loop  = lager::with_manual_event_loop{};
    auto store = lager::make_store<int>(cur, loop, lager::with_reducer([](int m, int a) { return sym::uf(1, m, a); }));
    lager::reader<int> r = store.map([](int m) { return sym::uf(2, m); });
    r.watch([&](int v) { seen = v; });
    store.watch([&](int v) {
        ++calls;
        last = v;
        CHECK(calls < 50, "nothing recurses without a write");
        if (budget > 0) {
            --budget;
            sym::reach("nested");
            int a = sym::any();
            cur = sym::uf(1, cur, a);
            store.dispatch(a);
        }
    });
    int m0 = cur;
    int a  = sym::any();
    cur    = sym::uf(1, cur, a);
    store.dispatch(a);
    CHECK(store.get() == cur, "the actions dispatched from a watcher are applied, in order, before the outermost dispatch returns");
    CHECK(r.get() == sym::uf(2, cur), "and published");
    if (calls)
        CHECK(last == cur, "every watcher's last call received its reader's final value");
    else
        CHECK(cur == m0, "a reader whose value changed calls its watchers");
    (void) seen;
    sym::reach("done");
}
