//@ entry: state reach=done,changed,unchanged
//@ entry: any_shape reach=done
//@ entry: shared_commit reach=done
//@ entry: many reach=done
//@ bounds: 2 rounds of 1 write (thorough: 2 and 1), or 1 round of 2 (3), each of 8 kinds with arbitrary values, each followed by a commit; 9 readers, mapping functions arbitrary; any_shape: every dependency graph of 2 roots and 3 (4) derived readers, two rounds; 20 watchers on one reader and 20 readers derived from one root, and a chain of 12 mappings
//@ outside: whether a reader with several dependency paths whose value is unchanged stays quiet (see C12)
#include "dag.hpp"
#include "graph.hpp"

HARNESS(state)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::transactional_tag{});
    graph g;
    g.build_single(root);
    int mode = sym::choice(3); // single paths, 1+1 writes; single paths, 2 writes; several paths
    if (mode == 2)
        g.build_multi(root);
    for (int k = 0; k < (mode == 1 ? 1 : 2); ++k) {
        auto old = m;
        int n    = mode == 1 ? bound(2, 3) : k ? 1 : bound(1, 2);
        for (int i = 0; i < n; ++i)
            g.write(root, m);
        g.quiet("no watcher before commit");
        lager::commit(root);
        for (auto& p : g.ps) {
            bool diff = p->differs(old, m);
            if (p->single)
                CHECK(p->calls == (diff ? 1 : 0), "a watcher is called exactly once if the published value changed, and not otherwise");
            else
                CHECK((p->calls == 1) | !diff, "a reader with several paths reports a change exactly once");
            if (diff) {
                p->arg_is(m);
                sym::reach("changed");
            } else
                sym::reach("unchanged");
        }
        g.reset();
        lager::commit(root);
        g.quiet("a commit without changes notifies nobody");
    }
    sym::observe(root.get().c);
    sym::reach("done");
}
HARNESS(any_shape)
{
    int v[dag::MAX], o[dag::MAX];
    v[0] = sym::any();
    v[1] = sym::any();
    auto x = lager::make_state(v[0], lager::transactional_tag{});
    auto y = lager::make_state(v[1], lager::transactional_tag{});
    dag d;
    d.root(x);
    d.root(y);
    for (int i = 0; i < bound(3, 4); ++i)
        d.grow();
    d.watch_all();
    d.eval(v);
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < d.n; ++i)
            o[i] = v[i];
        if (k == 0 || sym::flip()) {
            v[0] = sym::any();
            x.set(v[0]);
        }
        if (k == 1 || sym::flip()) {
            v[1] = sym::any();
            y.set(v[1]);
        }
        d.eval(v);
        lager::commit(x, y);
        for (int i = 0; i < d.n; ++i) {
            if (d.paths[i] == 1)
                CHECK(d.calls[i] == (v[i] != o[i] ? 1 : 0), "a watcher is called exactly once if the published value changed, and not otherwise");
            else
                CHECK((d.calls[i] == 1) | (v[i] == o[i]), "a reader with several paths reports a change exactly once");
            CHECK((d.arg[i] == v[i]) | (v[i] == o[i]), "with the new value");
        }
        d.reset();
        lager::commit(x, y);
        for (int i = 0; i < d.n; ++i)
            CHECK(d.calls[i] == 0, "a commit without changes notifies nobody");
    }
    sym::observe(v[d.n - 1]);
    sym::reach("done");
}
// several watchers on the same object, on copies and on different readers of the same source
HARNESS(shared_commit)
{
    int m     = sym::any();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::reader<int> r1 = root, r2 = r1;
    lager::reader<int> f1 = r1.map([](int x) { return sym::uf(1, x); });
    lager::reader<int> f2 = r2.map([](int x) { return sym::uf(1, x); });
    slog<int> l;
    lager::watch(r1, [&](int) { l.push(1); });
    r1.watch([&](int) { l.push(2); });
    lager::watch(r2, [&](int) { l.push(3); });
    lager::watch(f1, [&](int) { l.push(4); });
    lager::watch(f2, [&](int) { l.push(5); });
    lager::watch(root, [&](int) { l.push(6); });
    for (int k = 0; k < bound(2, 3); ++k) {
        int o = m;
        m     = sym::any();
        root.set(m);
        lager::commit(root);
        bool d = m != o, fd = sym::uf(1, m) != sym::uf(1, o);
        for (int i : {1, 2, 3, 6})
            CHECK(l.count(i) == (d ? 1 : 0), "every watcher of the source once");
        for (int i : {4, 5})
            CHECK(l.count(i) == (fd ? 1 : 0), "every watcher of the mapping once");
        l.clear();
    }
    sym::observe(m);
    sym::reach("done");
}
// many watchers of one reader, many readers of one root, and a long chain of mappings
HARNESS(many)
{
    constexpr int N = 20, D = 12;
    int m     = sym::any();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::reader<int> one = root, kids[N], chain[D];
    int calls[3][N] = {}, arg[3][N] = {};
    auto see = [&](int k, int i) {
        return [&, k, i](int x) {
            calls[k][i]++;
            arg[k][i] = x;
        };
    };
    for (int i = 0; i < N; ++i) {
        one.watch(see(0, i));
        kids[i] = root.map([i](int x) { return x + i; });
        kids[i].watch(see(1, i));
    }
    for (int i = 0; i < D; ++i) {
        chain[i] = (i ? chain[i - 1] : one).map([](int x) { return x ^ 5; });
        chain[i].watch(see(2, i));
    }
    for (int k = 0; k < 2; ++k) {
        int o = m;
        m     = sym::any();
        root.set(m);
        lager::commit(root);
        int c = m;
        for (int i = 0; i < N; ++i) {
            CHECK(calls[0][i] == (m != o) && calls[1][i] == (m != o), "every watcher exactly once if the value changed");
            CHECK((m == o) | ((arg[0][i] == m) & (arg[1][i] == m + i)), "with the new value");
            CHECK(kids[i].get() == m + i, "every reader shows the new value");
        }
        for (int i = 0; i < D; ++i) {
            c ^= 5;
            CHECK(calls[2][i] == (m != o), "every watcher exactly once if the value changed");
            CHECK((chain[i].get() == c) & ((m == o) | (arg[2][i] == c)), "with the new value");
        }
        for (auto& a : calls)
            for (auto& b : a)
                b = 0;
    }
    sym::reach("done");
}
