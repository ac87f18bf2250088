//@ entry: orders reach=done,rootless,derived
//@ entry: inside reach=done,self,other,root_gone,new
//@ entry: inside_auto reach=done,self,other,root_gone,new
//@ entry: inside_twice reach=done
//@ entry: maps_make reach=done,made
//@ bounds: orders: 3 handles and a root (automatic), any sequence of 5 (thorough: 6) operations out of creation from the root or another handle (copy, move, map, two-way lens, merge of two), destruction of any of them and a write, then destruction in any order; inside: 4 watched readers (the root, a map, a map of the map and a merge), one operation in each of any 1 (thorough: 2) callback(s) of a commit out of derivation and watching, unbinding, reassignment and destruction of any reader including the one being called, and destruction of the root object; maps_make: a mapping function that makes 1 to 4 (thorough: 8) readers of the node computing it, or of one below it, every time it runs, and drops or keeps those of before, among up to 3 readers on each side; values and mapping functions arbitrary; every access is checked against freed and out of scope memory, and no memory is left at the end
//@ outside: whether a watcher added, bound or reassigned during a notification is called for the change being notified
#include "common.hpp"
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <functional>
#include <memory>
#include <optional>

namespace {
// what a reader shows: an expression over the root
struct ex
{
    int op = 0; // 0: root, 1: uf(a), 2: a+k, 3: uf(a, b)
    int a = -1, b = -1;
};
struct exs
{
    ex e[24];
    int n = 1;
    int add(int op, int a, int b = -1)
    {
        CHECK(n < 24, "harness capacity");
        e[n] = ex{op, a, b};
        return n++;
    }
    int eval(int i, int root) const
    {
        const ex& x = e[i];
        switch (x.op) {
        case 0: return root;
        case 1: return sym::uf(1, eval(x.a, root));
        case 2: return eval(x.a, root) + 5;
        default: return sym::uf(2, eval(x.a, root), eval(x.b, root));
        }
    }
};
auto plus5 = lager::lenses::getset([](int x) { return x + 5; }, [](int, int v) { return v - 5; });
} // namespace
HARNESS(orders)
{
    long heap0 = sym::heap_live();
    {
        int cur = sym::any();
        exs E;
        using root_t = lager::state<int, lager::automatic_tag>;
        std::optional<root_t> root{lager::make_state(cur, lager::automatic_tag{})};
        std::optional<lager::cursor<int>> w{*root}; // a handle to write with
        std::optional<lager::reader<int>> r[3];
        std::optional<lager::cursor<int>> c;
        int id[3] = {}, cid = 0;
        auto check = [&] {
            for (int i = 0; i < 3; ++i)
                if (r[i])
                    CHECK(r[i]->get() == E.eval(id[i], cur), "a reader shows its function of the root, whatever has been destroyed");
            if (c)
                CHECK(c->get() == E.eval(cid, cur), "a cursor shows its function of the root, whatever has been destroyed");
        };
        for (int k = 0; k < bound(5, 6); ++k) {
            switch (sym::choice(6)) {
            case 0: { // make
                int j = 0;
                while (j < 3 && r[j])
                    ++j;
                sym::assume(j < 3);
                int i = sym::choice(5);
                if (i == 3) {
                    sym::assume(root.has_value());
                    if (sym::flip()) {
                        r[j].emplace(*root);
                        id[j] = 0;
                    } else {
                        r[j].emplace(root->map([](int x) { return sym::uf(1, x); }));
                        id[j] = E.add(1, 0);
                    }
                    break;
                }
                if (i == 4) {
                    sym::assume(c.has_value());
                    r[j].emplace(*c);
                    id[j] = cid;
                    break;
                }
                sym::assume(r[i].has_value());
                switch (sym::choice(4)) {
                case 0:
                    r[j].emplace(*r[i]);
                    id[j] = id[i];
                    break;
                case 1:
                    r[j].emplace(std::move(*r[i]));
                    r[i].reset();
                    id[j] = id[i];
                    break;
                case 2:
                    r[j].emplace(r[i]->map([](int x) { return sym::uf(1, x); }));
                    id[j] = E.add(1, id[i]);
                    break;
                case 3: {
                    int l = sym::choice(3);
                    sym::assume(r[l].has_value() && l != i && id[l] != id[i]);
                    r[j].emplace(lager::with(*r[i], *r[l]).map([](int x, int y) { return sym::uf(2, x, y); }));
                    id[j] = E.add(3, id[i], id[l]);
                    break;
                }
                }
                sym::reach("derived");
                break;
            }
            case 1: {
                int i = sym::choice(3);
                sym::assume(r[i].has_value());
                r[i].reset();
                break;
            }
            case 2:
                sym::assume(root.has_value());
                root.reset();
                break;
            case 3:
                if (!c) {
                    if (w && sym::flip())
                        c.emplace(w->zoom(plus5));
                    else {
                        sym::assume(root.has_value());
                        c.emplace(root->zoom(plus5));
                    }
                    cid = E.add(2, 0);
                } else if (sym::flip()) {
                    lager::cursor<int> t = c->zoom(plus5);
                    *c                   = std::move(t);
                    cid                  = E.add(2, cid);
                } else
                    c.reset();
                break;
            case 4: {
                int v = sym::any();
                if (c && sym::flip()) {
                    c->set(v);
                    for (int i = cid; i; i = E.e[i].a)
                        v -= 5;
                    cur = v;
                } else {
                    sym::assume(w.has_value());
                    w->set(v);
                    cur = v;
                }
                if (!root)
                    sym::reach("rootless");
                break;
            }
            case 5:
                sym::assume(w.has_value());
                w.reset();
                break;
            }
            check();
        }
        // everything goes, in some order
        switch (sym::choice(3)) {
        case 0: root.reset(); w.reset(); c.reset(); break;
        case 1: c.reset(); r[2].reset(); root.reset(); break;
        case 2: r[0].reset(); r[1].reset(); check(); w.reset(); root.reset(); break;
        }
        check();
        sym::observe(E.n);
    }
    CHECK(sym::heap_live() == heap0, "everything is freed");
    sym::reach("done");
}

namespace {
template <class Tag>
struct inside_t
{
    using root_t = lager::state<int, Tag>;
    exs E;
    int cur = sym::any();
    std::optional<root_t> root{lager::make_state(cur, Tag{})};
    lager::cursor<int> w{*root};
    static constexpr int N = 8;
    std::optional<lager::reader<int>> r[N];
    int id[N] = {}, calls[N] = {};
    bool bound_[N] = {}, fresh[N] = {};
    int n = 0;
    int budget;
    bool writing = false;

    void watch(int i)
    {
        bound_[i] = true;
        fresh[i]  = writing;
        r[i]->watch([this, i](int v) {
            CHECK(r[i].has_value() && bound_[i], "a destroyed or unbound watcher is not called");
            CHECK(v == r[i]->get(), "the argument is what the reader shows");
            CHECK(v == E.eval(id[i], cur), "which is the current value");
            calls[i]++;
            if (budget > 0)
                act(i);
        });
    }
    void act(int self)
    {
        unsigned a = sym::choice(9);
        if (a == 8)
            return;
        budget--;
        int i = -1;
        if (a < 7) {
            i = sym::choice(4);
            sym::assume(r[i].has_value());
        }
        switch (a) {
        case 0: // derive and watch
            sym::reach("new");
            CHECK(n < N, "harness capacity");
            id[n] = E.add(1, id[i]);
            r[n].emplace(r[i]->map([](int x) { return sym::uf(1, x); }));
            CHECK(r[n]->get() == E.eval(id[n], cur), "a reader created during a notification shows the current value");
            watch(n++);
            break;
        case 1: // derive from two and watch
            sym::reach("new");
            id[n] = E.add(3, id[i], 0);
            sym::assume(id[i] != 0);
            r[n].emplace(lager::with(*r[i], lager::reader<int>{w}).map([](int x, int y) { return sym::uf(2, x, y); }));
            CHECK(r[n]->get() == E.eval(id[n], cur), "a reader created during a notification shows the current value");
            watch(n++);
            break;
        case 2: // destroy
            sym::reach(i == self ? "self" : "other");
            bound_[i] = false;
            r[i].reset();
            break;
        case 3: // unbind
            bound_[i] = false;
            r[i]->unbind();
            break;
        case 4: // reassign; the callbacks go on
            id[i]    = 0;
            fresh[i] = true;
            *r[i]    = w;
            break;
        case 5: // derive and drop at once
        {
            lager::reader<int> t = r[i]->map([](int x) { return x; });
            t.watch([](int) { CHECK(false, "a destroyed watcher is not called"); });
            break;
        }
        case 6: // unbind and watch again
            bound_[i] = false;
            r[i]->unbind();
            watch(i);
            break;
        case 7: // drop the root object
            sym::reach("root_gone");
            root.reset();
            break;
        }
    }
    void change()
    {
        if (!root && std::is_same_v<Tag, lager::transactional_tag>)
            return;
        int v   = sym::any();
        int old = cur;
        bool diff[N];
        for (int i = 0; i < n; ++i) {
            calls[i] = 0;
            fresh[i] = false;
            diff[i]  = r[i] && bound_[i] && E.eval(id[i], old) != E.eval(id[i], v);
        }
        int n0  = n;
        cur     = v;
        writing = true;
        w.set(v);
        if constexpr (!std::is_same_v<Tag, lager::automatic_tag>)
            lager::commit(*root);
        writing = false;
        for (int i = 0; i < n; ++i) {
            if (r[i])
                CHECK(r[i]->get() == E.eval(id[i], cur), "every reader shows its function of the root");
            if (i < n0 && r[i] && bound_[i] && !fresh[i] && diff[i])
                CHECK(calls[i] == 1, "a watcher that is kept is called once for a change");
        }
    }
    void run(int b)
    {
        id[0] = 0;
        r[0].emplace(w);
        id[1] = E.add(1, 0);
        r[1].emplace(r[0]->map([](int x) { return sym::uf(1, x); }));
        id[2] = E.add(1, id[1]);
        r[2].emplace(r[1]->map([](int x) { return sym::uf(1, x); }));
        id[3] = E.add(3, id[1], 0);
        r[3].emplace(lager::with(*r[1], *r[0]).map([](int x, int y) { return sym::uf(2, x, y); }));
        n = 4;
        for (int i = 0; i < 4; ++i)
            watch(i);
        budget = b;
        change();
        budget = 0;
        change();
        switch (sym::choice(3)) {
        case 0:
            for (int i = 0; i < n; ++i)
                r[i].reset();
            break;
        case 1:
            root.reset();
            w = {};
            break;
        case 2:
            r[1].reset();
            change();
            break;
        }
        sym::observe(n);
    }
};
template <class Tag>
void inside_run(int b)
{
    long heap0 = sym::heap_live();
    {
        inside_t<Tag> x;
        x.run(b);
    }
    CHECK(sym::heap_live() == heap0, "everything is freed");
    sym::reach("done");
}
} // namespace
HARNESS(inside) { inside_run<lager::transactional_tag>(bound(1, 2)); }
HARNESS(inside_auto) { inside_run<lager::automatic_tag>(bound(1, 2)); }
// the callback's own object, twice
HARNESS(inside_twice)
{
    long heap0 = sym::heap_live();
    {
        auto s = lager::make_state(1, lager::transactional_tag{});
        int n = 0, m = 0;
        std::optional<lager::reader<int>> a{s}, b{s};
        int k    = sym::choice(3);
        // the callback goes away while it runs: it may not use its captures any more
        auto act = [&] {
            if (k == 0) {
                a.reset();
                b.reset();
            } else if (k == 1) {
                b->unbind();
                a->unbind();
            } else
                b.reset();
        };
        a->watch([&n, act](int) {
            ++n;
            auto f = act;
            f();
        });
        if (sym::flip() && k != 0)
            a->watch([&](int) { ++n; });
        b->watch([&](int) { ++m; });
        int v = sym::any();
        sym::assume(v != 1);
        s.set(v);
        lager::commit(s);
        CHECK(m == 0 && n >= 1, "a removed watcher is not called");
        s.set(1);
        n = 0;
        lager::commit(s);
        CHECK(m == 0, "a removed watcher is not called");
        CHECK(k == 2 || n == 0, "nor later");
    }
    CHECK(sym::heap_live() == heap0, "everything is freed");
    sym::reach("done");
}
// mapping functions that make readers, of the node that is computing them or of others, and drop those of before
template <class Tag>
void maps_make_t()
{
    int v  = sym::any();
    auto s = lager::make_state(v, Tag{});
    lager::reader<int> mid = s.map([](int x) { return sym::uf(9, x); });
    std::optional<lager::reader<int>> made[40];
    int have = 0;
    int n = sym::choice(4), make = 1 + sym::choice(bound(4, 8)), below = sym::flip();
    bool drop = sym::flip();
    int from  = 0;
    std::optional<lager::reader<int>> plain[3], after[3];
    int calls = 0;
    for (int i = 0; i < n; ++i)
        plain[i].emplace(s.map([i](int x) { return x + i; }));
    lager::reader<int> sel = s.map([&](int x) {
        if (drop)
            for (; from < have; ++from)
                made[from].reset();
        for (int k = 0; k < make; ++k) {
            ++have;
            if (below)
                made[have - 1].emplace(mid.map([k](int y) { return y - k; }));
            else
                made[have - 1].emplace(s.map([k](int y) { return y - k; }));
        }
        return made[have - 1]->get();
    });
    for (int i = 0; i < n; ++i) {
        after[i].emplace(s.map([i](int x) { return x - i; }));
        after[i]->watch([&](int) { ++calls; });
    }
    sym::reach("made");
    for (int round = 0; round < 2; ++round) {
        int w = sym::any();
        sym::assume(w != v);
        v     = w;
        calls = 0;
        s.set(v);
        lager::commit(s);
        CHECK(s.get() == v, "the root");
        CHECK(calls == n, "every watcher is told");
        for (int i = 0; i < n; ++i)
            CHECK(plain[i]->get() == v + i && after[i]->get() == v - i, "readers around it show the value");
        for (int k = 0; k < have; ++k)
            if (made[k])
                CHECK(made[k]->get() == (below ? sym::uf(9, v) : v) - k % make, "readers made by a mapping function show the value");
        if (!below)
            CHECK(sel.get() == v - (make - 1), "what the mapping function returned");
    }
    sym::reach("done");
}
HARNESS(maps_make)
{
    if (sym::flip())
        maps_make_t<lager::transactional_tag>();
    else
        maps_make_t<lager::automatic_tag>();
}
