//@ entry: readers reach=done,called,stale
//@ entry: cursors reach=done,called,stale
//@ entry: cross reach=done
//@ entry: many reach=done
//@ bounds: two reader (cursor) objects over three sources (a transactional root, an automatic root and a reader, or cursor, derived from the first), any sequence of 4 (thorough: 5) operations out of watch, bind, nudge, unbind, copy and move construction, copy and move assignment, self assignment, assignment of a source, destruction and change of a source, then a change of every source; values arbitrary; 24 callbacks on one object, with changes, nudges, a copy of the object, another source and unbind
//@ outside: the callbacks of a moved-from object (until it is assigned, unbound or destroyed); operations from inside a callback (C20)
#include "common.hpp"
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/watch.hpp>
#include <optional>

namespace {
constexpr int NCB = 16;
struct world
{
    int calls[NCB] = {}, arg[NCB] = {}, n = 0;
};
struct obj
{
    bool alive = false;
    int src    = -1; // -1: none
    bool moved = false;
    slog<int, NCB> cbs;
};
template <class R>
struct play
{
    lager::state<int, lager::transactional_tag> s0 = lager::make_state(1000, lager::transactional_tag{});
    lager::state<int, lager::automatic_tag> s1     = lager::make_state(2000, lager::automatic_tag{});
    R src[3];
    int cur[3];
    world w;
    std::optional<R> r[2];
    obj o[2];

    static R derive(lager::state<int, lager::transactional_tag>& s)
    {
        if constexpr (std::is_same_v<R, lager::cursor<int>>)
            return s.zoom(lager::lenses::getset([](int x) { return x + 1; }, [](int, int v) { return v - 1; }));
        else
            return s.map([](int x) { return x + 1; });
    }
    play()
        : src{s0, s1, derive(s0)}
    {
        cur[0] = 1000;
        cur[1] = 2000;
        cur[2] = 1001;
    }
    auto cb(int id)
    {
        return [this, id](int v) {
            w.calls[id]++;
            w.arg[id] = v;
        };
    }
    void reset()
    {
        for (int i = 0; i < w.n; ++i)
            w.calls[i] = 0;
    }
    // checks the calls since the last reset: those of the objects showing source s, once with the present value
    void called(int s)
    {
        for (int j = 0; j < 2; ++j) {
            if (!o[j].alive || o[j].moved)
                continue;
            for (int i = 0; i < o[j].cbs.n; ++i) {
                int id = o[j].cbs[i];
                if (o[j].src >= 0 && (o[j].src == s || (s == 0 && o[j].src == 2))) {
                    CHECK(w.calls[id] == 1, "a change calls the callbacks of the objects that show it once");
                    CHECK(w.arg[id] == cur[o[j].src], "with the new value");
                    w.calls[id] = 0;
                    sym::reach("called");
                }
            }
        }
        // those of moved-from objects are not specified
        for (int j = 0; j < 2; ++j)
            if (o[j].alive && o[j].moved)
                for (int i = 0; i < o[j].cbs.n; ++i)
                    w.calls[o[j].cbs[i]] = 0;
        none();
    }
    void none()
    {
        for (int i = 0; i < w.n; ++i)
            CHECK(w.calls[i] == 0, "no other callback is called");
    }
    void change(int s)
    {
        int v = sym::any();
        sym::assume(v != cur[s]);
        cur[s] = v;
        if (s == 0) {
            cur[2] = v + 1;
            if constexpr (std::is_same_v<R, lager::cursor<int>>) {
                if (o[0].alive && o[0].src == 2)
                    r[0]->set(cur[2]);
                else
                    s0.set(v);
            } else
                s0.set(v);
            none();
            lager::commit(s0);
        } else
            s1.set(v);
        called(s);
    }
    void drop(int j)
    {
        if (o[j].cbs.n)
            sym::reach("stale");
        o[j] = obj{};
    }
    void step()
    {
        int j = sym::choice(2), k = 1 - j;
        reset();
        if (!o[j].alive) {
            switch (sym::choice(o[k].alive ? 4 : 2)) {
            case 0:
                r[j].emplace();
                o[j].src = -1;
                break;
            case 1: {
                int s = sym::choice(3);
                r[j].emplace(src[s]);
                o[j].src = s;
                break;
            }
            case 2:
                r[j].emplace(*r[k]);
                o[j].src = o[k].src;
                break;
            case 3:
                r[j].emplace(std::move(*r[k]));
                o[j].src   = o[k].src;
                o[k].src   = -1;
                o[k].moved = true;
                break;
            }
            o[j].alive = true;
            none();
            return;
        }
        switch (sym::choice(o[k].alive ? 10 : 8)) {
        case 0:
            r[j]->watch(cb(w.n));
            o[j].cbs.push(w.n++);
            if (o[j].moved && o[j].cbs.n == 1)
                o[j].moved = false;
            none();
            break;
        case 1: {
            sym::assume(o[j].src >= 0);
            r[j]->bind(cb(w.n));
            CHECK(w.calls[w.n] == 1, "bind calls at once");
            CHECK(w.arg[w.n] == cur[o[j].src], "with the present value");
            w.calls[w.n] = 0;
            o[j].cbs.push(w.n++);
            none();
            break;
        }
        case 2:
            sym::assume(o[j].src >= 0);
            r[j]->nudge();
            for (int i = 0; i < o[j].cbs.n; ++i) {
                int id = o[j].cbs[i];
                CHECK(w.calls[id] == 1, "nudge calls every callback once");
                CHECK(w.arg[id] == cur[o[j].src], "with the present value");
                w.calls[id] = 0;
            }
            none();
            break;
        case 3:
            r[j]->unbind();
            if (o[j].cbs.n)
                sym::reach("stale");
            o[j].cbs.clear();
            o[j].moved = false;
            none();
            break;
        case 4:
            r[j].reset();
            drop(j);
            none();
            break;
        case 5: {
            int s = sym::choice(3);
            *r[j] = src[s];
            o[j].src   = s;
            o[j].moved = false;
            none();
            break;
        }
        case 6:
            if (sym::flip()) {
                auto& x = *r[j];
                *r[j]   = x;
            } else {
                *r[j]    = R{};
                o[j].src = -1;
            }
            if (o[j].src < 0)
                o[j].moved = false;
            none();
            break;
        case 7: change(sym::choice(2)); break;
        case 8:
            *r[j]      = *r[k];
            o[j].src   = o[k].src;
            o[j].moved = false;
            none();
            break;
        case 9:
            *r[j]      = std::move(*r[k]);
            o[j].src   = o[k].src;
            o[j].moved = false;
            o[k].src   = -1;
            o[k].moved = o[k].cbs.n > 0;
            none();
            break;
        }
    }
    void run()
    {
        r[0].emplace(src[0]);
        o[0].alive = true;
        o[0].src   = 0;
        if (sym::flip()) {
            r[0]->watch(cb(w.n));
            o[0].cbs.push(w.n++);
        }
        for (int k = 0; k < bound(4, 5); ++k)
            step();
        reset();
        change(0);
        reset();
        change(1);
        for (int j = 0; j < 2; ++j)
            if (o[j].alive && o[j].src >= 0)
                CHECK(r[j]->get() == cur[o[j].src], "an object shows its source");
        sym::observe(w.n);
        sym::reach("done");
    }
};
} // namespace
HARNESS(readers)
{
    play<lager::reader<int>> p;
    p.run();
}
HARNESS(cursors)
{
    play<lager::cursor<int>> p;
    p.run();
}
// assignments between different kinds of objects, roots and sensors-like temporaries
HARNESS(cross)
{
    auto s = lager::make_state(1000, lager::transactional_tag{});
    auto t = lager::make_state(2000, lager::transactional_tag{});
    int n = 0, arg = 0;
    auto cb = [&](int v) { ++n; arg = v; };
    lager::reader<int> r;
    r.watch(cb);
    lager::cursor<int> c = s;
    switch (sym::choice(5)) {
    case 0: r = s; break;
    case 1: r = c; break;
    case 2: r = s.map([](int x) { return x; }); break;
    case 3: r = lager::cursor<int>{c}; break;
    case 4: r = t; r = c.make(); break;
    }
    CHECK(n == 0, "assigning does not call");
    int v = sym::any();
    sym::assume(v != 1000);
    c.set(v);
    int u = sym::any();
    t.set(u);
    lager::commit(s, t);
    CHECK((n == 1) & (arg == v), "the callback follows the assigned source only");
    // a temporary reader dies with its callbacks
    int m = 0;
    lager::watch(lager::reader<int>{s}, [&](int) { ++m; });
    {
        auto keep = lager::watch(s, [&](int) { n += 10; });
        (void) keep;
    }
    int x = sym::any();
    sym::assume(x != v);
    s.set(x);
    lager::commit(s);
    CHECK(m == 0, "a temporary's callbacks go with it");
    CHECK(n == 12, "callbacks on the root stay with the root");
    CHECK(arg == x, "value");
    sym::reach("done");
}
// many callbacks on one object
HARNESS(many)
{
    constexpr int N = 24;
    auto s = lager::make_state(1, lager::automatic_tag{}), t = lager::make_state(2, lager::automatic_tag{});
    int calls[N] = {}, arg[N] = {};
    lager::reader<int> r = s;
    for (int i = 0; i < N; ++i)
        r.watch([&, i](int x) {
            calls[i]++;
            arg[i] = x;
        });
    auto expect = [&](int n, int x) {
        for (int i = 0; i < N; ++i) {
            CHECK(calls[i] == n && (n == 0 || arg[i] == x), "every callback is called once with the new value");
            calls[i] = 0;
        }
    };
    expect(0, 0);
    int a = sym::any();
    sym::assume(a != 1);
    s.set(a);
    expect(1, a);
    r.nudge();
    expect(1, a);
    lager::reader<int> u = r;
    int b = sym::any();
    sym::assume(b != a);
    s.set(b);
    expect(1, b);
    r = t;
    s.set(a);
    expect(0, 0);
    int c = sym::any();
    sym::assume(c != 2);
    t.set(c);
    expect(1, c);
    r.unbind();
    t.set(2);
    expect(0, 0);
    sym::reach("done");
}
