//@ entry: dispatch reach=done,threw,reducer,effect,watcher,queued
//@ entry: propagate reach=done,mapping,watcher,twice
//@ entry: automatic reach=done,mapping,watcher
//@ entry: writers reach=done,update,lens,setter,map
//@ bounds: dispatch: automatic and transactional store on the manual, queue or safe queue loop, up to 3 (thorough: 4) dispatches, each action may throw in the reducer or in its effect, its effect may dispatch another action before it throws or ends, a watcher may throw each time it is called; propagate and automatic: a state with a chain of two mapped readers and a merged one, every call of a mapping or watcher may throw (at most 2 throws), 3 writes with commits in between; writers: update functions, lenses, with_setter functions and mappings that throw during a write; arbitrary values and functions
//@ outside: a merged cursor, one of whose parts throws, has written the other parts; which of the watchers that come after one that throws are told about that change; exceptions from copying values
#include "common.hpp"
#include <functional>
#include <lager/commit.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/with.hpp>

namespace c34 {
struct boom
{};
int budget, thrown;
bool may_throw()
{
    if (budget && sym::choice(2)) {
        --budget;
        ++thrown;
        return true;
    }
    return false;
}
constexpr int F = 1, G = 2, H = 3, R = 4;

struct act
{
    int id, v;
};
// what an action does, decided when it is dispatched
struct plan
{
    int v = 0, kid = -1;
    bool red = false, eff = false, has_eff = false;
};
struct world
{
    plan p[24];
    int n = 0;
    slog<int> posted, reduced, effected;
    std::function<void(act)> dispatch;
    int make(int depth)
    {
        CHECK(n < 24, "harness: too many actions");
        int id = n++;
        p[id].v = sym::any();
        switch (sym::choice(depth ? 3 : 6)) {
        case 0: break;
        case 1: p[id].red = true; break;
        case 2: p[id].has_eff = true; break;
        case 3: p[id].has_eff = p[id].eff = true; break;
        case 4: p[id].has_eff = true; p[id].kid = make(depth + 1); break;
        case 5: p[id].has_eff = p[id].eff = true; p[id].kid = make(depth + 1); break;
        }
        return id;
    }
    void post(int id)
    {
        posted.push(id);
        dispatch({id, p[id].v});
    }
};
world* w;
// (every completed action changes the model: `n` counts them)
struct model
{
    moved_int v, n;
    friend bool operator==(const model& a, const model& b) { return (a.v == b.v) & (a.n == b.n); }
};
struct reducer
{
    lager::result<model, act> operator()(model m, act a) const
    {
        CHECK(w->reduced.n < w->posted.n && w->posted[w->reduced.n] == a.id, "queued actions are neither lost nor repeated");
        w->reduced.push(a.id);
        auto& p = w->p[a.id];
        if (p.red) {
            thrown++;
            sym::reach("reducer");
            throw boom{};
        }
        model x{moved_int{sym::uf(R, m.v, a.v)}, moved_int{m.n + 1}};
        if (!p.has_eff)
            return x;
        return {x, [id = a.id](auto&&) {
                    w->effected.push(id);
                    if (w->p[id].kid >= 0)
                        w->post(w->p[id].kid);
                    if (w->p[id].eff) {
                        thrown++;
                        sym::reach("effect");
                        throw boom{};
                    }
                }};
    }
};
struct none
{
    void step() {}
};
template <class Loop, class Enh, class Tag>
void run(Loop& l, Enh enh, Tag tag, bool manual)
{
    world W;
    w      = &W;
    thrown = 0;
    budget = 1;
    model m{moved_int{sym::any()}, moved_int{}};
    auto s = lager::make_store<act>(model{m}, enh, lager::with_reducer(reducer{}), lager::with_tags<Tag>);
    lager::reader<model> r = s;
    auto F_ = [](model m) { return model{moved_int{sym::uf(F, m.v)}, m.n}; };
    lager::reader<model> ff = r.map(F_);
    int seen = 0;
    model last{};
    lager::watch(ff, [&](model v) {
        seen++;
        last = v;
        if (may_throw()) {
            sym::reach("watcher");
            throw boom{};
        }
    });
    W.dispatch  = [&](act a) { s.dispatch(a); };
    auto expect = [&] {
        model x = m;
        for (int i = 0; i < W.reduced.n; ++i)
            if (!W.p[W.reduced[i]].red)
                x = model{moved_int{sym::uf(R, x.v, W.p[W.reduced[i]].v)}, moved_int{x.n + 1}};
        return x;
    };
    constexpr bool trans = std::is_same_v<Tag, lager::transactional_tag>;
    auto attempt = [&](auto&& fn) {
        int before = thrown, k = 0;
        try {
            fn();
        } catch (boom&) {
            k = 1;
            sym::reach("threw");
            if (W.reduced.n < W.posted.n)
                sym::reach("queued");
        }
        CHECK(thrown == before + k, "an exception reaches the caller that triggered it, at once");
    };
    auto commit = [&] {
        if (trans) {
            attempt([&] { lager::commit(s); });
            CHECK(s.get() == expect(), "the model is the result of the actions whose reducer completed");
        }
    };
    int left = bound(3, 4);
    while (left--) {
        int id = W.make(0);
        if (manual)
            attempt([&] { W.post(id); });
        else {
            W.post(id);
            if (left && sym::choice(2))
                continue;
            attempt([&] { l.step(); });
        }
        commit();
    }
    // whatever was left runs with the later work
    bool watcher = budget == 0;
    budget       = 0;
    auto extra   = [&] {
        int id    = W.n++;
        W.p[id].v = sym::any();
        if (manual)
            attempt([&] { W.post(id); });
        else {
            W.post(id);
            attempt([&] { l.step(); });
        }
    };
    do
        extra();
    while (W.reduced.n < W.posted.n);
    for (int i = 0, t = -1; t != thrown; ++i) {
        CHECK(i < 12, "queued actions are neither lost nor repeated");
        t = thrown;
        extra();
        commit();
    }
    CHECK(W.reduced.n == W.posted.n, "queued actions are neither lost nor repeated");
    int k = 0;
    for (int i = 0; i < W.posted.n; ++i) {
        auto& p = W.p[W.posted[i]];
        int c   = W.effected.count(W.posted[i]);
        k += c;
        CHECK(c <= int(!p.red && p.has_eff), "the effect of an action runs exactly once");
        if (!watcher)
            CHECK(c == int(!p.red && p.has_eff), "the effect of an action runs exactly once");
    }
    CHECK(W.effected.n == k, "the effect of an action runs exactly once");
    CHECK(s.get() == expect(), "the model is the result of the actions whose reducer completed");
    CHECK(ff.get() == F_(expect()), "readers show the model");
    int sb = seen;
    extra();
    commit();
    CHECK(ff.get() == F_(expect()), "readers show the model");
    CHECK(seen == sb + 1 && last == ff.get(), "later changes are notified");
    sym::observe(s.get().v);
}
} // namespace c34
using namespace c34;

HARNESS(dispatch)
{
    bool t = sym::choice(2);
    switch (sym::choice(3)) {
    case 0: {
        none l;
        if (t)
            run(l, lager::with_manual_event_loop{}, lager::transactional_tag{}, true);
        else
            run(l, lager::with_manual_event_loop{}, lager::automatic_tag{}, true);
        break;
    }
    case 1: {
        lager::queue_event_loop l;
        if (t)
            run(l, lager::with_queue_event_loop{l}, lager::transactional_tag{}, false);
        else
            run(l, lager::with_queue_event_loop{l}, lager::automatic_tag{}, false);
        break;
    }
    default: {
        lager::safe_queue_event_loop l;
        if (t)
            run(l, lager::with_safe_queue_event_loop{l}, lager::transactional_tag{}, false);
        else
            run(l, lager::with_safe_queue_event_loop{l}, lager::automatic_tag{}, false);
    }
    }
    sym::reach("done");
}

// readers derived from a state with mappings and watchers that may throw
namespace c34 {
template <class Tag>
void prop(int rounds)
{
    constexpr bool trans = std::is_same_v<Tag, lager::transactional_tag>;
    thrown = budget = 0;
    int m    = sym::any();
    auto s   = lager::make_state(m, Tag{});
    auto map = [](int f) {
        return [f](int v) {
            if (may_throw()) {
                sym::reach("mapping");
                throw boom{};
            }
            return sym::uf(f, v);
        };
    };
    lager::reader<int> a = s.map(map(F));
    lager::reader<int> b = a.map(map(G));
    lager::reader<int> c = lager::with(s, b).map([](int x, int y) {
        if (may_throw()) {
            sym::reach("mapping");
            throw boom{};
        }
        return sym::uf(H, x, y);
    });
    int seen[3] = {}, last[3] = {};
    auto watch = [&](auto& r, int i) {
        lager::watch(r, [&, i](int v) {
            seen[i]++;
            last[i] = v;
            if (may_throw()) {
                sym::reach("watcher");
                throw boom{};
            }
        });
    };
    watch(a, 0);
    watch(b, 1);
    watch(c, 2);
    auto shows = [&](int x) {
        int f = sym::uf(F, x), g = sym::uf(G, f);
        CHECK((s.get() == x) & (a.get() == f) & (b.get() == g) & (c.get() == sym::uf(H, x, g)), "once nothing throws, everything shows the value written last");
    };
    budget = 2;
    int old = m;
    for (int i = 0; i < rounds; ++i) {
        int v      = sym::choice(2) ? m : sym::any();
        int before = thrown;
        bool threw = false;
        old        = m;
        m          = v;
        try {
            s.set(v);
            if (trans)
                lager::commit(s);
        } catch (boom&) {
            threw = true;
        }
        CHECK(thrown == before + threw, "an exception reaches the caller that triggered it, at once");
        if (!threw)
            shows(v);
        else {
            CHECK((s.get() == v), "the model is the one before or the one after");
            int x = a.get(), f = sym::uf(F, v);
            if (thrown == 2)
                sym::reach("twice");
            (void) x;
            (void) f;
        }
    }
    // the same value again, and another one
    budget = 0;
    s.set(m);
    if (trans)
        lager::commit(s);
    shows(m);
    int l[3] = {a.get(), b.get(), c.get()}, sb[3] = {seen[0], seen[1], seen[2]};
    m = sym::any();
    s.set(m);
    if (trans)
        lager::commit(s);
    shows(m);
    int now[3] = {a.get(), b.get(), c.get()};
    for (int i = 0; i < 3; ++i) {
        CHECK((now[i] == l[i]) | (last[i] == now[i]), "later changes are notified");
        CHECK(seen[i] <= sb[i] + 1, "later changes are notified");
    }
    sym::observe(c.get());
}
} // namespace c34
HARNESS(propagate)
{
    prop<lager::transactional_tag>(bound(2, 3));
    sym::reach("done");
}
HARNESS(automatic)
{
    prop<lager::automatic_tag>(bound(2, 3));
    sym::reach("done");
}
// a write that throws on its way to the state leaves the state alone
namespace c34 {
struct box
{
    int x, y;
    friend bool operator==(const box& a, const box& b) { return (a.x == b.x) & (a.y == b.y); }
};
template <class Tag>
void writes()
{
    constexpr bool trans = std::is_same_v<Tag, lager::transactional_tag>;
    thrown = budget = 0;
    box m{sym::any(), sym::any()};
    auto s = lager::make_state(m, Tag{});
    int set_by_setter = 0, setter_calls = 0;
    auto lens  = zug::comp([](auto&& f) {
        return [f](auto&& p) {
            return f(p.x)([p](int v) {
                if (may_throw()) {
                    sym::reach("lens");
                    throw boom{};
                }
                auto q = p;
                q.x    = v;
                return q;
            });
        };
    });
    lager::cursor<int> c = s.zoom(lens);
    lager::reader<int> r = c;
    lager::cursor<int> d = lager::with_setter<Tag>(r, [&](int v) {
        setter_calls++;
        if (may_throw()) {
            sym::reach("setter");
            throw boom{};
        }
        set_by_setter = v;
    });
    lager::reader<int> e = s.map([](const box& b) {
        return sym::uf(F, b.x, b.y);
    });
    auto commit = [&] {
        if (trans)
            lager::commit(s);
    };
    bool used = false;
    for (int i = 0; i < bound(2, 3); ++i) {
        bool threw = false;
        int v      = sym::any(), before = thrown, k = sym::choice(used ? 3 : 4), calls = setter_calls;
        box n      = m;
        budget     = 1;
        try {
            switch (k) {
            case 0:
                n.x = v;
                c.set(v);
                break;
            case 1:
                n.x = sym::uf(G, m.x);
                c.update([&](int x) {
                    if (may_throw()) {
                        sym::reach("update");
                        throw boom{};
                    }
                    return sym::uf(G, x);
                });
                break;
            case 2:
                n = {v, v};
                s.update([&](box b) {
                    if (may_throw()) {
                        sym::reach("map");
                        throw boom{};
                    }
                    return box{v, v};
                });
                break;
            case 3: d.set(v); break;
            }
        } catch (boom&) {
            threw = true;
        }
        budget = 0;
        CHECK(thrown == before + threw, "an exception reaches the caller that triggered it, at once");
        if (!threw)
            m = n;
        if (k == 3) {
            CHECK(setter_calls == calls + 1, "the setter is called once");
            CHECK(threw || set_by_setter == v, "the setter is given the value");
            used = true;
        }
        commit();
        CHECK(s.get() == m, "a write that throws leaves the model alone");
        CHECK(c.get() == m.x, "a write that throws leaves the model alone");
        CHECK(e.get() == sym::uf(F, m.x, m.y), "a write that throws leaves the model alone");
        if (k == 3 && threw)
            CHECK(d.get() == m.x, "a write that throws leaves the cursor alone");
    }
    budget = 0;
    int v  = sym::any();
    c.set(v);
    m.x = v;
    commit();
    CHECK(s.get() == m && c.get() == v && e.get() == sym::uf(F, m.x, m.y), "later writes work");
    v = sym::any();
    d.set(v);
    CHECK(set_by_setter == v, "later writes work");
    sym::observe(e.get());
}
} // namespace c34
HARNESS(writers)
{
    if (sym::choice(2))
        writes<lager::transactional_tag>();
    else
        writes<lager::automatic_tag>();
    sym::reach("done");
}
