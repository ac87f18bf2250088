//@ entry: auto_manual reach=done,effect,child-effect,future-effect
//@ entry: auto_queue reach=done,effect,child-effect,future-effect
//@ entry: trans_queue reach=done,effect,child-effect,future-effect
//@ entry: auto_futures reach=done,effect,child-effect,future-effect
//@ entry: deps_and_loop reach=done,loop-post
//@ entry: long_run reach=done,effect,child-effect,future-effect
//@ bounds: every history of 4 (thorough: 5) operations out of {dispatch an action with no effect, a void effect, an effect returning a future, an effect dispatching one action with or without an effect of its own; step the loop / commit}; symbolic payloads, uninterpreted reducer; manual and queue loops, automatic and transactional, with and without futures; a run of 30 actions of all kinds, up to 12 of them waiting at once
//@ outside: longer histories; effects that run on other threads
#include "common.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/store.hpp>

namespace {
struct model
{
    int v, n;
    friend bool operator==(const model& a, const model& b) { return (a.v == b.v) & (a.n == b.n); }
    friend bool operator!=(const model& a, const model& b) { return !(a == b); }
};
struct service
{
    int x = 0;
};
struct action
{
    int v;
    int kind;
    int id;
    // kind: 0 none (noop), 1 void effect, 2 effect returning a future, 3 dispatches a plain action, 4 dispatches an action with effect
};
using deps_t = lager::deps<service&>;

struct world
{
    int nextId = 0;
    slog<int> kinds;        // kind by id in dispatch order
    slog<int> models;       // fold after each action
    slog<int> effOrder;     // expected effect order (ids)
    slog<int> effRun;       // effect ids as run
    int cur;
    int reduced = 0;
    int notifiedN = 0;      // n of the last value the watcher was told
    int notifiedV;
    service svc;
    const lager::reader<model>* rd = nullptr;
    bool automatic               = true;
};

template <class Ctx>
void effect_body(world* w, action a, Ctx& ctx)
{
    w->effRun.push(a.id);
    sym::reach("effect");
    auto m = w->rd->get();
    if (w->automatic) {
        CHECK(m.n > a.id, "effect ran before the model of its action was readable");
        CHECK(m.v == w->models[m.n - 1], "effect saw a model that is not a prefix of the history");
        CHECK(w->notifiedN == m.n, "effect ran before the watchers were told");
        CHECK(w->notifiedV == m.v, "watchers were told something else");
    }
    CHECK(&lager::get<service&>(ctx) == &w->svc, "dependencies of the store not available in the effect");
    if (a.kind >= 3) {
        int id = w->nextId++;
        int k  = a.kind == 3 ? 0 : 1;
        w->kinds.push(k);
        ctx.dispatch(action{sym::any(), k, id});
        sym::reach("child-effect");
    }
}

struct reducer
{
    world* w;
    std::pair<model, lager::effect<action, deps_t>> operator()(model m, action a) const
    {
        CHECK(a.id == w->reduced, "reduction order");
        w->reduced++;
        auto r = model{sym::uf(1, m.v, a.v), m.n + 1};
        w->cur = r.v;
        w->models.push(r.v);
        auto w_ = w;
        switch (a.kind) {
        case 0: return {r, lager::noop};
        case 2:
            w->effOrder.push(a.id);
            return {r, [w_, a](const lager::context<action, deps_t>& ctx) -> lager::future {
                        sym::reach("future-effect");
                        effect_body(w_, a, ctx);
                        return {};
                    }};
        default:
            w->effOrder.push(a.id);
            return {r, [w_, a](const lager::context<action, deps_t>& ctx) { effect_body(w_, a, ctx); }};
        }
    }
};

template <class Tag, class MakeLoop, class Step, class... En>
void scenario(int len, MakeLoop makeLoop, Step step, En... en)
{
    world w;
    w.cur       = sym::any();
    w.notifiedV = w.cur;
    w.automatic = std::is_same_v<Tag, lager::automatic_tag>;
    auto store  = lager::make_store<action, Tag>(model{w.cur, 0}, makeLoop(), lager::with_reducer(reducer{&w}), lager::with_deps(std::ref(w.svc)), en...);
    lager::reader<model> rd = store;
    w.rd                    = &rd;
    rd.watch([&](const model& m) {
        w.notifiedN = m.n;
        w.notifiedV = m.v;
    });
    for (int i = 0; i < len; ++i) {
        auto k = sym::choice(6);
        if (k < 5) {
            int id = w.nextId++;
            w.kinds.push(k);
            store.dispatch(action{sym::any(), (int) k, id});
        } else {
            step();
            lager::commit(store);
        }
        CHECK(w.effRun.n <= w.effOrder.n, "an effect ran more than once");
    }
    step();
    lager::commit(store);
    CHECK(w.reduced == w.nextId, "lost action");
    CHECK(w.effRun.n == w.effOrder.n, "number of effects run");
    for (int i = 0; i < w.effOrder.n; ++i)
        CHECK(w.effRun[i] == w.effOrder[i], "effects did not run once each in dispatch order");
    CHECK(rd.get().v == w.cur, "final model");
    sym::observe(rd.get().v);
    sym::observe(w.effRun.n);
    sym::reach("done");
}
} // namespace

HARNESS(auto_manual)
{
    scenario<lager::automatic_tag>(bound(4, 5), [] { return lager::with_manual_event_loop{}; }, [] {});
}
HARNESS(auto_queue)
{
    lager::queue_event_loop q;
    scenario<lager::automatic_tag>(bound(4, 5), [&] { return lager::with_queue_event_loop{q}; }, [&] { q.step(); });
}
HARNESS(trans_queue)
{
    lager::queue_event_loop q;
    scenario<lager::transactional_tag>(bound(4, 5), [&] { return lager::with_queue_event_loop{q}; }, [&] { q.step(); });
}
HARNESS(auto_futures)
{
    lager::queue_event_loop q;
    scenario<lager::automatic_tag>(bound(4, 5), [&] { return lager::with_queue_event_loop{q}; }, [&] { q.step(); }, lager::with_futures);
}

// lager::result reducers, and the loop reachable through the effect's context
HARNESS(deps_and_loop)
{
    struct st
    {
        int ran = 0, posted = 0, total = 0;
    } s;
    service svc{sym::any()};
    int x0 = svc.x;
    lager::queue_event_loop q;
    auto store = lager::make_store<int>(
        sym::any(),
        lager::with_queue_event_loop{q},
        lager::with_deps(std::ref(svc)),
        lager::with_reducer([&s](int m, int a) -> lager::result<int, int, deps_t> {
            int r = sym::uf(3, m, a);
            if (sym::up(4, a))
                return {r, [&s, a](const lager::context<int, deps_t>& ctx) {
                            s.ran++;
                            s.total += a;
                            lager::get<service&>(ctx).x++;
                            ctx.loop().post([&s] {
                                s.posted++;
                                sym::reach("loop-post");
                            });
                        }};
            return r;
        }));
    int m = store.get(), expRan = 0, expTotal = 0;
    for (int i = 0; i < bound(3, 5); ++i) {
        int a = sym::any();
        store.dispatch(a);
        CHECK(s.ran == 0, "an effect ran outside of the loop");
        m = sym::uf(3, m, a);
        if (sym::up(4, a))
            expRan++, expTotal += a;
    }
    q.step();
    CHECK(s.ran == expRan, "effects of non-empty results run exactly once");
    CHECK(s.total == expTotal, "effects run with their own action");
    CHECK(s.posted == expRan, "work posted through the effect's context ran on the store's loop");
    CHECK(svc.x == (int) ((unsigned) x0 + expRan), "effects see the store's dependency");
    CHECK(store.get() == m, "final model");
    sym::observe(store.get());
    sym::observe(s.total);
    sym::reach("done");
}
// many actions with effects, many of them waiting at the same time
HARNESS(long_run)
{
    lager::queue_event_loop q;
    bool futures = sym::flip();
    auto run     = [&](auto... en) {
        world w;
        w.cur = w.notifiedV = sym::any();
        auto store = lager::make_store<action>(model{w.cur, 0}, lager::with_queue_event_loop{q}, lager::with_reducer(reducer{&w}), lager::with_deps(std::ref(w.svc)), en...);
        lager::reader<model> rd = store;
        w.rd                    = &rd;
        rd.watch([&](const model& m) {
            w.notifiedN = m.n;
            w.notifiedV = m.v;
        });
        for (int i = 0; i < 30; ++i) {
            int id = w.nextId++;
            w.kinds.push(i % 5);
            store.dispatch(action{sym::any(), i % 5, id});
            if (i % 12 == 11)
                q.step();
        }
        q.step();
        CHECK(w.reduced == w.nextId, "lost action");
        CHECK(w.effRun.n == w.effOrder.n, "number of effects run");
        for (int i = 0; i < w.effOrder.n; ++i)
            CHECK(w.effRun[i] == w.effOrder[i], "effects did not run once each in dispatch order");
        CHECK(rd.get().v == w.cur, "final model");
    };
    if (futures)
        run(lager::with_futures);
    else
        run();
    sym::reach("done");
}
