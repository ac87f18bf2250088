//@ entry: manual_auto reach=done,effect-dispatch,watch-dispatch
//@ entry: manual_trans reach=done,effect-dispatch,watch-dispatch
//@ entry: queue_auto reach=done,effect-dispatch,watch-dispatch
//@ entry: queue_trans reach=done,effect-dispatch,watch-dispatch
//@ entry: safe_auto reach=done,effect-dispatch,watch-dispatch
//@ entry: equal_models reach=done,equal
//@ entry: long_runs reach=done
//@ bounds: every history of 5 (thorough: 6) operations out of {dispatch plain action, dispatch action with effect dispatching 1..2 further actions, dispatch whose watcher dispatches again, step the loop, commit}; 32-bit symbolic action payloads and initial model, arbitrary (uninterpreted) reducer function; up to 2 nested dispatches per effect, 1 per watcher call and 2 per path; runs of 49 actions, up to 24 of them waiting at once, on each loop, with arbitrary payloads
//@ outside: other histories of more than 6 operations; reducers with side effects; other model types than a two-int struct
#include "common.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/store.hpp>

namespace {
struct model
{
    moved_int v, n;
    friend bool operator==(const model& a, const model& b) { return (a.n == b.n) & (a.v == b.v); }
    friend bool operator!=(const model& a, const model& b) { return !(a == b); }
};
struct action
{
    int v;
    int spawn; // how many further actions the effect dispatches
};

struct world
{
    slog<int, 256> log; // payloads in dispatch order
    int reduced = 0;  // how many the reducer has seen
    int cur;          // fold of the reduced prefix
    int watchBudget = 0;
};

struct reducer
{
    world* w;
    std::pair<model, lager::effect<action>> operator()(model m, action a) const
    {
        CHECK(w->reduced < w->log.n, "reducer called for an action that was not dispatched");
        CHECK(a.v == w->log[w->reduced], "actions reduced out of dispatch order");
        CHECK(m.v == w->cur, "reducer did not receive the result of the previous action");
        CHECK(m.n == w->reduced, "reducer saw a stale model");
        w->reduced++;
        auto r = model{moved_int{sym::uf(1, m.v, a.v)}, moved_int{m.n + 1}};
        w->cur = r.v;
        if (a.spawn == 0)
            return {r, lager::noop};
        auto w_ = w;
        return {r, [w_, n = a.spawn](lager::context<action> ctx) {
                    for (int i = 0; i < n; ++i) {
                        auto p = sym::any();
                        w_->log.push(p);
                        ctx.dispatch(action{p, 0});
                        sym::reach("effect-dispatch");
                    }
                }};
    }
};

template <class Tag, class MakeLoop, class Step>
void scenario(int len, MakeLoop makeLoop, Step step)
{
    world w;
    w.cur      = sym::any();
    auto store = lager::make_store<action, Tag>(model{moved_int{w.cur}, moved_int{}}, makeLoop(), lager::with_reducer(reducer{&w}));
    store.watch([&](const model&) {
        if (w.watchBudget > 0) {
            w.watchBudget--;
            auto p = sym::any();
            w.log.push(p);
            sym::reach("watch-dispatch");
            store.dispatch(action{p, 0});
        }
    });
    for (int i = 0; i < len; ++i) {
        switch (sym::choice(5)) {
        case 0: {
            auto p = sym::any();
            w.log.push(p);
            store.dispatch(action{p, 0});
            break;
        }
        case 1: {
            auto p = sym::any();
            w.log.push(p);
            store.dispatch(action{p, 1 + (int) sym::choice(2)});
            break;
        }
        case 2: w.watchBudget = 1; break;
        case 3: step(); break;
        case 4: lager::commit(store); break;
        }
    }
    step();
    lager::commit(store); // may dispatch from the watcher
    w.watchBudget = 0;
    step();
    lager::commit(store);
    CHECK(w.reduced == w.log.n, "an action was lost");
    CHECK(store.get().n == w.log.n, "not every action was applied exactly once");
    CHECK(store.get().v == w.cur, "the store does not show the fold of its actions");
    sym::observe(store.get().v);
    sym::observe(w.log.n);
    sym::reach("done");
}
} // namespace

HARNESS(manual_auto)
{
    scenario<lager::automatic_tag>(bound(5, 6), [] { return lager::with_manual_event_loop{}; }, [] {});
}
HARNESS(manual_trans)
{
    scenario<lager::transactional_tag>(bound(5, 6), [] { return lager::with_manual_event_loop{}; }, [] {});
}
HARNESS(queue_auto)
{
    lager::queue_event_loop q;
    scenario<lager::automatic_tag>(bound(5, 6), [&] { return lager::with_queue_event_loop{q}; }, [&] { q.step(); });
}
HARNESS(queue_trans)
{
    lager::queue_event_loop q;
    scenario<lager::transactional_tag>(bound(5, 6), [&] { return lager::with_queue_event_loop{q}; }, [&] { q.step(); });
}
HARNESS(safe_auto)
{
    lager::safe_queue_event_loop q;
    scenario<lager::automatic_tag>(bound(5, 6), [&] { return lager::with_safe_queue_event_loop{q}; }, [&] { q.step(); });
}

// plain reducer without effects whose results may equal the previous model
HARNESS(equal_models)
{
    int cur    = sym::any();
    auto store = lager::make_store<int>(moved_int{cur}, lager::with_manual_event_loop{}, lager::with_reducer([](moved_int m, int a) { return moved_int{sym::uf(2, m, a)}; }));
    int seen = cur;
    int calls = 0;
    store.watch([&](int x) {
        seen = x;
        calls++;
    });
    int n = 1 + sym::choice(bound(5, 6));
    for (int i = 0; i < n; ++i) {
        int a = sym::any();
        int before = calls, old = cur;
        store.dispatch(a);
        cur = sym::uf(2, cur, a);
        if (cur == old)
            sym::reach("equal");
        CHECK(store.get() == cur, "the store does not show the fold of its actions");
        CHECK(seen == cur, "the watcher was not told the fold");
        CHECK(calls - before == (cur != old), "watcher calls");
    }
    sym::observe(store.get());
    sym::reach("done");
}

// many actions, many of them waiting at the same time
namespace {
template <class Tag, class MakeLoop, class Step>
void long_run(MakeLoop makeLoop, Step step)
{
    world w;
    w.cur      = sym::any();
    auto store = lager::make_store<action, Tag>(model{moved_int{w.cur}, moved_int{}}, makeLoop(), lager::with_reducer(reducer{&w}));
    auto send  = [&](int spawn) {
        auto p = sym::any();
        w.log.push(p);
        store.dispatch(action{p, spawn});
    };
    send(24);
    step();
    for (int i = 0; i < 17; ++i) {
        send(i % 3 == 0);
        if (i % 7 == 6)
            step();
    }
    step();
    send(0);
    step();
    lager::commit(store);
    CHECK(w.reduced == w.log.n, "an action was lost");
    CHECK(store.get().n == w.log.n && store.get().v == w.cur, "the store does not show the fold of its actions");
}
} // namespace
HARNESS(long_runs)
{
    lager::queue_event_loop q, t;
    lager::safe_queue_event_loop s;
    switch (sym::choice(4)) {
    case 0: long_run<lager::automatic_tag>([] { return lager::with_manual_event_loop{}; }, [] {}); break;
    case 1: long_run<lager::automatic_tag>([&] { return lager::with_queue_event_loop{q}; }, [&] { q.step(); }); break;
    case 2: long_run<lager::transactional_tag>([&] { return lager::with_queue_event_loop{t}; }, [&] { t.step(); }); break;
    default: long_run<lager::automatic_tag>([&] { return lager::with_safe_queue_event_loop{s}; }, [&] { s.step(); });
    }
    sym::reach("done");
}
