//@ entry: same reach=done,effect
//@ entry: history reach=done,rewound,refused,discarded
//@ entry: effects reach=done,resumed
//@ entry: deferred reach=done
//@ entry: long_history reach=done
//@ bounds: any sequence of 6 (thorough: 7) operations, or 5 (6) for actions with effects and 4 (5) for the deferred loop, out of an action, undo, redo, goto (arbitrary position), pause and resume; action values arbitrary, reducer uninterpreted, actions with no effect, an effect through a dependency, or one that dispatches a further action; loop that runs at once or when asked; a history of 14 actions with goto any position, undo and redo beyond both ends, and an action in the middle of it
//@ outside: the serialisation of the history (C31) and the HTTP server (C41); histories of more than 14 actions; actions that throw
#include "debugger.hpp"
#include <lager/debug/debugger.hpp>

namespace {
using namespace dbg;
template <class Reducer, class Deps>
struct world
{
    using D = lager::debugger<act, M, Deps>;
    loop_state ls;
    svc s;
    server<D> srv;
    // oracle
    slog<int> ha, hm; // actions and models
    act pend[16];
    int np = 0, cur = 0, init;
    bool paused = false;
    slog<int> fx, fxon;
    int resumes = 0, pauses = 0;

    world(int i)
        : init{i}
    {
        s.ls = &ls;
    }
    int model(int at) const { return at == 0 ? init : hm[at - 1]; }
    void apply(act a)
    {
        int m = red(model(cur), a.v);
        if (cur < ha.n)
            sym::reach("discarded");
        ha.n = hm.n = cur;
        ha.push(a.v);
        hm.push(m);
        cur = ha.n;
    }
    // the effects of the actions applied together, then the actions they dispatch
    void settle(const act* as, int n)
    {
        act next[16];
        int k = 0;
        for (int i = 0; i < n; ++i)
            if (as[i].kind) {
                fx.push(as[i].v);
                fxon.push(resumes);
                if (as[i].kind == 2)
                    next[k++] = act{as[i].next, 1, 0};
            }
        for (int i = 0; i < k; ++i)
            act_(next[i]);
    }
    void act_(act a)
    {
        if (paused) {
            pend[np++] = a;
        } else {
            apply(a);
            settle(&a, 1);
        }
    }
    void resume()
    {
        paused = false;
        resumes++;
        int n = np;
        np    = 0;
        for (int i = 0; i < n; ++i)
            apply(pend[i]);
        settle(pend, n);
    }
    // one operation, on the store and on the oracle
    void op(bool effects)
    {
        using A  = typename D::action;
        auto& ctx = *srv.h->ctx;
        switch (sym::choice(6)) {
        case 0: {
            act a{sym::any(), 0, 0};
            if (effects && (a.kind = (int) sym::choice(3)) == 2)
                a.next = sym::any();
            ctx.dispatch(A{a});
            act_(a);
            break;
        }
        case 1:
            ctx.dispatch(A{typename D::undo_action{}});
            if (cur > 0) {
                cur--;
                sym::reach("rewound");
            }
            break;
        case 2:
            ctx.dispatch(A{typename D::redo_action{}});
            cur += cur < ha.n;
            break;
        case 3: {
            std::size_t p = sym::any<std::size_t>();
            ctx.dispatch(A{typename D::goto_action{p}});
            if (p <= (std::size_t) ha.n)
                for (int i = 0; i <= ha.n; ++i) {
                    if (p == (std::size_t) i)
                        cur = i;
                }
            else
                sym::reach("refused");
            break;
        }
        case 4:
            ctx.dispatch(A{typename D::pause_action{}});
            paused = true;
            pauses++;
            break;
        default:
            if (np)
                sym::reach("resumed");
            ctx.dispatch(A{typename D::resume_action{}});
            resume();
        }
    }
    template <class Store>
    void check(Store& store)
    {
        const typename D::model& m = store.get();
        CHECK(static_cast<const M&>(m).v == model(cur), "the store shows the recorded model at the position");
        CHECK(m.history.size() == (std::size_t) ha.n, "the history records every action");
        CHECK(m.cursor == (std::size_t) cur && m.paused == paused && m.init.v == init, "the position, mode and initial model are kept");
        for (int i = 0; i < ha.n; ++i)
            CHECK((m.history[i].action.v == ha[i]) & (m.history[i].model.v == hm[i]), "the history records every action with the model it produced");
        for (int i = 0; i <= ha.n; ++i) {
            auto l = m.lookup(i);
            CHECK(l.second.v == model(i), "a recorded position can be looked up");
            CHECK(l.first.has_value() == (i > 0) && (i == 0 || l.first->v == ha[i - 1]), "a recorded position can be looked up");
        }
        CHECK(m.pending.size() == (std::size_t) np, "while paused actions are only queued");
        for (int i = 0; i < np; ++i)
            CHECK((m.pending[i].v == pend[i].v) & (m.pending[i].kind == pend[i].kind), "while paused actions are only queued");
        CHECK(m.summary() == (std::size_t) ha.n, "the summary counts the history");
        const typename D::model& rm = srv.h->r.get();
        CHECK(rm.cursor == m.cursor && rm.history.size() == m.history.size() && rm.paused == m.paused && static_cast<const M&>(rm).v == static_cast<const M&>(m).v,
              "the debugger sees the same model as the store");
        CHECK(s.ran.n == fx.n, "every effect runs once");
        for (int i = 0; i < fx.n; ++i) {
            CHECK(s.ran[i] == fx[i], "the effects run in order");
            CHECK(s.on[i] == fxon[i], "the effects of the queued actions run on a loop that has been resumed");
        }
        CHECK(ls.resumes == resumes && ls.pauses == pauses, "pausing pauses the loop and resuming resumes it");
    }
};
} // namespace

// without time travel: as without the debugger
HARNESS(same)
{
    int i = sym::any();
    using W = world<with_effects, stored_t>;
    W w{i};
    loop_state ls2;
    svc s2;
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_deps(std::ref(w.s)), lager::with_reducer(with_effects{}), lager::with_debugger(w.srv));
    auto ref   = lager::make_store<act>(M{i}, loop{&ls2}, lager::with_deps(std::ref(s2)), lager::with_reducer(with_effects{}));
    lager::reader<M> r = store.map([](const M& m) { return m; });
    int calls = 0, calls2 = 0;
    r.watch([&](const M&) { calls++; });
    ref.watch([&](const M&) { calls2++; });
    for (int k = 0; k < bound(3, 4); ++k) {
        act a{sym::any(), (int) sym::choice(3), 0};
        if (a.kind == 2)
            a.next = sym::any();
        store.dispatch(a);
        ref.dispatch(a);
        CHECK(r.get().v == ref.get().v, "the models are the same as without the debugger");
        CHECK(static_cast<const M&>(store.get()).v == ref.get().v, "the models are the same as without the debugger");
        CHECK(w.s.ran.n == s2.ran.n, "the effects are the same as without the debugger");
        for (int j = 0; j < s2.ran.n; ++j)
            CHECK(w.s.ran[j] == s2.ran[j], "the effects are the same as without the debugger");
        CHECK(calls == calls2, "the notifications are the same as without the debugger");
        if (s2.ran.n)
            sym::reach("effect");
    }
    sym::reach("done");
}
HARNESS(history)
{
    int i = sym::any();
    world<plain, lager::deps<>> w{i};
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_reducer(plain{}), lager::with_debugger(w.srv));
    w.check(store);
    for (int k = 0; k < bound(6, 7); ++k) {
        w.op(false);
        w.check(store);
    }
    // positions that were not recorded are refused
    const auto& m = store.get();
    auto p        = sym::any<std::size_t>();
    sym::assume(p > (std::size_t) w.ha.n);
    bool threw = false;
    try {
        m.lookup(p);
    } catch (const std::runtime_error&) {
        threw = true;
    }
    CHECK(threw, "a position that was not recorded is refused");
    sym::reach("done");
}
HARNESS(effects)
{
    int i = sym::any();
    world<with_effects, stored_t> w{i};
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_deps(std::ref(w.s)), lager::with_reducer(with_effects{}), lager::with_debugger(w.srv));
    for (int k = 0; k < bound(5, 6); ++k) {
        w.op(true);
        w.check(store);
    }
    sym::reach("done");
}
// a loop that runs later: everything that was dispatched is applied in order
HARNESS(deferred)
{
    int i = sym::any();
    world<plain, lager::deps<>> w{i};
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_reducer(plain{}), lager::with_debugger(w.srv));
    w.ls.deferred = true;
    for (int k = 0; k < bound(4, 5); ++k) {
        w.op(false);
        if (sym::flip()) {
            w.ls.run();
            w.check(store);
        }
    }
    w.ls.run();
    w.check(store);
    sym::reach("done");
}
// a long history
HARNESS(long_history)
{
    using A = world<plain, lager::deps<>>::D::action;
    using D = world<plain, lager::deps<>>::D;
    int i   = sym::any();
    world<plain, lager::deps<>> w{i};
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_reducer(plain{}), lager::with_debugger(w.srv));
    auto& ctx  = *w.srv.h->ctx;
    constexpr int N = 14;
    for (int k = 0; k < N; ++k) {
        act a{sym::any(), 0, 0};
        ctx.dispatch(A{a});
        w.act_(a);
    }
    w.check(store);
    int p = (int) sym::choice(N + 1);
    ctx.dispatch(A{D::goto_action{(std::size_t) p}});
    w.cur = p;
    w.check(store);
    int n = sym::flip() ? 1 : N + 2;
    bool back = sym::flip();
    for (int k = 0; k < n; ++k) {
        if (back)
            ctx.dispatch(A{D::undo_action{}});
        else
            ctx.dispatch(A{D::redo_action{}});
        w.cur += back ? -(w.cur > 0) : w.cur < N;
    }
    w.check(store);
    act a{sym::any(), 0, 0};
    ctx.dispatch(A{a});
    w.act_(a);
    w.check(store);
    sym::reach("done");
}
