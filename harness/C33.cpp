//@ entry: plain_reducer reach=done,thunk,nested,future
//@ entry: effect_reducer reach=done,thunk,nested,future
//@ entry: transactional reach=done,thunk,nested,future
//@ entry: manual reach=done,thunk,nested
//@ entry: dependencies reach=done
//@ bounds: any sequence of 3 (thorough: 4) operations out of dispatching an action (with or without an effect that dispatches another one), dispatching a thunk (that does nothing, dispatches an action through its context, dispatches another thunk, returns the future of an action it dispatched, or a future that completes later), and loop steps; compared step by step with a store without thunks where an equivalent action with that effect is dispatched; payloads and initial model arbitrary, reducer arbitrary (uninterpreted)
//@ outside: several nested enhancers of this kind
#include "common.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

namespace {
using namespace lager;
struct act
{
    int v;
    int kind; // 1: has an effect dispatching another action
};
enum thunk_kind
{
    t_nothing,
    t_action,
    t_thunk,
    t_future,
    t_pending,
    t_count
};
// the log of what one of the two systems did
struct system_log
{
    slog<int> ran;   // thunk ids, effects as 100 + value order
    slog<int> seen;  // what watchers were told
    slog<int> done;  // completed dispatches
    slog<int> red;   // values reduced
    slog<int> model; // model at the time a thunk ran
};
struct plain_tag
{};
// the same thing as an ordinary action
struct run
{
    int id, kind, v;
};
using wide = std::variant<act, run>;

struct sys
{
    queue_event_loop q;
    system_log l;
    promise pending[8] = {promise::invalid().first, promise::invalid().first, promise::invalid().first, promise::invalid().first, promise::invalid().first, promise::invalid().first, promise::invalid().first, promise::invalid().first};
    bool is_pending[8] = {};
    std::function<int()> get;
    std::function<future(act)> dispatch_action;
    std::function<future(run)> dispatch_thunk;
    // what a thunk does, with its context
    template <class Ctx>
    future body(run r, const Ctx& ctx)
    {
        l.ran.push(r.id);
        l.model.push(get());
        sym::reach("thunk");
        switch (r.kind) {
        case t_action: ctx.dispatch(act{r.v, 0}); return {};
        case t_thunk: sym::reach("nested"); dispatch_thunk({r.id + 4, t_action, r.v}); return {};
        case t_future: return ctx.dispatch(act{r.v, 1});
        case t_pending: {
            sym::reach("future");
            auto [p, f]      = promise::with_loop(q);
            pending[r.id]    = p;
            is_pending[r.id] = true;
            return std::move(f);
        }
        default: return {};
        }
    }
    void complete(int id)
    {
        if (is_pending[id]) {
            is_pending[id] = false;
            pending[id]();
        }
    }
};
void same(const slog<int>& a, const slog<int>& b, const char* what)
{
    __lsym_assert(a.n == b.n, what);
    bool eq = true;
    for (int i = 0; i < a.n; ++i)
        eq &= a[i] == b[i];
    __lsym_assert(eq, what);
}
void compare(sys& a, sys& b)
{
    same(a.l.red, b.l.red, "actions are reduced as without thunks");
    same(a.l.ran, b.l.ran, "thunks and effects run once, in order");
    same(a.l.model, b.l.model, "a thunk sees the model of the actions before it");
    same(a.l.seen, b.l.seen, "watchers are told the same as without thunks");
    same(a.l.done, b.l.done, "a dispatch completes after the thunk and what it returned completed");
    CHECK(a.get() == b.get(), "the model is the same as without thunks");
}
int step(sys& s, int m, act a)
{
    s.l.red.push(a.v);
    return sym::uf(1, m, a.v);
}
template <bool Effects>
auto thunk_reducer(sys& s)
{
    if constexpr (Effects)
        return [&s](int m, act a) -> result<int, act> {
            int n = step(s, m, a);
            if (a.kind == 1)
                return {n, [&s, a](auto&& ctx) {
                            s.l.ran.push(1000 + a.kind);
                            ctx.dispatch(act{sym::uf(2, a.v), 0});
                        }};
            return n;
        };
    else
        return [&s](int m, act a) { return step(s, m, a); };
}
template <bool Effects>
auto plain_reducer_for(sys& s)
{
    return [&s](int m, wide w) -> result<int, wide> {
        if (auto p = std::get_if<act>(&w)) {
            act a = *p;
            int n = step(s, m, a);
            if (Effects && a.kind == 1)
                return {n, [&s, a](auto&& ctx) {
                            s.l.ran.push(1000 + a.kind);
                            ctx.dispatch(act{sym::uf(2, a.v), 0});
                        }};
            return n;
        }
        run r = std::get<run>(w);
        return {m, [&s, r](auto&& ctx) { return s.body(r, ctx); }};
    };
}
template <class Store>
void connect(sys& s, Store& st, bool thunks)
{
    s.get = [&st] { return st.get(); };
    s.dispatch_action = [&st](act a) { return st.dispatch(a); };
    if constexpr (!std::is_same_v<typename Store::action_t, wide>)
        s.dispatch_thunk = [&s, &st](run r) { return st.dispatch([&s, r](context<act> ctx) { return s.body(r, ctx); }); };
    else
        s.dispatch_thunk = [&st](run r) { return st.dispatch(r); };
    watch(st, [&s](int x) { s.l.seen.push(x); });
}
template <class A, class B, class Settle>
void history(sys& a, A& with, sys& b, B& without, Settle settle, bool pendings)
{
    connect(a, with, true);
    connect(b, without, false);
    int thunks = 0, n = 0;
    for (int i = 0; i < bound(3, 4); ++i) {
        unsigned op = sym::choice(2 + (pendings ? t_count : t_pending) + (i ? 1 : 0));
        int v = sym::any();
        if (op < 2) {
            for (sys* s : {&a, &b})
                s->dispatch_action({v, (int) op}).then([s, n] { s->l.done.push(n); });
        } else if (op < 2u + (pendings ? t_count : t_pending)) {
            int before = with.get();
            for (sys* s : {&a, &b})
                s->dispatch_thunk({thunks, (int) op - 2, v}).then([s, n] { s->l.done.push(n); });
            ++thunks;
            if (op - 2 == t_nothing)
                CHECK(with.get() == before, "a thunk leaves the model unchanged");
        } else
            settle();
        ++n;
        compare(a, b);
    }
    for (int t = 0; t < 12; ++t) {
        settle();
        compare(a, b);
        if (t == 4)
            for (int k = 0; k < 4; ++k) {
                a.complete(k);
                b.complete(k);
            }
    }
    for (int k = 0; k < thunks; ++k)
        CHECK(a.l.ran.count(k) == 1, "every thunk runs exactly once");
    sym::reach("done");
}
} // namespace
HARNESS(plain_reducer)
{
    sys a, b;
    int m  = sym::any();
    auto s = make_store<act>(m, with_queue_event_loop{a.q}, with_futures, with_reducer(thunk_reducer<false>(a)), with_thunk());
    auto t = make_store<wide>(m, with_queue_event_loop{b.q}, with_futures, with_reducer(plain_reducer_for<false>(b)));
    history(a, s, b, t, [&] { a.q.step(); b.q.step(); }, true);
}
HARNESS(effect_reducer)
{
    sys a, b;
    int m  = sym::any();
    auto s = make_store<act>(m, with_queue_event_loop{a.q}, with_futures, with_reducer(thunk_reducer<true>(a)), with_thunk());
    auto t = make_store<wide>(m, with_queue_event_loop{b.q}, with_futures, with_reducer(plain_reducer_for<true>(b)));
    history(a, s, b, t, [&] { a.q.step(); b.q.step(); }, true);
}
HARNESS(transactional)
{
    sys a, b;
    int m  = sym::any();
    auto s = make_store<act, transactional_tag>(m, with_queue_event_loop{a.q}, with_futures, with_reducer(thunk_reducer<true>(a)), with_thunk());
    auto t = make_store<wide, transactional_tag>(m, with_queue_event_loop{b.q}, with_futures, with_reducer(plain_reducer_for<true>(b)));
    history(a, s, b, t, [&] { a.q.step(); b.q.step(); commit(s); commit(t); }, true);
}
HARNESS(manual)
{
    sys a, b;
    int m  = sym::any();
    auto s = make_store<act>(m, with_manual_event_loop{}, with_reducer(thunk_reducer<true>(a)), with_thunk());
    auto t = make_store<wide>(m, with_manual_event_loop{}, with_reducer(plain_reducer_for<true>(b)));
    history(a, s, b, t, [] {}, false);
}
HARNESS(dependencies)
{
    int svc = 0, ran = 0, x = sym::any();
    sys l;
    auto s = make_store<act>(0, with_manual_event_loop{}, with_deps(std::ref(svc)), with_reducer([&](int m, act a) -> result<int, act, deps<int&>> {
        return {a.v, [&, a](auto&& ctx) {
                    CHECK(&get<int>(ctx) == &svc, "dependencies reach thunks and effects");
                    ++ran;
                }};
    }), with_thunk());
    s.dispatch([&](context<act, deps<int&>> ctx) {
        CHECK(&get<int>(ctx) == &svc, "dependencies reach thunks and effects");
        ++ran;
        ctx.dispatch(act{x, 0});
        CHECK(s.get() == 0, "a nested dispatch waits for the loop");
    });
    CHECK((ran == 2) & (s.get() == x), "thunks and effects run once");
    auto u = std::move(s);
    u.dispatch([&](auto&& ctx) { ++ran; });
    CHECK(ran == 3, "thunks and effects run once");
    sym::reach("done");
}
