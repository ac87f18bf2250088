//@ entry: auto_manual reach=done,continued,inner-future,waits
//@ entry: auto_queue reach=done,continued,inner-future,waits
//@ entry: trans_queue reach=done,continued,inner-future,waits
//@ entry: disabled reach=done
//@ entry: invalid_chain reach=done
//@ entry: raw_effects reach=done,waited
//@ entry: satisfied_twice reach=done
//@ entry: long_chains reach=done
//@ bounds: 2 (thorough: 3) dispatched actions, each without effect, with a void effect, an effect returning the future of a nested dispatch, or an effect returning the future of an external promise that is fulfilled later; continuations attached immediately, after the completion, chained (then returning a future) or joined (also); every interleaving of these with loop steps, up to 3 (4) extra operations; reducers that return a function of their own as effect (without result, with an empty future, with one that is fulfilled later); a chain of 12 continuations each of which returns a future that completes later, and a join of 12 futures that complete in any of three orders
//@ outside: continuations attached from other threads (C04); more actions in flight, in other orders
#include "common.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/store.hpp>
#include <optional>

namespace {
struct model
{
    int v, n;
    friend bool operator==(const model& a, const model& b) { return (a.v == b.v) & (a.n == b.n); }
    friend bool operator!=(const model& a, const model& b) { return !(a == b); }
};
struct action
{
    int v;
    int kind; // 0 none, 1 void effect, 2 effect returning future of a nested dispatch, 3 effect returning an external future
    int id;
};
constexpr int MAXA = 10;
struct world
{
    bool reduced[MAXA] = {}, effDone[MAXA] = {}, ext[MAXA] = {};
    int nested[MAXA];      // id of nested action or -1
    int kind[MAXA];
    int cont[MAXA] = {};   // continuation calls
    int pos[MAXA]; // how many actions had been reduced, this one included
    int nextId = 0, nred = 0;
    bool automatic;
    bool inLoop = false, manual = false;
    std::optional<lager::promise> prom[MAXA];
    std::function<void(std::function<void()>)> post;
    const lager::reader<model>* rd = nullptr;
    bool complete(int i)
    {
        if (!reduced[i]) return false;
        if (kind[i] == 0) return true;
        if (!effDone[i]) return false;
        if (kind[i] == 2 && !complete(nested[i])) return false;
        if (kind[i] == 3 && !ext[i]) return false;
        return true;
    }
};

struct reducer
{
    world* w;
    std::pair<model, lager::effect<action>> operator()(model m, action a) const
    {
        w->reduced[a.id] = true;
        w->pos[a.id] = ++w->nred;
        auto r  = model{a.v, m.n + 1};
        auto w_ = w;
        switch (a.kind) {
        case 0: return {r, lager::noop};
        case 1: return {r, [w_, a](const lager::context<action>&) { w_->effDone[a.id] = true; }};
        case 2:
            return {r, [w_, a](const lager::context<action>& ctx) -> lager::future {
                        w_->effDone[a.id] = true;
                        int id            = w_->nextId++;
                        w_->nested[a.id]  = id;
                        w_->kind[id]      = sym::choice(2);
                        sym::reach("inner-future");
                        return ctx.dispatch(action{sym::any(), w_->kind[id], id});
                    }};
        default:
            return {r, [w_, a](const lager::context<action>&) -> lager::future {
                        w_->effDone[a.id] = true;
                        auto [p, f]       = lager::promise::with_post(w_->post);
                        w_->prom[a.id]    = std::move(p);
                        return std::move(f);
                    }};
        }
    }
};

void continued(world* w, int id)
{
    w->cont[id]++;
    sym::reach("continued");
    CHECK(w->cont[id] == 1, "continuation called more than once");
    CHECK(w->complete(id), "continuation called before the action and its effects completed");
    CHECK(w->inLoop, "continuation called outside of the event loop");
    if (w->automatic)
        CHECK(w->rd->get().n >= w->pos[id], "continuation called before the model was visible");
}

template <class Tag, class MakeLoop, class Post, class Step>
void scenario(bool manual, MakeLoop makeLoop, Post post, Step step)
{
    world w;
    w.manual    = manual;
    w.automatic = std::is_same_v<Tag, lager::automatic_tag>;
    auto store  = lager::make_store<action, Tag>(model{0, 0}, makeLoop(), lager::with_reducer(reducer{&w}), lager::with_futures);
    lager::reader<model> rd = store;
    w.rd                    = &rd;
    w.post                  = post;
    // the manual loop runs inside the outermost dispatch/post
    auto enter = [&] { w.inLoop = true; };
    auto leave = [&] { w.inLoop = false; };
    auto run   = [&] {
        enter();
        step();
        leave();
    };
    auto fulfil = [&] {
        for (int i = 0; i < w.nextId; ++i)
            if (w.prom[i] && !w.ext[i]) {
                w.ext[i] = true;
                if (manual) enter();
                (*w.prom[i])();
                if (manual) leave();
                return;
            }
    };
    lager::future late[MAXA];
    bool attached[MAXA] = {};
    int top[MAXA];
    int ntop = 0;
    int joined = 0, chained = 0, expectJoined = 0;
    auto attach = [&](int id, lager::future f) {
        attached[id] = true;
        auto wp      = &w;
        if (manual) enter();
        std::move(f).then([wp, id] { continued(wp, id); });
        if (manual) leave();
    };
    int A = bound(2, 3);
    for (int i = 0; i < A; ++i) {
        int id     = w.nextId++;
        w.kind[id] = sym::choice(4);
        top[ntop++] = id;
        if (manual) enter();
        auto f = store.dispatch(action{sym::any(), w.kind[id], id});
        if (manual) leave();
        CHECK(bool(f), "a future is returned when futures are enabled");
        switch (sym::choice(3)) {
        case 0: attach(id, std::move(f)); break;
        case 1: late[id] = std::move(f); break;
        case 2: {
            // chain: continuation, then a second one, joined with an already complete future
            attached[id] = true;
            auto wp      = &w;
            if (manual) enter();
            std::move(f).also(lager::future{}).then([wp, id, &chained] {
                continued(wp, id);
                chained++;
                return lager::future{};
            }).then([wp, id, &joined] {
                CHECK(wp->cont[id] == 1, "second continuation before the first");
                CHECK(wp->complete(id), "second continuation too early");
                joined++;
            });
            if (manual) leave();
            expectJoined++;
            break;
        }
        }
        switch (sym::choice(3)) {
        case 0: break;
        case 1: run(); break;
        case 2: fulfil(); break;
        }
    }
    run();
    for (int i = 0; i < w.nextId; ++i)
        if (!w.complete(i)) {
            CHECK(w.cont[i] == 0, "continuation before completion");
            sym::reach("waits");
        }
    for (int r = 0; r < 3; ++r) {
        fulfil();
        run();
    }
    for (int i = 0; i < ntop; ++i)
        if (!attached[top[i]])
            attach(top[i], std::move(late[top[i]]));
    run();
    run();
    lager::commit(store);
    for (int i = 0; i < w.nextId; ++i)
        CHECK(w.complete(i), "every action completes");
    for (int i = 0; i < ntop; ++i)
        CHECK(w.cont[top[i]] == 1, "the continuation of every dispatch ran exactly once");
    CHECK(joined == expectJoined, "the last continuation of every chain ran exactly once");
    CHECK(chained == expectJoined, "the first continuation of every chain ran exactly once");
    sym::observe(rd.get().v);
    sym::reach("done");
}
// a loop shared by reference, so that external promises use the same one as the store
struct wrap
{
    lager::with_manual_event_loop* l;
    template <class F>
    void post(F&& f) { l->post(std::forward<F>(f)); }
    template <class F>
    void async(F&& f) {}
    void finish() {}
    void pause() {}
    void resume() {}
};
} // namespace

HARNESS(auto_manual)
{
    // shared manual loop, so that external promises use the same one
    lager::with_manual_event_loop l;
    scenario<lager::automatic_tag>(true, [&] { return wrap{&l}; }, [&](std::function<void()> f) { l.post(std::move(f)); }, [] {});
}
HARNESS(auto_queue)
{
    lager::queue_event_loop q;
    scenario<lager::automatic_tag>(false, [&] { return lager::with_queue_event_loop{q}; }, [&](std::function<void()> f) { q.post(std::move(f)); }, [&] { q.step(); });
}
HARNESS(trans_queue)
{
    lager::queue_event_loop q;
    scenario<lager::transactional_tag>(false, [&] { return lager::with_queue_event_loop{q}; }, [&](std::function<void()> f) { q.post(std::move(f)); }, [&] { q.step(); });
}
// without futures enabled the future is empty and continuations run at once
HARNESS(disabled)
{
    lager::queue_event_loop q;
    bool two   = sym::flip();
    auto store = lager::make_store<int>(sym::any(), lager::with_queue_event_loop{q}, lager::with_reducer([](int m, int a) { return sym::uf(1, m, a); }));
    int m      = store.get();
    int c1 = 0, c2 = 0;
    int a  = sym::any();
    auto f = store.dispatch(a);
    CHECK(!bool(f), "the future must be empty without with_futures");
    auto g = std::move(f).then([&] { c1++; });
    CHECK(c1 == 1, "the continuation of an empty future runs immediately");
    CHECK(!bool(g), "and yields an empty future");
    if (two)
        std::move(g).then([&] { c2++; });
    CHECK(c2 == (two ? 1 : 0), "chained continuation");
    q.step();
    CHECK(store.get() == sym::uf(1, m, a), "model");
    CHECK(c1 == 1, "continuation not repeated");
    sym::observe(store.get());
    sym::reach("done");
}
// chains of n continuations over promises, completed before or after attaching
HARNESS(invalid_chain)
{
    lager::queue_event_loop q;
    auto post   = [&](std::function<void()> f) { q.post(std::move(f)); };
    auto [p, f] = lager::promise::with_post(post);
    auto [p2, f2] = lager::promise::with_post(post);
    slog<int> log;
    bool early = sym::flip(), early2 = sym::flip(), join = sym::flip();
    auto pp = p;
    if (early)
        p();
    if (early2)
        p2();
    if (join)
        std::move(f).also(std::move(f2)).then([&] { log.push(1); }).then([&] { log.push(2); });
    else
        std::move(f).then([&, f2 = f2]() mutable { log.push(0); return std::move(f2); }).then([&] { log.push(1); }).then([&] { log.push(2); });
    CHECK(log.n == 0, "continuations run in the event loop only");
    q.step();
    if (!early)
        CHECK(log.n == 0, "continuation before fulfilment");
    if (!early2)
        CHECK(log.count(1) == 0, "completed before both parts");
    if (!early)
        p();
    if (sym::flip())
        q.step();
    if (!early2) {
        CHECK(log.count(1) == 0, "completed before both parts");
        p2();
    }
    q.step();
    q.step();
    int k = join ? 0 : 1;
    CHECK(log.n == k + 2, "every continuation ran exactly once");
    if (!join)
        CHECK(log[0] == 0, "order");
    CHECK((log[k] == 1) & (log[k + 1] == 2), "order");
    sym::observe(log.n);
    sym::reach("done");
}

// reducers that return a function of their own as effect, instead of one wrapped in lager::effect
namespace {
template <class Tag, class Effect>
void raw(Effect eff, lager::queue_event_loop& q, std::function<bool(int)> complete, std::function<void()> fulfil)
{
    auto store = lager::make_store<int, Tag>(sym::any(), lager::with_queue_event_loop{q}, lager::with_futures, lager::with_reducer([eff](int m, int a) { return std::pair<int, Effect>{sym::uf(1, m, a), eff}; }));
    int v      = store.get();
    int n      = 0;
    for (int i = 0; i < bound(2, 3); ++i) {
        int a  = sym::any();
        v      = sym::uf(1, v, a);
        auto f = store.dispatch(a);
        CHECK(bool(f), "a future is returned when futures are enabled");
        auto cont = [&, i] {
            CHECK(n == i, "continuations run in order, once");
            CHECK(complete(i), "continuation called before the action and its effects completed");
            n++;
        };
        bool late = sym::flip();
        if (!late)
            std::move(f).then(cont);
        q.step();
        if (late)
            std::move(f).then(cont);
        if (!complete(i)) {
            q.step();
            CHECK(n == i, "continuation called before the action and its effects completed");
            sym::reach("waited");
            fulfil();
        } else
            sym::reach("waited");
        q.step();
        CHECK(n == i + 1, "the continuation of every dispatch ran exactly once");
        lager::commit(store);
        CHECK(store.get() == v, "the actions are reduced in order");
    }
    q.step();
    CHECK(n == bound(2, 3), "the continuation of every dispatch ran exactly once");
    sym::reach("done");
}
template <class Tag>
void raws()
{
    lager::queue_event_loop q;
    std::optional<lager::promise> p;
    int ran = 0, given = 0;
    switch (sym::choice(3)) {
    case 0: {
        auto e = [&ran](auto&&) { ran++; };
        raw<Tag>(e, q, [&](int i) { return ran > i; }, [] {});
        break;
    }
    case 1: {
        auto e = [&](auto&&) {
            ran++;
            auto [x, f] = lager::promise::with_loop(q);
            p.emplace(std::move(x));
            return std::move(f);
        };
        raw<Tag>(e, q, [&](int i) { return given > i; }, [&] {
            given++;
            (*p)();
        });
        break;
    }
    default: {
        auto e = [&](auto&&) {
            ran++;
            return lager::future{};
        };
        raw<Tag>(e, q, [&](int i) { return ran > i; }, [] {});
    }
    }
    CHECK(ran == bound(2, 3), "every effect runs once");
}
} // namespace
HARNESS(raw_effects)
{
    if (sym::flip())
        raws<lager::automatic_tag>();
    else
        raws<lager::transactional_tag>();
}
// a promise can be satisfied only once, and one without a loop never
HARNESS(satisfied_twice)
{
    lager::queue_event_loop q;
    auto [p, f] = lager::promise::with_loop(q);
    int n = 0, threw = 0;
    bool late = sym::flip(), step = sym::flip();
    if (!late)
        std::move(f).then([&] { n++; });
    p();
    if (step)
        q.step();
    if (late)
        std::move(f).then([&] { n++; });
    try {
        p();
    } catch (const std::runtime_error&) {
        threw++;
    }
    try {
        auto [i, g] = lager::promise::invalid();
        CHECK(!bool(g), "an invalid promise has an empty future");
        i();
    } catch (const std::runtime_error&) {
        threw++;
    }
    CHECK(threw == 2, "satisfying a promise again raises an error");
    q.step();
    CHECK(n == 1, "the continuation ran exactly once");
    sym::reach("done");
}
// long chains of continuations, and joins of many futures
HARNESS(long_chains)
{
    constexpr int N = 12;
    lager::queue_event_loop q;
    auto make = [&] { return lager::promise::with_loop(q); };
    {
        std::optional<lager::promise> ps[N + 1];
        slog<int> log;
        auto [p0, f] = make();
        ps[0]        = std::move(p0);
        lager::future g = std::move(f);
        for (int i = 0; i < N; ++i)
            g = std::move(g).then([&, i] {
                log.push(i);
                auto [p, f] = make();
                ps[i + 1]   = std::move(p);
                return std::move(f);
            });
        int end = 0;
        std::move(g).then([&] { end++; });
        for (int i = 0; i <= N; ++i) {
            CHECK(log.n == i && end == 0, "a continuation runs after the future of the previous one has completed");
            (*ps[i])();
            for (int k = 0; k < 3; ++k)
                q.step();
        }
        CHECK(log.n == N && end == 1, "every continuation of a chain runs exactly once");
        for (int i = 0; i < N; ++i)
            CHECK(log[i] == i, "the continuations of a chain run in order");
    }
    {
        std::optional<lager::promise> ps[N];
        lager::future g;
        for (int i = 0; i < N; ++i) {
            auto [p, f] = make();
            ps[i]       = std::move(p);
            g           = i ? std::move(g).also(std::move(f)) : std::move(f);
        }
        int end = 0;
        std::move(g).then([&] { end++; });
        unsigned order = sym::choice(3);
        for (int i = 0; i < N; ++i) {
            q.step();
            CHECK(end == 0, "a join completes after all of its parts");
            (*ps[order == 0 ? i : order == 1 ? N - 1 - i : (i * 5) % N])();
        }
        for (int k = 0; k < N + 2; ++k)
            q.step();
        CHECK(end == 1, "a join completes exactly once");
    }
    sym::reach("done");
}
