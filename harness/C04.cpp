//@ entry: attach mt reach=done,early,late
//@ entry: chain mt reach=done
//@ entry: join mt reach=done
//@ entry: join3 mt reach=done
//@ entry: store mt reach=done,waited
//@ bounds: one thread fulfils a promise while another attaches one continuation, or a chain of two (void, returning a completed, or returning a pending future); two threads fulfil the two parts of a joined future while the main one attaches, or three threads the three parts; two threads dispatch to a store on the thread safe queue and attach to the futures of their actions while the main one steps, and an effect may return a future that a third thread fulfils; all interleavings at locks, atomic operations, thread starts and joins (sequentially consistent), with the posted continuations run by the main thread afterwards, or (attach) also in between; data races and accesses to freed memory are violations
//@ outside: weak memory orders; more threads; a post function that is not thread safe
#include "common.hpp"
#include <atomic>
#include <cstddef>
#include <functional>
#include <mutex>
#include <cassert>
#include <stdexcept>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/future.hpp>
#include <lager/store.hpp>
#include <optional>

namespace {
// an event loop to which every thread may post
struct loop
{
    std::mutex m;
    std::function<void()> q[12];
    int n = 0, i = 0;
    void post(std::function<void()> f)
    {
        std::lock_guard<std::mutex> g{m};
        CHECK(n < 12, "harness: queue full");
        q[n++] = std::move(f);
    }
    void run(int max = 100)
    {
        for (; max; --max) {
            std::function<void()> f;
            {
                std::lock_guard<std::mutex> g{m};
                if (i == n)
                    return;
                f = std::move(q[i]);
                ++i;
            }
            f();
        }
    }
};
struct world
{
    loop l;
    std::optional<lager::promise> p[3];
    std::optional<lager::future> f[3];
    int a = 0, b = 0, c = 0, tid = -1, order[8] = {}, no = 0;
    unsigned kind = 0;
    bool begun[2] = {}, done2 = false;
    int make()
    {
        int i = 0;
        while (p[i])
            ++i;
        auto [x, y] = lager::promise::with_loop(l);
        p[i].emplace(std::move(x));
        f[i].emplace(std::move(y));
        return i;
    }
    int value[3] = {sym::any(), sym::any(), sym::any()};
    int fold     = 0;
    // the continuations carry arbitrary values
    void mark(int x, int v)
    {
        CHECK(v == value[x], "the continuation that runs is the one that was attached");
        order[no++] = x;
        fold        = sym::uf(1, fold, v);
    }
};
world* w;
void fulfil0(void*)
{
    w->begun[0] = true;
    (*w->p[0])();
}
void fulfil1(void*)
{
    w->begun[1] = true;
    (*w->p[1])();
}
} // namespace

HARNESS(attach)
{
    __libc_single_threaded = 0;
    world W;
    w = &W;
    W.make();
    int t1 = __lsym_thread_create(fulfil0, nullptr);
    int t2 = __lsym_thread_create([](void*) {
        std::move(*w->f[0]).then([v = w->value[0]] {
            CHECK(w->begun[0], "the continuation runs after the promise is fulfilled");
            w->mark(0, v);
            w->a++;
            w->tid = __lsym_tid();
        });
        w->f[0].reset();
    }, nullptr);
    W.l.run(1);
    if (W.a)
        sym::reach("early");
    __lsym_thread_join(t1);
    __lsym_thread_join(t2);
    if (!W.a)
        sym::reach("late");
    W.l.run();
    CHECK(W.a == 1, "the continuation is posted exactly once");
    CHECK(W.l.n == 1, "the continuation is posted exactly once");
    CHECK(W.tid == 0, "the continuation runs in the event loop");
    sym::observe(W.a);
    sym::reach("done");
}
// then(...).then(...): attached while the first promise is being fulfilled
HARNESS(chain)
{
    __libc_single_threaded = 0;
    world W;
    w      = &W;
    W.kind = sym::choice(3);
    W.make();
    if (W.kind == 2)
        W.make();
    int t1 = __lsym_thread_create(fulfil0, nullptr);
    int t2 = __lsym_thread_create([](void*) {
        auto last = [v = w->value[2]] { w->mark(2, v); };
        if (w->kind == 0)
            std::move(*w->f[0]).then([v = w->value[1]] { w->mark(1, v); }).then(last);
        else if (w->kind == 1)
            std::move(*w->f[0]).then([v = w->value[1]] {
                w->mark(1, v);
                return lager::future{};
            }).then(last);
        else
            std::move(*w->f[0]).then([v = w->value[1]] {
                w->mark(1, v);
                return std::move(*w->f[1]);
            }).then(last);
    }, nullptr);
    __lsym_thread_join(t1);
    __lsym_thread_join(t2);
    W.l.run();
    if (W.kind == 2) {
        CHECK(W.no == 1 && W.order[0] == 1, "a chained future waits for the future that the continuation returns");
        (*W.p[1])();
        W.l.run();
    }
    CHECK(W.no == 2 && W.order[0] == 1 && W.order[1] == 2, "chained continuations run exactly once, in order");
    CHECK(W.fold == sym::uf(1, sym::uf(1, 0, W.value[1]), W.value[2]), "chained continuations run exactly once, in order");
    sym::reach("done");
}
HARNESS(join)
{
    __libc_single_threaded = 0;
    world W;
    w = &W;
    W.make();
    W.make();
    int t1 = __lsym_thread_create(fulfil0, nullptr);
    int t2 = __lsym_thread_create(fulfil1, nullptr);
    std::move(*W.f[0]).also(std::move(*W.f[1])).then([] {
        CHECK(w->begun[0] && w->begun[1], "a joined future completes only after every part");
        w->a++;
    });
    W.f[0].reset();
    W.f[1].reset();
    __lsym_thread_join(t1);
    // the loop runs while the second part may be completing
    W.l.run(2);
    __lsym_thread_join(t2);
    W.l.run();
    CHECK(W.a == 1, "a joined future completes exactly once");
    sym::reach("done");
}
// three parts, and a continuation that is chained to the whole
HARNESS(join3)
{
    __libc_single_threaded = 0;
    world W;
    w      = &W;
    bool l = sym::choice(2); // (a.also(b)).also(c) or a.also(b.also(c))
    for (int i = 0; i < 3; ++i)
        W.make();
    int t1 = __lsym_thread_create(fulfil0, nullptr);
    int t2 = __lsym_thread_create(fulfil1, nullptr);
    int t3 = __lsym_thread_create([](void*) {
        w->done2 = true;
        (*w->p[2])();
    }, nullptr);
    auto all = l ? std::move(*W.f[0]).also(std::move(*W.f[1])).also(std::move(*W.f[2])) : std::move(*W.f[0]).also(std::move(*W.f[1]).also(std::move(*W.f[2])));
    std::move(all).then([v = w->value[1]] {
                      CHECK(w->begun[0] && w->begun[1] && w->done2, "a joined future completes only after every part");
                      w->mark(1, v);
                  })
        .then([v = w->value[2]] { w->mark(2, v); });
    for (auto& f : W.f)
        f.reset();
    __lsym_thread_join(t1);
    __lsym_thread_join(t2);
    __lsym_thread_join(t3);
    W.l.run();
    CHECK(W.no == 2 && W.order[0] == 1 && W.order[1] == 2, "a joined future completes exactly once");
    CHECK(W.fold == sym::uf(1, sym::uf(1, 0, W.value[1]), W.value[2]), "chained continuations run exactly once, in order");
    sym::reach("done");
}
// a store on a thread safe loop: two threads dispatch, and attach to the futures of their actions; an effect hands out a promise that a third thread fulfils
namespace {
struct sworld
{
    lager::safe_queue_event_loop loop;
    std::optional<lager::context<int>> ctx[2];
    std::optional<lager::promise> p;
    int act[2] = {}, ran[2] = {}, tid = 0, kind = 0, effects = 0;
    bool asked = false, given = false;
    void steps(int n)
    {
        while (n--)
            loop.step();
    }
};
sworld* sw;
template <int I>
void dispatcher(void*)
{
    sw->ctx[I]->dispatch(sw->act[I]).then([] {
        sw->ran[I]++;
        sw->tid |= __lsym_tid();
    });
}
} // namespace
HARNESS(store)
{
    __libc_single_threaded = 0;
    sworld W;
    sw       = &W;
    W.kind   = (int) sym::choice(2);
    W.act[0] = sym::any();
    W.act[1] = sym::any();
    auto st  = lager::make_store<int>(sym::any(), lager::with_safe_queue_event_loop{W.loop}, lager::with_futures, lager::with_reducer([](int m, int a) -> lager::result<int, int> {
                                         return {sym::uf(1, m, a), [](auto&& ctx) {
                                                     sw->effects++;
                                                     if (sw->kind == 0 || sw->asked)
                                                         return lager::future{};
                                                     sw->asked = true;
                                                     auto [p, f] = lager::promise::with_loop(sw->loop);
                                                     sw->p.emplace(std::move(p));
                                                     return std::move(f);
                                                 }};
                                     }));
    int m0   = st.get();
    W.ctx[0].emplace(st);
    W.ctx[1].emplace(st);
    int t1 = __lsym_thread_create(dispatcher<0>, nullptr);
    int t2 = __lsym_thread_create(dispatcher<1>, nullptr);
    W.steps(1);
    __lsym_thread_join(t1);
    __lsym_thread_join(t2);
    W.steps(4);
    int x = sym::uf(1, sym::uf(1, m0, W.act[0]), W.act[1]);
    int y = sym::uf(1, sym::uf(1, m0, W.act[1]), W.act[0]);
    CHECK(st.get() == x || st.get() == y, "the actions are applied, in the order in which they were posted");
    CHECK(W.effects == 2, "the effects run once");
    if (W.kind == 1) {
        CHECK(W.ran[0] + W.ran[1] == 1, "the continuation waits for the future that the effect returns");
        int t3 = __lsym_thread_create([](void*) { (*sw->p)(); }, nullptr);
        W.steps(1);
        __lsym_thread_join(t3);
        W.steps(3);
        sym::reach("waited");
    }
    CHECK(W.ran[0] == 1 && W.ran[1] == 1 && W.tid == 0, "the continuation of a dispatch runs exactly once, in the event loop");
    W.steps(2);
    CHECK(W.ran[0] == 1 && W.ran[1] == 1 && W.effects == 2, "the continuation of a dispatch runs exactly once, in the event loop");
    sym::reach("done");
}
