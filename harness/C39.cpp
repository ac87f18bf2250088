//@ entry: posts reach=done,nested
//@ entry: store reach=done,stopped
//@ entry: async mt reach=done,waited,early
//@ stub: the Boost.Asio executor: a first in first out executor with Asio's executor interface that counts outstanding work (lager is generic in the executor; boost::asio::post and executor_work_guard are Asio's own code); the start of a thread of std::thread
//@ bounds: histories of 4 (thorough: 5) posts and steps, posted functions post up to 2 further ones; a store with 3 dispatches, effects, pause, resume and finish; one function started with async while the main thread looks at the executor: all interleavings
//@ outside: io_context, strands and other executors; several async functions at once; a thread that cannot be started
#include "common.hpp"
#include <atomic>
#include <functional>
#include <mutex>
#include <thread>

// std::thread on the threads of the harness
static int started = -1;
void std::thread::_M_start_thread(_State_ptr s, void (*)())
{
    started   = __lsym_thread_create([](void* p) {
        std::unique_ptr<_State> s{(_State*) p};
        s->_M_run();
    }, s.release());
    _M_id     = id{(native_handle_type) 1};
}
void std::thread::detach() { _M_id = id{}; }

#include <lager/event_loop/boost_asio.hpp>
#include <lager/store.hpp>

namespace c39 {
struct exec_state
{
    std::function<void()> q[24];
    int head = 0, tail = 0;
    std::atomic<int> work{0};
    bool run_one()
    {
        if (head == tail)
            return false;
        auto f = std::move(q[head++]);
        f();
        return true;
    }
};
// a copyable function from one that may only be moved
template <class F>
struct shared_fn
{
    std::shared_ptr<F> f;
    void operator()() { (*f)(); }
};
struct executor
{
    exec_state* s;
    boost::asio::execution_context& context() const noexcept { return *(boost::asio::execution_context*) s; }
    void on_work_started() const noexcept { ++s->work; }
    void on_work_finished() const noexcept { --s->work; }
    template <class F, class A>
    void post(F&& f, const A&) const
    {
        CHECK(s->tail < 24, "harness: queue full");
        s->q[s->tail++] = shared_fn<std::decay_t<F>>{std::make_shared<std::decay_t<F>>(std::forward<F>(f))};
    }
    template <class F, class A>
    void defer(F&& f, const A& a) const
    {
        post(std::forward<F>(f), a);
    }
    template <class F, class A>
    void dispatch(F&& f, const A&) const
    {
        std::decay_t<F> g(std::forward<F>(f));
        g();
    }
    friend bool operator==(const executor& a, const executor& b) noexcept { return a.s == b.s; }
    friend bool operator!=(const executor& a, const executor& b) noexcept { return a.s != b.s; }
};
struct act
{
    int v, kind;
};
} // namespace c39
using namespace c39;
using loop_t = lager::with_boost_asio_event_loop<executor>;

HARNESS(posts)
{
    exec_state s;
    loop_t loop{executor{&s}};
    struct
    {
        int posted = 0, ran = 0, budget = 3;
        bool in = false;
        std::function<void()> post;
    } w;
    w.post = [&] {
        int id     = w.posted++;
        int before = w.ran;
        loop.post([&w, id] {
            CHECK(!w.in, "a posted function runs by itself");
            w.in = true;
            CHECK(id == w.ran, "posted functions run exactly once, in posting order");
            w.ran++;
            for (int k = w.budget ? sym::choice(3) : 0; k && w.budget; --k) {
                w.budget--;
                w.post();
                sym::reach("nested");
            }
            w.in = false;
        });
        CHECK(w.ran == before, "post runs nothing");
    };
    for (int i = 0; i < bound(4, 5); ++i) {
        switch (sym::choice(4)) {
        case 0: w.post(); break;
        case 1: s.run_one(); break;
        case 2: loop.pause(); break;
        case 3: loop.resume(); break;
        }
    }
    while (s.run_one())
        ;
    CHECK(w.ran == w.posted, "posted functions run exactly once, in posting order");
    CHECK(s.work == 0, "no work is outstanding in the end");
    sym::observe(w.ran);
    sym::reach("done");
}
HARNESS(store)
{
    exec_state s;
    int stops = 0, effects = 0, m = sym::any();
    bool has = sym::choice(2);
    loop_t loop = has ? loop_t{executor{&s}, [&] { stops++; }} : loop_t{executor{&s}};
    auto st = lager::make_store<act>(int{m}, loop, lager::with_reducer([&](int x, act y) -> lager::result<int, act> {
                                        return {sym::uf(1, x, y.v), [&effects, y](auto&& ctx) {
                                                    effects++;
                                                    switch (y.kind) {
                                                    case 1: ctx.loop().finish(); break;
                                                    case 2: ctx.loop().pause(); break;
                                                    case 3: ctx.loop().resume(); break;
                                                    default: break;
                                                    }
                                                }};
                                    }));
    int n = 0, expect = 0;
    for (int i = 0; i < 3; ++i) {
        act a{sym::any(), (int) sym::choice(4)};
        expect += a.kind == 1;
        st.dispatch(a);
        CHECK(effects == n, "dispatch runs nothing");
        m = sym::uf(1, m, a.v);
        if (sym::choice(2)) {
            while (s.run_one())
                ;
            n = i + 1;
            CHECK(effects == n, "the effect of an action runs once");
        }
    }
    while (s.run_one())
        ;
    CHECK(effects == 3, "the effect of an action runs once");
    CHECK(st.get() == m, "actions are processed once, in order");
    CHECK(stops == (has ? expect : 0), "finish calls the given stop function");
    if (stops)
        sym::reach("stopped");
    sym::observe(st.get());
    sym::reach("done");
}
HARNESS(async)
{
    __libc_single_threaded = 0;
    exec_state s;
    static exec_state* sp;
    static std::atomic<int> calls, finished;
    static int tid, busy;
    sp       = &s;
    calls    = 0;
    finished = 0;
    started  = -1;
    busy     = 1;
    {
        loop_t loop{executor{&s}};
        loop.async([] {
            tid = __lsym_tid();
            calls++;
            busy = sp->work;
            finished = 1;
        });
        // (the loop itself may be gone while the function runs)
    }
    int c = s.work;
    if (finished)
        sym::reach("early");
    else {
        sym::reach("waited");
        CHECK(c > 0, "work started with async keeps the executor busy until it returns");
    }
    CHECK(started == 1, "async starts a thread");
    __lsym_thread_join(1);
    CHECK(calls == 1 && tid == 1, "a function started with async runs once, on a thread of its own");
    CHECK(busy > 0, "work started with async keeps the executor busy until it returns");
    CHECK(s.work == 0, "no work is outstanding in the end");
    sym::reach("done");
}
