//@ entry: queue reach=done,nested,threw
//@ entry: safe_queue reach=done,nested,threw
//@ entry: not_implemented reach=done
//@ entry: many reach=done,threw
//@ bounds: up to 3 (thorough: 4) posts interleaved with steps, each task posting 0..2 further tasks (nesting depth up to 3, up to 10 tasks) with an arbitrary payload that decides by arbitrary predicates whether it throws before or after posting; all combinations; queue_event_loop and safe_queue_event_loop from the owner thread (including adopt()); 40 tasks waiting at once, and 40 more posted while they run, any one of which throws or none, with arbitrary payloads
//@ outside: larger task trees; step() called from inside a task
#include "common.hpp"
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>

namespace {
struct boom
{
    int id;
};
struct task_def
{
    int kids, depth;
    int value; // arbitrary, decides (by arbitrary predicates) whether it throws before or after posting
    bool calm;
    bool thrown;
};
template <class Loop>
struct world
{
    Loop loop;
    task_def def[24] = {};
    int n       = 0;
    int running = -1;
    int last    = -1;
    bool stepping = false;
    slog<int> started, posted;
    int budget;
    int make(int depth)
    {
        int id        = n++;
        def[id].depth = depth;
        def[id].value = sym::any<int>();
        def[id].kids  = (depth < 2 && budget > 0) ? (int) sym::choice(3) : 0;
        if (def[id].kids > budget)
            def[id].kids = budget;
        budget -= def[id].kids;
        return id;
    }
    void post(int id)
    {
        posted.push(id);
        int before = started.n;
        loop.post([this, id, v = def[id].value] {
            run(id, v);
            // the function object is intact until it returns
            last = id;
        });
        CHECK(started.n == before, "post must not run anything");
    }
    void run(int id, int v)
    {
        CHECK(v == def[id].value, "the function that runs is the one that was posted");
        CHECK(stepping, "work ran outside of step");
        CHECK(running == -1, "a task started while another one was running");
        running = id;
        CHECK(started.n < posted.n, "ran something that was not posted");
        CHECK(posted[started.n] == id, "tasks must run once, in posting order");
        started.push(id);
        struct guard
        {
            world* w;
            ~guard() { w->running = -1; }
        } g{this};
        if (!def[id].calm && sym::up(0, v)) {
            def[id].thrown = true;
            throw boom{id};
        }
        for (int i = 0; i < def[id].kids; ++i) {
            sym::reach("nested");
            post(make(def[id].depth + 1));
        }
        if (!def[id].calm && sym::up(1, v)) {
            def[id].thrown = true;
            throw boom{id};
        }
    }
    void step()
    {
        stepping  = true;
        int threw = -1;
        try {
            loop.step();
        } catch (const boom& b) {
            threw = b.id;
            sym::reach("threw");
        }
        stepping = false;
        if (threw < 0)
            CHECK(started.n == posted.n, "step returned with work left");
        else {
            CHECK(started[started.n - 1] == threw, "the exception leaves step");
            CHECK(def[threw].thrown, "no invented exceptions");
        }
    }
};
template <class Loop>
void scenario()
{
    world<Loop> w;
    w.budget = bound(3, 4);
    for (int i = 0; i < bound(3, 4); ++i) {
        w.post(w.make(0));
        if (sym::flip())
            w.step();
    }
    for (int k = 0; k < 16 && w.started.n != w.posted.n; ++k)
        w.step();
    CHECK(w.started.n == w.posted.n, "tasks were lost");
    w.step();
    CHECK(w.started.n == w.posted.n, "a task was repeated");
    sym::observe(w.started.n);
    sym::reach("done");
}
} // namespace

HARNESS(queue) { scenario<lager::queue_event_loop>(); }
HARNESS(safe_queue) { scenario<lager::safe_queue_event_loop>(); }
// the wrappers given to stores forward to the very loop; unsupported operations report it
HARNESS(not_implemented)
{
    lager::queue_event_loop q;
    lager::safe_queue_event_loop s;
    lager::with_queue_event_loop wq{q};
    lager::with_safe_queue_event_loop ws{s};
    int a = 0, b = 0;
    s.adopt();
    wq.post([&] { a++; });
    ws.post([&] { b++; });
    CHECK((a == 0) & (b == 0), "post must not run anything");
    q.step();
    CHECK((a == 1) & (b == 0), "step runs the work of its own loop");
    s.step();
    CHECK((a == 1) & (b == 1), "step runs the work of its own loop");
    int thrown = 0;
    try { wq.pause(); } catch (const std::logic_error&) { thrown++; }
    try { ws.resume(); } catch (const std::logic_error&) { thrown++; }
    try { wq.finish(); } catch (const std::logic_error&) { thrown++; }
    try { wq.async([] {}); } catch (const std::logic_error&) { thrown++; }
    try { ws.async([] {}); } catch (const std::logic_error&) { thrown++; }
    try { wq.resume(); } catch (const std::logic_error&) { thrown++; }
    try { ws.pause(); } catch (const std::logic_error&) { thrown++; }
    try { ws.finish(); } catch (const std::logic_error&) { thrown++; }
    CHECK(thrown == 8, "unsupported operations are reported");
    sym::reach("done");
}
// many tasks waiting at the same time, one of which may throw
namespace {
template <class Loop>
void many_tasks()
{
    constexpr int N = 40;
    Loop loop;
    slog<int, 2 * N> ran;
    unsigned bad = sym::choice(2 * N + 1);
    int v[2 * N];
    auto post = [&](int i, auto&& post) -> void {
        v[i] = sym::any();
        loop.post([&, i, x = v[i], post] {
            ran.push(i);
            CHECK(x == v[i], "the function that runs is the one that was posted");
            if (i < N)
                post(i + N, post);
            if ((int) bad == i)
                throw boom{i};
        });
    };
    for (int i = 0; i < N; ++i)
        post(i, post);
    CHECK(ran.n == 0, "post must not run anything");
    bool threw = false;
    try {
        loop.step();
    } catch (const boom& b) {
        threw = true;
        CHECK(b.id == (int) bad && ran.n == b.id + 1, "the exception leaves step");
        sym::reach("threw");
    }
    CHECK(threw == (bad < 2 * N), "the exception leaves step");
    loop.step();
    CHECK(ran.n == 2 * N, "tasks were lost");
    for (int i = 0; i < 2 * N; ++i)
        CHECK(ran[i] == i, "tasks must run once, in posting order");
}
} // namespace
HARNESS(many)
{
    if (sym::flip())
        many_tasks<lager::queue_event_loop>();
    else
        many_tasks<lager::safe_queue_event_loop>();
    sym::reach("done");
}
