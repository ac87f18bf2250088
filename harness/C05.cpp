//@ entry: run_once reach=done,nested,threw
//@ entry: store_loop reach=done
//@ entry: many reach=done,threw
//@ bounds: up to 3 (thorough: 4) outermost posts, each task posting 0..2 further tasks (nesting depth up to 3, up to 4 (5) nested tasks) with an arbitrary payload that decides by arbitrary predicates whether it throws before or after posting; all combinations; 40 tasks posted from inside one, any one of which throws or none, with arbitrary payloads
//@ outside: larger task trees; exceptions that are not std::exception-like (type is irrelevant to the code)
#include "common.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>
#include <deque>

namespace {
struct boom
{
    int id;
};
struct task_def
{
    int kids, depth;
    int value; // arbitrary, decides (by arbitrary predicates) whether it throws before or after posting
    bool calm;
    bool thrown;
};
struct world
{
    lager::with_manual_event_loop loop;
    task_def def[24] = {};
    int n       = 0;
    int running = -1;
    int last    = -1;
    slog<int> started;
    slog<int> posted; // ids in posting order
    int budget;
    int make(int depth)
    {
        int id       = n++;
        def[id].depth = depth;
        def[id].value = sym::any<int>();
        def[id].kids = (depth < 2 && budget > 0) ? (int) sym::choice(3) : 0;
        if (def[id].kids > budget)
            def[id].kids = budget;
        budget -= def[id].kids;
        return id;
    }
    void post(int id)
    {
        posted.push(id);
        loop.post([this, id, v = def[id].value] {
            run(id, v);
            // the function object is intact until it returns
            last = id;
        });
    }
    void run(int id, int v)
    {
        CHECK(v == def[id].value, "the function that runs is the one that was posted");
        CHECK(running == -1, "a task started while another one was running");
        running = id;
        CHECK(started.n < posted.n, "ran something that was not posted");
        CHECK(posted[started.n] == id, "tasks must run once, in posting order");
        started.push(id);
        struct guard
        {
            world* w;
            ~guard() { w->running = -1; }
        } g{this};
        if (!def[id].calm && sym::up(0, v)) {
            def[id].thrown = true;
            throw boom{id};
        }
        for (int i = 0; i < def[id].kids; ++i) {
            sym::reach("nested");
            int before = started.n;
            post(make(def[id].depth + 1));
            CHECK(started.n == before, "nested post ran the task at once");
        }
        if (!def[id].calm && sym::up(1, v)) {
            def[id].thrown = true;
            throw boom{id};
        }
    }
};
} // namespace

HARNESS(run_once)
{
    world w;
    w.budget = bound(4, 5);
    for (int i = 0; i < bound(3, 4); ++i) {
        int id = w.make(0);
        int threw = -1;
        try {
            w.post(id);
        } catch (const boom& b) {
            threw = b.id;
            sym::reach("threw");
        }
        if (threw < 0)
            CHECK(w.started.n == w.posted.n, "the outermost post returned with work left");
        else {
            CHECK(w.started[w.started.n - 1] == threw, "the exception of the failing task reaches the outermost caller");
            CHECK(w.def[threw].thrown, "no invented exceptions");
        }
        // nobody who should have thrown ran to completion silently
        if (threw < 0)
            for (int k = 0; k < w.started.n; ++k)
                (void) k;
    }
    // drain
    for (int k = 0; k < 16 && w.started.n != w.posted.n; ++k) {
        w.def[w.n] = {0, 9, 0, true, false};
        int id     = w.n++;
        try {
            w.post(id);
        } catch (const boom&) {
        }
    }
    CHECK(w.started.n == w.posted.n, "tasks were lost");
    CHECK(w.running == -1, "");
    sym::observe(w.started.n);
    sym::reach("done");
}

// the same through a context and a store using the loop
HARNESS(store_loop)
{
    slog<int> log;
    auto store = lager::make_store<int>(0, lager::with_manual_event_loop{}, lager::with_reducer([&](int m, int a) -> std::pair<int, lager::effect<int>> {
                                            log.push(a);
                                            if (a < 100)
                                                return {m + 1, [a](const lager::context<int>& ctx) {
                                                            ctx.dispatch(a + 100);
                                                            ctx.loop().post([ctx, a] { ctx.dispatch(a + 200); });
                                                        }};
                                            return {m + 1, lager::noop};
                                        }));
    bool inner = sym::flip();
    if (inner)
        store.loop().post([&] {
            store.dispatch(1);
            CHECK(log.n == 0, "nested dispatch ran at once");
            store.dispatch(2);
            CHECK(log.n == 0, "nested dispatch ran at once");
        });
    else {
        store.dispatch(1);
        store.dispatch(2);
    }
    CHECK(log.n == 6, "all work done when the outermost call returns");
    int e1[] = {1, 2, 101, 102, 201, 202}, e2[] = {1, 101, 201, 2, 102, 202};
    for (int i = 0; i < 6; ++i)
        CHECK(log[i] == (inner ? e1[i] : e2[i]), "posting order");
    CHECK(store.get() == 6, "model");
    sym::reach("done");
}
// many tasks waiting at the same time, one of which may throw
HARNESS(many)
{
    constexpr int N = 40;
    lager::with_manual_event_loop loop;
    slog<int> ran;
    unsigned bad = sym::choice(N + 1);
    int v[N], sum = 0;
    bool threw = false;
    try {
        loop.post([&] {
            for (int i = 0; i < N; ++i) {
                v[i] = sym::any();
                loop.post([&, i, x = v[i]] {
                    ran.push(i);
                    CHECK(x == v[i], "the function that runs is the one that was posted");
                    if ((int) bad == i)
                        throw boom{i};
                });
            }
            CHECK(ran.n == 0, "nested post ran the task at once");
        });
    } catch (const boom& b) {
        threw = true;
        CHECK(b.id == (int) bad && ran.n == b.id + 1, "the exception of the failing task reaches the outermost caller");
        sym::reach("threw");
    }
    CHECK(threw == (bad < N), "the exception of the failing task reaches the outermost caller");
    loop.post([&] { sum++; });
    CHECK(sum == 1 && ran.n == N, "the tasks that were not started run with the next post");
    for (int i = 0; i < N; ++i)
        CHECK(ran[i] == i, "tasks must run once, in posting order");
    sym::reach("done");
}
