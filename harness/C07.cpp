//@ entry: posts mt reach=done,early,late,between
//@ entry: throwing mt reach=done,threw,threw_late
//@ entry: nested mt reach=done
//@ entry: moved mt reach=done
//@ bounds: two posting threads with 3 posts each (thorough: 4) and an owner that posts one function itself and steps twice while they run; one posting thread, one or two of whose functions (any of them, or the first of the owner) throw; a function that posts from inside the loop while another thread posts, and a posting thread whose functions post; adopt() by a thread that then steps while the main one posts; all interleavings at locks, atomic operations, thread starts and joins (sequentially consistent); data races and accesses to freed memory are violations
//@ outside: weak memory orders; more threads or posts; adopt() or destruction while another thread is posting
#include "common.hpp"
#include <cassert>
#include <lager/event_loop/safe_queue.hpp>

namespace {
constexpr int per_thread = TIER ? 4 : 3;
struct boom
{};
// tasks are numbered thread * 10 + position; each logs itself, and carries an arbitrary value
struct world
{
    lager::safe_queue_event_loop loop;
    int log[24] = {}, n = 0, last = -1, thrower = -1, thrower2 = -1, owner = 0, nest = -1, posted_nested = 0;
    bool stepping = false;
    int value[32];
    world()
    {
        for (auto& v : value)
            v = sym::any<int>();
    }
    void post(int id)
    {
        loop.post([this, id, v = value[id]] {
            run(id, v);
            // the function object is intact until it returns
            last = id;
        });
    }
    void run(int id, int v)
    {
        CHECK(v == value[id], "the function that runs is the one that was posted");
        CHECK(__lsym_tid() == owner, "a posted function runs on the owner thread");
        CHECK(stepping, "a posted function runs while the loop is stepping");
        CHECK(n < 24, "a posted function runs once");
        log[n++] = id;
        if (id == nest)
            post(id + 5);
        if (id == thrower || id == thrower2)
            throw boom{};
    }
    bool step()
    {
        stepping = true;
        bool ok  = true;
        try {
            loop.step();
        } catch (boom&) {
            ok = false;
        }
        stepping = false;
        return ok;
    }
    int count(int id)
    {
        int c = 0;
        for (int i = 0; i < n; ++i)
            c += log[i] == id;
        return c;
    }
    int at(int id)
    {
        for (int i = 0; i < n; ++i)
            if (log[i] == id)
                return i;
        return -1;
    }
    void expect(int thread, int howmany)
    {
        int last = -1;
        for (int i = 0; i < howmany; ++i) {
            int id = thread * 10 + i;
            CHECK(count(id) == 1, "every posted function runs exactly once");
            CHECK(at(id) > last, "functions run in the order in which a thread posted them");
            last = at(id);
        }
    }
};
world* w;
void poster1(void*)
{
    for (int i = 0; i < per_thread; ++i)
        w->post(10 + i);
}
void poster2(void*)
{
    for (int i = 0; i < per_thread; ++i)
        w->post(20 + i);
}
} // namespace

HARNESS(posts)
{
    __libc_single_threaded = 0;
    world W;
    w      = &W;
    int t1 = __lsym_thread_create(poster1, nullptr);
    int t2 = __lsym_thread_create(poster2, nullptr);
    W.post(0);
    W.step();
    int early = W.n;
    W.step();
    if (early == 1 + 2 * per_thread)
        sym::reach("early");
    if (early > 1 && early < W.n)
        sym::reach("between");
    if (W.n == 1)
        sym::reach("late");
    __lsym_thread_join(t1);
    __lsym_thread_join(t2);
    W.step();
    CHECK(W.n == 1 + 2 * per_thread, "once the posting threads have finished, one step leaves nothing behind");
    W.expect(0, 1);
    W.expect(1, per_thread);
    W.expect(2, per_thread);
    W.step();
    CHECK(W.n == 1 + 2 * per_thread, "every posted function runs exactly once");
    sym::observe(W.n);
    sym::reach("done");
}
HARNESS(throwing)
{
    __libc_single_threaded = 0;
    world W;
    w           = &W;
    unsigned k  = sym::choice(1 + per_thread);
    W.thrower   = k == 0 ? 0 : 10 + (int) k - 1;
    k           = sym::choice(1 + per_thread);
    W.thrower2  = k == 0 ? W.thrower : 10 + (int) k - 1;
    int total   = 1 + (W.thrower2 != W.thrower);
    int t1      = __lsym_thread_create(poster1, nullptr);
    int threw   = 0;
    W.post(0);
    W.post(1);
    threw += !W.step();
    if (threw)
        sym::reach("threw");
    threw += !W.step();
    __lsym_thread_join(t1);
    int before = threw;
    for (int i = 0; i < 3; ++i)
        threw += !W.step();
    if (threw > before)
        sym::reach("threw_late");
    CHECK(threw == total, "an exception reaches the stepping thread, once");
    W.expect(0, 2);
    W.expect(1, per_thread);
    CHECK(W.n == 2 + per_thread, "every posted function runs exactly once");
    sym::reach("done");
}
HARNESS(nested)
{
    __libc_single_threaded = 0;
    world W;
    w         = &W;
    W.nest    = sym::choice(2) ? 10 : 0;
    int t1    = __lsym_thread_create(poster1, nullptr);
    W.post(0);
    W.step();
    W.step();
    __lsym_thread_join(t1);
    W.step();
    W.expect(0, 1);
    W.expect(1, per_thread);
    CHECK(W.count(W.nest + 5) == 1 && W.at(W.nest + 5) > W.at(W.nest), "a function posted by a posted function runs exactly once, later");
    CHECK(W.n == 2 + per_thread, "once the posting threads have finished, one step leaves nothing behind");
    sym::reach("done");
}
// a thread adopts the loop and steps it, the one that made it posts
HARNESS(moved)
{
    __libc_single_threaded = 0;
    world W;
    w       = &W;
    W.owner = 1;
    std::mutex m;
    static bool adopted;
    static std::mutex* mm;
    adopted = false;
    mm      = &m;
    int t1  = __lsym_thread_create([](void*) {
        {
            std::lock_guard<std::mutex> g{*mm};
            w->loop.adopt();
            adopted = true;
        }
        w->post(10);
        w->step();
        w->step();
    }, nullptr);
    for (;;) {
        bool go;
        {
            std::lock_guard<std::mutex> g{m};
            go = adopted;
        }
        if (go)
            break;
        __lsym_thread_join(t1);
    }
    W.post(0);
    W.post(1);
    __lsym_thread_join(t1);
    CHECK(W.count(10) == 1, "every posted function runs exactly once");
    int before = W.n;
    CHECK(before >= 1 && before <= 3, "every posted function runs exactly once");
    W.owner = 0;
    if (before == 1) // (adopt() requires that nothing is left in the queue of the owner)
        sym::reach("late");
    W.loop.adopt();
    W.step();
    W.expect(0, 2);
    CHECK(W.n == 3, "once the posting threads have finished, one step leaves nothing behind");
    sym::reach("done");
}
