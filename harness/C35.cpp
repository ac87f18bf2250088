//@ entry: run reach=done,posted,handled,finished,refused,blocked,threw
//@ entry: ticking reach=done,posted,handled,finished,refused,tick_end,paused,resumed,threw,blocked
//@ entry: steps reach=done,limited,waited
//@ entry: store reach=done,effect
//@ stub: SDL2's event queue, clock and delay: a first in first out queue into which the environment may put an ordinary event whenever the loop polls or waits, and a clock that advances by arbitrary choices; waiting when nothing more will arrive leaves the loop (the harness throws)
//@ bounds: run and ticking: up to 5 (thorough: 6) events and posted functions in total, each posted function, handler call or tick may do one of: nothing, post a function, finish, pause, resume, throw, or (handler and tick) end the loop; steps: 5 (thorough: 6) ticks, the clock advancing by 0, 1, 8, 40, 66, 67 or 5000 ms between them, at two frame rates; store: 2 actions with effects on the SDL loop
//@ outside: post, finish, pause or resume from other threads; a full or filtering SDL queue; Emscripten; functions still queued when the loop ends; ordinary events that arrive while paused (dropped when ticking); clock values other than the listed ones (floating point is computed for concrete values only)
#include "common.hpp"
#include <SDL2/SDL.h>

namespace sdl {
constexpr int CAP = 16;
struct blocked
{};
struct boom
{};
SDL_Event q[CAP];
int head, tail, budget;
unsigned now;
int delays;
void (*before_poll)(bool wait);
void push(SDL_Event e)
{
    CHECK(tail < CAP, "harness: queue full");
    q[tail++] = e;
}
} // namespace sdl
extern "C" {
Uint32 SDL_RegisterEvents(int) { return SDL_USEREVENT + 3; }
int SDL_PushEvent(SDL_Event* e)
{
    sdl::push(*e);
    return 1;
}
int SDL_PollEvent(SDL_Event* e)
{
    sdl::before_poll(false);
    if (sdl::head == sdl::tail)
        return 0;
    *e = sdl::q[sdl::head++];
    return 1;
}
int SDL_WaitEvent(SDL_Event* e)
{
    sdl::before_poll(true);
    if (sdl::head == sdl::tail)
        throw sdl::blocked{};
    *e = sdl::q[sdl::head++];
    return 1;
}
Uint32 SDL_GetTicks(void) { return sdl::now; }
void SDL_Delay(Uint32 ms)
{
    sdl::delays++;
    sdl::now += ms;
}
void* SDL_memset(void* p, int c, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        ((char*) p)[i] = (char) c;
    return p;
}
}
#include <lager/event_loop/sdl.hpp>
#include <lager/store.hpp>

namespace c35 {
using namespace sdl;
enum what { nothing, post_, finish_, pause_, resume_, throw_, end_ };
struct world
{
    lager::sdl_event_loop loop;
    bool ticking = false, paused = false, finished = false, ended = false, polled_empty = false, threw = false;
    int posted = 0, ran = 0, live = 0;     // posted functions
    int made = 0, next = 0;                // ordinary events, and the next one that the handler may be given
    int ticks = 0, ticks_after_finish = 0;
    bool may_post = true;
};
world* w;
// its copies are counted, so that it is seen whether the function was released
struct token
{
    token() { w->live++; }
    token(const token&) { w->live++; }
    ~token() { w->live--; }
};
void post();
// what a callback does; true if the loop goes on
bool act(bool can_end)
{
    switch (budget ? sym::choice(can_end ? 7 : 6) : 0) {
    case nothing: break;
    case post_: post(); break;
    case finish_:
        w->loop.finish();
        w->finished = true;
        sym::reach("finished");
        break;
    case pause_:
        w->loop.pause();
        w->paused = true;
        if (w->ticking)
            sym::reach("paused");
        break;
    case resume_:
        w->loop.resume();
        if (w->paused && w->ticking)
            sym::reach("resumed");
        w->paused = false;
        break;
    case throw_:
        w->threw = true;
        throw boom{};
    case end_: w->ended = true; return false;
    }
    return true;
}
void post()
{
    if (!budget)
        return;
    --budget;
    int id = w->posted++;
    w->loop.post([id, t = token{}] {
        sym::reach("posted");
        CHECK(!w->ended && !w->threw, "nothing runs once the loop has ended");
        CHECK(id == w->ran, "posted functions run exactly once, in posting order");
        w->ran++;
        w->polled_empty = false;
        act(false);
    });
}
void ordinary()
{
    SDL_Event e{};
    e.type      = SDL_USEREVENT;
    e.user.code = w->made++;
    sdl::push(e);
}
void poll(bool wait)
{
    CHECK(!w->ended && !w->threw, "the loop ends when a callback asks for it");
    CHECK(w->live == w->posted - w->ran, "a posted function is released once it has run");
    if (w->ticking) {
        CHECK(!(wait && w->finished), "a finished loop does not wait for events");
        CHECK(wait == w->paused, "a paused loop waits for events, another one polls them");
        CHECK(!w->polled_empty, "there is one tick per iteration");
    } else
        CHECK(!w->finished, "the loop ends after finish");
    if (budget && sym::choice(2)) {
        --budget;
        ordinary();
    }
    w->polled_empty = head == tail && !wait;
}
bool handler(const SDL_Event& e)
{
    sym::reach("handled");
    CHECK(!w->ended && !w->threw, "nothing runs once the loop has ended");
    CHECK(e.type == SDL_USEREVENT, "the handler is given ordinary events");
    CHECK(!w->ticking || !w->paused, "the handler is not called while paused");
    CHECK(e.user.code >= w->next && e.user.code < w->made, "the handler is given every event once, in order");
    if (!w->ticking)
        CHECK(e.user.code == w->next, "the handler is given every event once, in order");
    w->next = e.user.code + 1;
    bool r = act(true);
    if (!r)
        sym::reach("refused");
    return r;
}
bool tick(float dt)
{
    CHECK(!w->ended && !w->threw, "nothing runs once the loop has ended");
    CHECK(!w->paused, "there are no ticks while paused");
    CHECK(w->polled_empty, "there is one tick per iteration");
    CHECK(dt >= 0 && dt <= 1000.f / 15, "a time step does not exceed the maximum");
    w->polled_empty = false;
    w->ticks++;
    if (w->finished)
        w->ticks_after_finish++;
    CHECK(w->ticks_after_finish <= 1, "the loop ends after finish");
    bool idle = budget == 0 && head == tail && !w->finished;
    if (idle || w->ticks == 3) { // nothing more happens
        w->ended = true;
        sym::reach("tick_end");
        return false;
    }
    return act(true);
}
template <class Run>
void drive(world& W, Run run)
{
    w           = &W;
    head = tail = 0;
    budget      = bound(5, 6);
    now         = 1000;
    before_poll = poll;
    if (sym::choice(2)) {
        post();
        if (sym::choice(2))
            post();
    }
    bool b = false;
    try {
        run();
        CHECK(W.ended || W.finished, "the loop goes on until it is told to end");
        CHECK(!W.threw, "an exception leaves the loop");
    } catch (blocked&) {
        b = true;
        sym::reach("blocked");
        CHECK(!W.ended && !W.finished, "the loop ends when it is told to");
    } catch (boom&) {
        CHECK(W.threw, "an exception leaves the loop");
        sym::reach("threw");
    }
    CHECK(W.live == W.posted - W.ran, "a posted function is released once it has run");
    if (b)
        CHECK(W.ran == W.posted, "posted functions run exactly once, in posting order");
    // (what is still queued belongs to SDL)
    for (int i = head; i < tail; ++i)
        if (q[i].type != SDL_USEREVENT)
            delete (lager::sdl_event_loop::event_fn*) q[i].user.data1;
    sym::observe(W.ran * 100 + W.next * 10 + W.ticks);
    sym::reach("done");
}
} // namespace c35
using namespace c35;

HARNESS(run)
{
    world W;
    drive(W, [&] { W.loop.run(handler); });
}
HARNESS(ticking)
{
    world W;
    W.ticking = true;
    drive(W, [&] { W.loop.run(handler, tick); });
}
HARNESS(steps)
{
    world W;
    w           = &W;
    head = tail = 0;
    now         = 50;
    delays      = 0;
    before_poll = [](bool) {};
    bool slow   = sym::choice(2);
    float max   = 1000.f / (slow ? 4 : 15);
    unsigned last = now;
    int left      = bound(5, 6);
    auto advance  = [] {
        static const unsigned by[] = {0, 1, 8, 40, 66, 67, 5000};
        now += by[sym::choice(7)];
    };
    before_poll = [](bool) {};
    float dts   = 0;
    unsigned frame = slow ? 50 : 8; // (ms, rounded down)
    unsigned began = 0, ended = 0;
    auto on_tick = [&](float dt) {
        if (began) {
            CHECK(now - began >= frame, "ticks come no faster than the frame rate");
            CHECK(now - ended <= frame + 1, "a tick is not delayed by more than a frame");
        }
        began = now;
        // the step was computed before the delay, at most one frame ago
        CHECK(dt >= 0 && dt <= max, "a time step does not exceed the maximum");
        dts += dt;
        CHECK(dts <= float(now - 50), "steps do not run ahead of the clock");
        if (dt == max)
            sym::reach("limited");
        advance();
        ended = now;
        return --left > 0;
    };
    auto none = [](const SDL_Event&) { return true; };
    if (slow)
        W.loop.run(none, on_tick, 20, 4);
    else
        W.loop.run(none, on_tick);
    if (delays)
        sym::reach("waited");
    CHECK(left == 0, "the loop ends when the tick asks for it");
    sym::observe(now);
    sym::reach("done");
    (void) last;
}
// a store on the SDL loop, which an effect finishes
HARNESS(store)
{
    world W;
    w           = &W;
    head = tail = 0;
    now         = 50;
    before_poll = [](bool) {};
    struct act
    {
        int v;
        bool last;
    };
    int a = sym::any(), b = sym::any(), m = sym::any(), effects = 0;
    auto s = lager::make_store<act>(int{m}, lager::with_sdl_event_loop{W.loop}, lager::with_reducer([&](int x, act y) -> lager::result<int, act> {
                                        return {sym::uf(1, x, y.v), [&effects, y](auto&& ctx) {
                                                    effects++;
                                                    sym::reach("effect");
                                                    if (y.last)
                                                        ctx.loop().finish();
                                                }};
                                    }));
    s.dispatch(act{a, false});
    s.dispatch(act{b, true});
    CHECK(s.get() == m, "nothing runs before the loop does");
    bool t = sym::choice(2);
    if (t)
        W.loop.run([](const SDL_Event&) { return true; }, [](float) { return true; });
    else
        W.loop.run([](const SDL_Event&) { return true; });
    CHECK(effects == 2, "the loop ends after finish");
    CHECK(s.get() == sym::uf(1, sym::uf(1, m, a), b), "actions are processed once, in order");
    sym::observe(s.get());
    sym::reach("done");
}
