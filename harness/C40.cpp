//@ flags: -I@V@/harness/qtstub
//@ entry: posts reach=done,nested,elsewhere
//@ entry: store reach=done,effect,async
//@ entry: store_futures reach=done,continued
//@ entry: async mt reach=done,early,late
//@ entry: item reach=done,framed,timed,nested
//@ entry: item_threads mt reach=done,early,late
//@ entry: item_store reach=done,effect
//@ entry: properties reach=done,changed,same,pending
//@ entry: unsupported reach=done
//@ stub: Qt: objects with a thread and a first in first out queue of events, queued and direct invocation, thread pools, timers, and the polish and paint phases of quick items are stand-ins (harness/qtstub) that the harness drives in any order; moc (the bodies of signals) is written by hand
//@ bounds: posts: histories of 5 (thorough: 6) operations out of a post from outside, a post that posts again when run, giving a function to the thread pool that posts, running a pool task, and delivering an event, for an object that lives on the posting thread or on another one; store: 3 (thorough: 4) operations with effects, also asynchronous ones; async, item_threads: a pool thread that dispatches, and a thread that posts, while the main one runs the loop, all interleavings; item: histories of 6 (thorough: 7) operations out of posts (also nested), event delivery, polish and paint phases and timer ticks; properties: 3 (thorough: 4) writes through the property, the source or a cursor; arbitrary payloads and reducers
//@ outside: Qt itself; a quick item that is never polished; objects destroyed while work for them is running; exceptions through Qt
#include "common.hpp"
#include <optional>
#include <qt_stand_in.hpp>
#include <lager/event_loop/qml.hpp>
#include <lager/event_loop/qt.hpp>
#include <lager/extra/qt.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>

namespace qtc {
// what is posted: numbered, with an arbitrary value
struct log
{
    int value[24], n = 0, ran = 0, home = 0;
    bool inside = false, running = false;
    int next()
    {
        value[n] = sym::any();
        return n++;
    }
    void run(int id, int v)
    {
        CHECK(!inside, "nothing runs inside of post");
        CHECK(!running, "posted functions are not nested");
        CHECK(qt::here() == home, "posted functions run on the thread of the object");
        CHECK(id == ran, "posted functions run once, in the order in which they were posted");
        CHECK(v == value[id], "the function that runs is the one that was posted");
        ran++;
    }
};
struct in_post
{
    log& l;
    bool before;
    in_post(log& x)
        : l{x}
        , before{x.inside}
    {
        l.inside = true;
    }
    ~in_post() { l.inside = before; }
};
template <class Loop>
void post(Loop& loop, log& l, bool again)
{
    int id = l.next();
    in_post g{l};
    loop.post([&loop, &l, id, again, v = l.value[id]] {
        l.run(id, v);
        if (again) {
            l.running = true;
            post(loop, l, false);
            l.running = false;
            sym::reach("nested");
        }
    });
}
} // namespace qtc

HARNESS(posts)
{
    qt::clear();
    QObject obj;
    QThreadPool pool;
    qtc::log l;
    bool own = sym::flip();
    lager::with_qt_event_loop loop = own ? lager::with_qt_event_loop{obj, pool} : lager::with_qt_event_loop{obj};
    auto& used  = own ? pool : *QThreadPool::globalInstance();
    auto& other = own ? *QThreadPool::globalInstance() : pool;
    if (sym::flip()) {
        l.home = 3;
        obj.move_to(3);
        sym::reach("elsewhere");
    }
    auto deliver = [&] {
        int before  = qt::current;
        qt::current = l.home;
        bool r      = qt::deliver();
        qt::current = before;
        return r;
    };
    int given = 0, started = 0;
    for (int k = 0; k < bound(5, 6); ++k)
        switch (sym::choice(5)) {
        case 0: qtc::post(loop, l, false); break;
        case 1: qtc::post(loop, l, true); break;
        case 2: {
            int at = started;
            given++;
            {
                qtc::in_post g{l};
                loop.async([&] {
                    CHECK(!l.inside, "nothing runs inside of async");
                    CHECK(qt::current == 7, "asynchronous work runs in the thread pool");
                    started++;
                    qtc::post(loop, l, false);
                });
            }
            CHECK(started == at, "nothing runs inside of async");
            break;
        }
        case 3: used.run_one(); break;
        default: deliver();
        }
    CHECK(other.started == 0, "asynchronous work goes to the given pool");
    while (used.run_one() | deliver()) {}
    CHECK(started == given, "asynchronous work runs once");
    CHECK(l.ran == l.n, "everything that was posted runs");
    auto before = used.waits;
    {
        auto copy = loop;
    }
    CHECK(used.waits > before, "the loop waits for asynchronous work when it is destroyed");
    sym::observe((unsigned) l.ran);
    sym::reach("done");
}

namespace qtc {
struct act
{
    int v;
    int kind; // 0 plain, 1 with an effect that dispatches, 2 with an effect that starts work that dispatches
};
struct swatch
{
    slog<int> effects, works;
    int inside = 0;
};
template <class Ctx>
void effect_of(swatch* w, act a, const Ctx& ctx)
{
    CHECK(qt::here() == 0, "effects run on the thread of the object");
    CHECK(w->inside == 0, "nothing runs inside of dispatch");
    w->effects.push(a.v);
    if (a.kind == 1)
        ctx.dispatch(act{sym::uf(2, a.v), 0});
    if (a.kind == 2)
        ctx.loop().async([w, a, ctx] {
            w->works.push(a.v);
            ctx.dispatch(act{sym::uf(3, a.v), 0});
        });
}
} // namespace qtc
HARNESS(store)
{
    using namespace qtc;
    qt::clear();
    QCoreApplication app;
    QThreadPool pool;
    swatch w;
    int m0 = sym::any();
    slog<int> reduced;
    auto red = [&](int m, act a) -> lager::result<int, act> {
        CHECK(qt::here() == 0, "actions are reduced on the thread of the object");
        CHECK(w.inside == 0, "nothing runs inside of dispatch");
        reduced.push(a.v);
        if (!a.kind)
            return sym::uf(1, m, a.v);
        return {sym::uf(1, m, a.v), [&w, a](auto&& ctx) { effect_of(&w, a, ctx); }};
    };
    int asyncs = 0, outside = 0, want[8];
    int fin = 0;
    lager::reader<int> rd;
    {
        auto s = lager::make_store<act>(int{m0}, lager::with_qt_event_loop{app, pool}, lager::with_reducer(red));
        rd     = s;
        for (int k = 0; k < bound(3, 4); ++k)
            switch (sym::choice(5)) {
            case 0:
            case 1:
            case 2: {
                act a{sym::any(), (int) sym::choice(3)};
                asyncs += a.kind == 2;
                want[outside++] = a.v;
                w.inside++;
                s.dispatch(a);
                w.inside--;
                break;
            }
            case 3: qt::deliver(); break;
            default: pool.run_one();
            }
        while (qt::deliver()) {}
        // what was started and not run, is waited for by the end of the store
        int pending = (int) pool.tasks.size();
        if (pending && sym::flip()) {
            fin = 1;
            auto move = std::move(s);
            while (pool.run_one() | qt::deliver()) {}
            CHECK(w.works.n == asyncs, "asynchronous work runs once");
        } else if (!pending)
            CHECK(w.works.n == asyncs, "asynchronous work runs once");
        int v = m0, o = 0;
        for (int i = 0; i < reduced.n; ++i) {
            v = sym::uf(1, v, reduced[i]);
            if (o < outside && reduced[i] == want[o])
                o++;
        }
        CHECK(rd.get() == v, "the model is the fold of the reducer");
        CHECK(o == outside, "every action is reduced, in order");
        if (w.effects.n)
            sym::reach("effect");
        rd = {};
        if (!pool.tasks.empty() || fin)
            sym::reach("async");
    }
    CHECK(w.works.n == asyncs, "the loop waits for asynchronous work when it is destroyed");
    qt::clear();
    sym::reach("done");
}
HARNESS(store_futures)
{
    using namespace qtc;
    qt::clear();
    QCoreApplication app;
    QThreadPool pool;
    int m0 = sym::any(), done = 0;
    bool eff = sym::flip(), late = sym::flip();
    auto s   = lager::make_store<int>(int{m0}, lager::with_qt_event_loop{app, pool}, lager::with_futures, lager::with_reducer([&](int m, int a) -> lager::result<int, int> {
                                        if (!eff)
                                            return sym::uf(1, m, a);
                                        return {sym::uf(1, m, a), [&](auto&& ctx) -> lager::future {
                                                    auto [p, f] = lager::promise::with_loop(ctx.loop());
                                                    ctx.loop().async([p = std::move(p)]() mutable { p(); });
                                                    return std::move(f);
                                                }};
                                    }));
    int a    = sym::any();
    auto f   = s.dispatch(a);
    auto then = [&] {
        CHECK(qt::here() == 0, "continuations run on the thread of the object");
        CHECK(s.get() == sym::uf(1, m0, a), "continuations run after the action");
        done++;
    };
    if (!late)
        std::move(f).then(then);
    while (qt::deliver()) {}
    if (eff) {
        CHECK(done == 0, "continuations wait for the effects");
        pool.run_one();
        CHECK(done == 0, "continuations run in the loop");
    }
    while (qt::deliver()) {}
    if (late)
        std::move(f).then(then);
    while (qt::deliver()) {}
    CHECK(done == 1, "continuations run once");
    s.loop().finish();
    CHECK(app.quits == 1, "finish ends the application's loop");
    sym::reach("continued");
    sym::reach("done");
}
// an effect starts work in a pool thread, which dispatches while the main thread runs the loop
HARNESS(async)
{
    using namespace qtc;
    __libc_single_threaded = 0;
    qt::real_threads       = true;
    qt::clear();
    QCoreApplication app;
    QThreadPool pool;
    swatch w;
    int kinds[8], nk = 0;
    int m0 = sym::any(), a = sym::any(), b = sym::any();
    {
        auto s = lager::make_store<act>(int{m0}, lager::with_qt_event_loop{app, pool}, lager::with_reducer([&](int m, act x) -> lager::result<int, act> {
                                            CHECK(qt::here() == 0, "actions are reduced on the thread of the object");
                                            kinds[nk++] = x.kind;
                                            if (x.kind != 2)
                                                return sym::uf(1, m, x.v);
                                            return {sym::uf(1, m, x.v), [&w, x](auto&& ctx) {
                                                        ctx.loop().async([&w, x, ctx] {
                                                            w.works.push(x.v);
                                                            ctx.dispatch(act{sym::uf(3, x.v), 4});
                                                        });
                                                    }};
                                        }));
        s.dispatch(act{a, 2});
        qt::deliver();
        qt::deliver(); // the effect
        qt::deliver();
        s.dispatch(act{b, 0});
        for (int i = 0; i < 2; ++i)
            qt::deliver();
        int m1 = sym::uf(1, m0, a), e = sym::uf(3, a);
        pool.waitForDone();
        while (qt::deliver()) {}
        CHECK(nk == 3, "every action is reduced once");
        CHECK(s.get() == (kinds[1] == 4 ? sym::uf(1, sym::uf(1, m1, e), b) : sym::uf(1, sym::uf(1, m1, b), e)), "every action is reduced once, in the order in which they were posted");
        CHECK(w.works.n == 1, "asynchronous work runs once");
        sym::reach(kinds[1] == 4 ? "early" : "late");
        s.dispatch(act{b, 2});
        while (qt::deliver()) {}
    }
    CHECK(w.works.n == 2, "the loop waits for asynchronous work when it is destroyed");
    qt::clear();
    sym::reach("done");
}

namespace qtc {
struct frames
{
    lager::event_loop_quick_item item;
    QTimer* timer = QTimer::last();
    void settle()
    {
        for (int i = 0; i < 2; ++i) {
            while (more()) {}
            item.polish_phase();
            item.paint_phase();
        }
    }
    // (delivering polish requests does not make new ones)
    bool more() { return qt::deliver(); }
};
} // namespace qtc
HARNESS(item)
{
    using namespace qtc;
    qt::clear();
    frames f;
    qtc::log l;
    for (int k = 0; k < bound(6, 7); ++k)
        switch (sym::choice(6)) {
        case 0: qtc::post(f.item, l, false); break;
        case 1: qtc::post(f.item, l, true); break;
        case 2: qt::deliver(); break;
        case 3:
            if (f.item.polish_phase())
                CHECK(f.timer->running, "once polished, the timer runs what is posted even if nothing is painted");
            break;
        case 4: f.item.paint_phase(); break;
        default:
            if (f.timer->running) {
                f.timer->fire();
                CHECK(l.ran == l.n, "a tick of the timer runs everything that was posted");
                CHECK(f.timer->interval_ <= 34, "the timer ticks at least 30 times per second");
                sym::reach("timed");
            }
        }
    if (f.timer->running && sym::flip())
        f.timer->fire();
    else {
        f.settle();
        sym::reach("framed");
    }
    CHECK(l.ran == l.n, "everything that was posted runs");
    f.settle();
    CHECK(l.ran == l.n, "everything that was posted runs once");
    qt::clear();
    sym::observe((unsigned) l.ran);
    sym::reach("done");
}
namespace qtc {
frames* fr;
int worked[4], nworked;
} // namespace qtc
HARNESS(item_threads)
{
    using namespace qtc;
    __libc_single_threaded = 0;
    qt::real_threads       = true;
    qt::clear();
    frames F;
    fr      = &F;
    nworked = 0;
    int mine = 0;
    int t    = __lsym_thread_create(
        [](void*) {
            for (int i = 0; i < 2; ++i)
                fr->item.post([i] {
                    CHECK(__lsym_tid() == 0, "posted functions run on the thread of the item");
                    worked[nworked++] = i;
                });
        },
        nullptr);
    bool post = sym::flip();
    if (post) {
        F.item.post([&] { mine++; });
        F.settle();
    }
    CHECK(mine == post, "everything that was posted runs");
    sym::reach(nworked ? "early" : "late");
    __lsym_thread_join(t);
    F.settle();
    CHECK(nworked == 2 && worked[0] == 0 && worked[1] == 1 && mine == post, "posted functions run once, in the order in which they were posted");
    qt::clear();
    sym::reach("done");
}
HARNESS(item_store)
{
    using namespace qtc;
    qt::clear();
    frames f;
    swatch w;
    int m0 = sym::any(), v = m0;
    auto s = lager::make_store<act>(int{m0}, lager::with_qml_event_loop{f.item}, lager::with_reducer([&](int m, act a) -> lager::result<int, act> {
                                        CHECK(w.inside == 0, "nothing runs inside of dispatch");
                                        if (!a.kind)
                                            return sym::uf(1, m, a.v);
                                        return {sym::uf(1, m, a.v), [&w, a](auto&& ctx) { effect_of(&w, a, ctx); }};
                                    }));
    for (int k = 0; k < bound(3, 4); ++k) {
        act a{sym::any(), (int) sym::choice(2)};
        w.inside++;
        s.dispatch(a);
        w.inside--;
        v = sym::uf(1, v, a.v);
        if (a.kind)
            v = sym::uf(1, v, sym::uf(2, a.v));
        f.settle();
        CHECK(s.get() == v, "the model is the fold of the reducer");
        if (a.kind)
            sym::reach("effect");
    }
    s.loop().post([&] { w.works.push(1); });
    CHECK(w.works.n == 0, "nothing runs inside of post");
    f.settle();
    CHECK(w.works.n == 1, "everything that was posted runs");
    qt::clear();
    sym::reach("done");
}

namespace qtc {
struct mdl
{
    int a, b;
    friend bool operator==(const mdl& x, const mdl& y) { return (x.a == y.a) & (x.b == y.b); }
};
struct object : QObject
{
    slog<int> ra, ca;
    object(lager::cursor<mdl> s, int k)
        : LAGER_QT(total){s.map([](const mdl& m) { return sym::uf(1, m.a, m.b); })}
        , LAGER_QT(first){s[&mdl::a]}
        , LAGER_QT(fixed){k}
    {}
    LAGER_QT_READER(int, total);
    LAGER_QT_CURSOR(int, first);
    LAGER_QT_CONST(int, fixed);
};
// what moc generates emits the signal; here it is recorded
void object::totalChanged(const int& v)
{
    CHECK(v == total(), "the signal of a property carries the value that the property shows");
    ra.push(v);
}
void object::firstChanged(const int& v)
{
    CHECK(v == first(), "the signal of a property carries the value that the property shows");
    ca.push(v);
}
template <class State>
void props(bool automatic)
{
    State s{mdl{sym::any(), sym::any()}};
    int k = sym::any();
    object o{s, k};
    mdl m = s.get(), p = m; // written, published
    auto total = [](mdl x) { return sym::uf(1, x.a, x.b); };
    for (int i = 0; i < bound(3, 4); ++i) {
        int nr = o.ra.n, nc = o.ca.n;
        switch (sym::choice(3)) {
        case 0:
            m.a = sym::any();
            o.setfirst(m.a);
            break;
        case 1:
            m = mdl{sym::any(), sym::any()};
            s.set(m);
            break;
        default:
            m.b = sym::any();
            lager::cursor<int>{s[&mdl::b]}.set(m.b);
        }
        if (!automatic) {
            CHECK((o.total() == total(p)) & (o.first() == p.a), "properties show the published value");
            CHECK((o.ra.n == nr) & (o.ca.n == nc), "nothing is signalled before the commit");
            if (sym::flip()) {
                sym::reach("pending");
                continue;
            }
            lager::commit(s);
        }
        CHECK((s.get().a == m.a) & (s.get().b == m.b), "setting a property writes its cursor");
        CHECK((o.total() == total(m)) & (o.first() == m.a), "properties mirror their source");
        CHECK(o.ra.n == nr + (total(m) != total(p)), "a property signals when and only when it changes, once");
        CHECK(o.ca.n == nc + (m.a != p.a), "a property signals when and only when it changes, once");
        if (o.ra.n > nr) {
            CHECK(o.ra[nr] == total(m), "the signal of a property carries its new value");
            sym::reach("changed");
        } else
            sym::reach("same");
        if (o.ca.n > nc)
            CHECK(o.ca[nc] == m.a, "the signal of a property carries its new value");
        CHECK(o.fixed() == k, "constant properties keep their value");
        p = m;
    }
}
} // namespace qtc
HARNESS(properties)
{
    if (sym::flip())
        qtc::props<lager::state<qtc::mdl, lager::automatic_tag>>(true);
    else
        qtc::props<lager::state<qtc::mdl, lager::transactional_tag>>(false);
    sym::reach("done");
}
HARNESS(unsupported)
{
    qt::clear();
    QCoreApplication app;
    qtc::frames f;
    int threw = 0;
    auto fails = [&](auto fn) {
        try {
            fn();
        } catch (const std::exception&) {
            threw++;
        }
    };
    lager::with_qt_event_loop q{app};
    lager::with_qml_event_loop m{f.item};
    fails([&] { q.pause(); });
    fails([&] { q.resume(); });
    fails([&] { m.pause(); });
    fails([&] { m.resume(); });
    fails([&] { m.finish(); });
    fails([&] { m.async([] {}); });
    CHECK(threw == 6, "unsupported operations are reported");
    qt::clear();
    sym::reach("done");
}
