//@ entry: accesses reach=done,thrown,usable
//@ entry: derivations reach=done,thrown,usable
//@ entry: watches reach=done,thrown,usable
//@ entry: late reach=done,notified,quiet
//@ bounds: one default-constructed reader, writer or cursor (plain, copied, moved or converted from another uninitialised one, or emptied again by assignment), every operation of its interface on it (get, *, ->, set, update, map, filter, xform in both directions, zoom, index, setter, merging with an initialised one at either side, bind, nudge), twice in a row, then an assignment and normal use; for watches: any sequence of 4 (thorough: 5) operations out of watch, unbind, assignment of one of two sources, of an uninitialised handle, and writes to the sources; values arbitrary
//@ outside: uninitialised sources, stores and contexts
#include "common.hpp"
#include <exception>
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

namespace h38 {
struct S
{
    int a, b;
    friend bool operator==(const S& x, const S& y) { return (x.a == y.a) & (x.b == y.b); }
    friend bool operator!=(const S& x, const S& y) { return !(x == y); }
};
using State = lager::state<S, lager::transactional_tag>;
int called;
// an uninitialised handle, in some way
template <class H>
H nothing()
{
    switch (sym::choice(5)) {
    case 0: return {};
    case 1: {
        H a;
        H b = a;
        return b;
    }
    case 2: {
        H a, b;
        b = std::move(a);
        return b;
    }
    case 3: {
        // emptied again
        State s{S{1, 2}};
        H a = lager::cursor<S>{s};
        H b;
        a = b;
        return a;
    }
    default: {
        if constexpr (std::is_same_v<H, lager::cursor<S>>)
            return {};
        else
            return lager::cursor<S>{};
    }
    }
}
template <class F>
void throws(F&& f)
{
    bool t = false;
    int c  = called;
    try {
        f();
    } catch (const std::exception&) {
        t = true;
    }
    CHECK(t, "using an uninitialised handle raises an error");
    CHECK(called == c, "and calls nothing");
    if (t)
        sym::reach("thrown");
}
// after the errors: the handle can still be assigned and used
template <class H>
void usable(H& h)
{
    int a = sym::any(), b = sym::any();
    State s{S{a, b}};
    h = H{lager::cursor<S>{s}};
    if constexpr (!std::is_same_v<H, lager::writer<S>>) {
        CHECK((h.get() == S{a, b}), "an assigned handle reads the value");
        CHECK(h->b == b, "an assigned handle reads the value");
        lager::reader<int> d = h[&S::b];
        CHECK(d.get() == b, "an assigned handle derives");
    }
    if constexpr (!std::is_same_v<H, lager::reader<S>>) {
        S n{sym::any(), sym::any()};
        h.set(n);
        lager::commit(s);
        CHECK(s.get() == n, "an assigned handle writes");
    }
    sym::reach("usable");
}
} // namespace h38
using namespace h38;

template <class H>
static void accesses_on()
{
    H h = nothing<H>();
    int x = sym::any();
    for (int i = 0; i < 2; ++i)
        switch (sym::choice(6)) {
        case 0:
            if constexpr (!std::is_same_v<H, lager::writer<S>>)
                throws([&] { sym::observe(h.get().a); });
            break;
        case 1:
            if constexpr (!std::is_same_v<H, lager::writer<S>>)
                throws([&] { sym::observe((*h).b); });
            break;
        case 2:
            if constexpr (!std::is_same_v<H, lager::writer<S>>)
                throws([&] { sym::observe(h->b); });
            break;
        case 3:
            if constexpr (!std::is_same_v<H, lager::reader<S>>)
                throws([&] { h.set(S{x, x}); });
            break;
        case 4:
            if constexpr (!std::is_same_v<H, lager::reader<S>>)
                throws([&] {
                    h.update([&](S s) {
                        called++;
                        s.a = x;
                        return s;
                    });
                });
            break;
        default:
            if constexpr (!std::is_same_v<H, lager::reader<S>>) {
                const S v{x, x};
                throws([&] { h.set(v); });
            }
        }
    usable(h);
}
HARNESS(accesses)
{
    called = 0;
    switch (sym::choice(3)) {
    case 0: accesses_on<lager::reader<S>>(); break;
    case 1: accesses_on<lager::writer<S>>(); break;
    default: accesses_on<lager::cursor<S>>();
    }
    sym::reach("done");
}

static auto fa = [](const S& s) {
    called++;
    return s.a;
};
static auto up = [](S s, int x) {
    called++;
    s.a = x;
    return s;
};
static void derive_reader()
{
    using H = lager::reader<S>;
    H h     = nothing<H>();
    State ok{S{1, 2}};
    lager::reader<S> okr = lager::cursor<S>{ok};
    for (int i = 0; i < 2; ++i)
        switch (sym::choice(9)) {
        case 0: throws([&] { lager::reader<int> d = h.map(fa); }); break;
        case 1: throws([&] { auto d = h.xform(zug::map(fa)).make(); }); break;
        case 2: throws([&] { lager::reader<S> d = h.filter([](const S& s) { return fa(s) > 0; }); }); break;
        case 3: throws([&] { lager::reader<int> d = h[&S::b]; }); break;
        case 4: throws([&] { auto d = h.zoom(lager::lenses::attr(&S::a)).make(); }); break;
        case 5: throws([&] { lager::reader<std::tuple<S, S>> d = lager::with(h, okr); }); break;
        case 6: throws([&] {
                lager::reader<int> d = lager::with(okr, h).map([](const S& x, const S& y) {
                    called++;
                    return x.a + y.a;
                });
            });
            break;
        case 7: throws([&] { auto d = h.setter([](const S&) { called++; }); }); break;
        default: throws([&] { lager::reader<int> d = lager::with(okr, h)[lager::lenses::element<1>][&S::a]; });
        }
    lager::reader<int> d = lager::with(okr, lager::reader<S>{okr.map([](S x) { return x; })}).map([](const S& x, const S& y) { return x.a + y.b; });
    CHECK(d.get() == 3, "other handles keep working");
    usable(h);
}
static void derive_cursor()
{
    using H = lager::cursor<S>;
    H h     = nothing<H>();
    State ok{S{1, 2}};
    lager::cursor<S> okc = ok;
    for (int i = 0; i < 2; ++i)
        switch (sym::choice(9)) {
        case 0: throws([&] { lager::reader<int> d = h.map(fa); }); break;
        case 1: throws([&] { lager::cursor<int> d = h.xform(zug::map(fa), lager::update(up)); }); break;
        case 2: throws([&] { lager::reader<S> d = h.filter([](const S& s) { return fa(s) > 0; }); }); break;
        case 3: throws([&] { lager::cursor<int> d = h[&S::b]; }); break;
        case 4: throws([&] { auto d = h.zoom(lager::lenses::attr(&S::a)).make(); }); break;
        case 5: throws([&] { lager::cursor<std::tuple<S, S>> d = lager::with(h, okc); }); break;
        case 6: throws([&] { lager::cursor<std::tuple<S, S>> d = lager::with(okc, h); }); break;
        case 7: throws([&] { lager::cursor<int> d = lager::with(okc, h)[lager::lenses::element<1>][&S::a]; }); break;
        default: throws([&] { auto d = std::move(h).map(fa).make(); });
        }
    okc.set(S{5, 6});
    lager::commit(ok);
    CHECK((ok.get() == S{5, 6}), "other handles keep working");
    usable(h);
}
static void derive_writer()
{
    using H = lager::writer<S>;
    H h     = nothing<H>();
    for (int i = 0; i < 2; ++i)
        switch (sym::choice(2)) {
        case 0: throws([&] { lager::writer<int> d = h[&S::b]; }); break;
        default: throws([&] { lager::writer<int> d = h.zoom(lager::lenses::attr(&S::a)); });
        }
    usable(h);
}
HARNESS(derivations)
{
    called = 0;
    switch (sym::choice(3)) {
    case 0: derive_reader(); break;
    case 1: derive_cursor(); break;
    default: derive_writer();
    }
    sym::reach("done");
}
template <class H>
static void watches_on()
{
    H h = nothing<H>();
    int n = 0, arg = 0;
    auto cb = [&](const S& s) {
        n++;
        arg = s.a;
    };
    bool watched = sym::flip();
    if (watched)
        h.watch(cb);
    for (int i = 0; i < 2; ++i) {
        if (sym::flip())
            throws([&] { h.bind(cb); });
        else
            throws([&] { h.nudge(); });
        CHECK(n == 0, "and calls nothing");
    }
    State s{S{1, 2}};
    h = lager::cursor<S>{s};
    CHECK(n == 0, "assigning calls nothing");
    int x = sym::any();
    s.set(S{x, x});
    lager::commit(s);
    CHECK(n == (watched && !(x == 1 && x == 2)), "only what was watched before is called after assigning");
    h.nudge();
    CHECK(n == 2 * watched && (!watched || arg == x), "nudging works after assigning");
    n = 0;
    h.bind(cb);
    CHECK(n == 1 && arg == x, "binding works after assigning");
    usable(h);
}
HARNESS(watches)
{
    called = 0;
    if (sym::flip())
        watches_on<lager::reader<S>>();
    else
        watches_on<lager::cursor<S>>();
    sym::reach("done");
}
template <class H>
static void late_on()
{
    State s0{S{1, 2}}, s1{S{3, 4}};
    State* s[2] = {&s0, &s1};
    S cur[2]    = {{1, 2}, {3, 4}};
    H h;
    int src = -1, w = 0;
    int n[8] = {};
    S arg{};
    for (int step = 0; step < bound(4, 5); ++step) {
        unsigned op = sym::choice(5);
        switch (op) {
        case 0:
            if (w < 3) {
                int id = w++;
                h.watch([&n, &arg, id](const S& x) {
                    n[id]++;
                    arg = x;
                });
            }
            break;
        case 1:
            h.unbind();
            w = 0;
            break;
        case 2: {
            src = (int) sym::choice(2);
            h   = lager::cursor<S>{*s[src]};
            break;
        }
        case 3: {
            H e;
            h   = e;
            src = -1;
            break;
        }
        default: {
            int k = (int) sym::choice(2);
            S v{sym::any(), sym::any()};
            bool ch = v != cur[k];
            s[k]->set(v);
            lager::commit(*s[k]);
            cur[k] = v;
            bool go = ch && src == k;
            for (int i = 0; i < w; ++i)
                CHECK(n[i] == go, "watching takes effect once assigned, and only for the assigned source");
            if (go && w) {
                CHECK(arg == v, "with the new value");
                sym::reach("notified");
            } else if (w)
                sym::reach("quiet");
        }
        }
        for (int& k : n) {
            CHECK(k == 0 || op == 4, "only changes of the source call the watchers");
            k = 0;
        }
    }
    sym::reach("done");
}
HARNESS(late)
{
    if (sym::flip())
        late_on<lager::reader<S>>();
    else
        late_on<lager::cursor<S>>();
}
