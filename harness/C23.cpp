//@ entry: over_state reach=done,changed,same
//@ entry: over_state_auto reach=done,changed,same
//@ entry: over_store reach=done
//@ entry: over_sensor reach=done
//@ entry: over_automatic reach=done
//@ entry: rejecting reach=done
//@ bounds: 3 (thorough: 4) operations (over a store: 2, 3 writes) out of writes of the whole, of either attribute through a derived cursor, updates of both, writes to the source and commits, with arbitrary values and mapping functions; setters that write the source, dispatch an action to it (an arbitrary reducer), store the value elsewhere, or reject it; transactional and automatic setter cursors
//@ outside: what the cursor shows and writes on top of after a commit that leaves the source as it was although the cursor was written (the write was rejected or undone by others); writes through a setter cursor while its source has uncommitted writes made by others; updates and lenses applied after a write that the source rejected
#include "common.hpp"
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <functional>

namespace {
struct mm { int a, b; friend bool operator==(const mm& x, const mm& y) { return (x.a == y.a) & (x.b == y.b); } };
mm any_mm() { int a = sym::any(), b = sym::any(); return mm{a, b}; }
// the calls of a setter function
struct sets
{
    int n = 0;
    mm last{};
    void call(mm v) { ++n; last = v; }
    void was(mm v, const char* why = "the setter receives exactly the whole value written")
    {
        CHECK(n == 1, "a write calls the setter exactly once");
        CHECK(last == v, why);
        n = 0;
    }
};
// one write through the setter cursor or one derived from it; w is the whole as written so far
template <class C, class A, class B>
void write(C& c, A& a, B& b, mm& w, sets& st)
{
    switch (sym::choice(6)) {
    case 0: { w = any_mm(); c.set(w); break; }
    case 1: { w.a = sym::any(); a.set(w.a); break; }
    case 2: { w.b = sym::any(); int v = w.b; b.set(std::move(v)); break; }
    case 3: { c.update([](mm x) { return mm{sym::uf(1, x.a), sym::uf(2, x.a, x.b)}; }); w = mm{sym::uf(1, w.a), sym::uf(2, w.a, w.b)}; break; }
    case 4: { a.update([](int x) { return sym::uf(3, x); }); w.a = sym::uf(3, w.a); break; }
    case 5: { w = any_mm(); lager::writer<mm> x = c; mm v = w; x.set(std::move(v)); break; }
    }
    st.was(w);
}
template <class Tag>
void over_state_t()
{
    constexpr bool automatic = std::is_same_v<Tag, lager::automatic_tag>;
    mm src = any_mm();
    auto s = lager::make_state(src, lager::transactional_tag{});
    sets st;
    auto c = s.map([](const mm& x) { return x; }).template setter<Tag>([&](const mm& v) { st.call(v); s.set(v); });
    lager::cursor<mm> cc = c;
    lager::cursor<int> ac = cc[&mm::a];
    lager::cursor<int> b = cc.zoom(lager::lenses::attr(&mm::b));
    lager::reader<int> f = cc.map([](const mm& x) { return sym::uf(5, x.a, x.b); });
    mm pub = src, w = src; // what the cursor shows; as written
    int n = 0, nf = 0;
    mm arg{};
    cc.watch([&](const mm& v) { ++n; arg = v; });
    f.watch([&](int) { ++nf; });
    for (int k = 0; k < bound(3, 4); ++k) {
        mm old = pub;
        switch (sym::choice(3)) {
        case 0:
            write(cc, ac, b, w, st);
            if (automatic)
                pub = w;
            break;
        case 1: // others write the source, and commit
            w = any_mm();
            sym::assume(!(w == s.get()));
            s.set(w);
            [[fallthrough]];
        case 2:
            lager::commit(s);
            pub = w;
            CHECK(s.get() == w, "the source shows the last write");
            CHECK(st.n == 0, "only writes through the cursor call the setter");
            break;
        }
        CHECK(cc.get() == pub, automatic ? "the written value shows at once" : "a write shows after the commit");
        CHECK((ac.get() == pub.a) & (b.get() == pub.b) & (f.get() == sym::uf(5, pub.a, pub.b)), "and so do derived readers");
        bool diff = !(old == pub);
        CHECK(n == diff, "watchers are called if and only if the shown value changed");
        if (diff) {
            CHECK(arg == pub, "with the new value");
            sym::reach("changed");
        } else
            sym::reach("same");
        CHECK(nf == (sym::uf(5, old.a, old.b) != sym::uf(5, pub.a, pub.b)), "and those of derived readers too");
        n = nf = 0;
    }
    sym::observe(cc.get().a);
    sym::reach("done");
}
} // namespace
HARNESS(over_state) { over_state_t<lager::transactional_tag>(); }
HARNESS(over_state_auto) { over_state_t<lager::automatic_tag>(); }
HARNESS(over_store)
{
    bool automatic = sym::flip();
    auto red = [](int m, int x) { return sym::uf(10, m, x); };
    int m = sym::any();
    auto store = lager::make_store<int, lager::transactional_tag>(m, lager::with_manual_event_loop{}, lager::with_reducer(red));
    int n = 0, got = 0;
    auto fn = [&](int v) { ++n; got = v; store.dispatch(v); };
    lager::reader<int> r = store;
    lager::cursor<int> c;
    if (automatic)
        c = lager::with_setter(r, fn, lager::automatic_tag{});
    else
        c = r.setter(fn);
    lager::cursor<int> a = c.zoom(lager::lenses::getset([](int x) { return x + 3; }, [](int, int v) { return v - 3; }));
    int pub = m;
    for (int k = 0; k < bound(2, 3); ++k) {
        int w = sym::any();
        if (sym::flip())
            c.set(w);
        else
            a.set(w + 3);
        CHECK(n == 1, "a write calls the setter exactly once");
        CHECK(got == w, "the setter receives exactly the whole value written");
        n = 0;
        m = red(m, w);
        if (automatic)
            pub = w;
        CHECK((c.get() == pub) & (a.get() == pub + 3), "a write shows at once in automatic mode, and later otherwise");
        if (k == 0 && sym::flip()) {
            int x = sym::any();
            store.dispatch(x);
            m = red(m, x);
        }
        if (sym::flip()) {
            sym::assume(m != r.get());
            lager::commit(store);
            CHECK(store.get() == m, "the store reduced what was written");
            pub = m;
            CHECK((c.get() == pub) & (a.get() == pub + 3), "after the source is changed and committed it shows the source's value");
        }
        CHECK(n == 0, "only writes through the cursor call the setter");
    }
    sym::reach("done");
}
// the setter stores the value where a sensor finds it
HARNESS(over_sensor)
{
    mm world = any_mm();
    auto s   = lager::make_sensor([&] { return world; });
    sets st;
    lager::cursor<mm> c = s.setter([&](mm v) { st.call(v); world = v; });
    lager::cursor<int> a = c[&mm::a], b = c[&mm::b];
    mm pub = world, w = world;
    int n = 0;
    c.watch([&](const mm&) { ++n; });
    for (int k = 0; k < bound(3, 4); ++k) {
        if (sym::flip()) {
            write(c, a, b, w, st);
            CHECK((c.get() == pub) & (b.get() == pub.b) & (n == 0), "a write shows after the commit");
        } else {
            if (sym::flip()) {
                world = w = any_mm();
                sym::assume(!(w == s.get()));
            }
            lager::commit(s);
            CHECK(n == !(pub == w), "watchers are called if and only if the shown value changed");
            pub = w;
            n   = 0;
            CHECK((c.get() == pub) & (a.get() == pub.a), "after a commit it shows its source");
        }
        CHECK(st.n == 0, "only writes through the cursor call the setter");
    }
    sym::reach("done");
}
// the source publishes the write while the setter runs
HARNESS(over_automatic)
{
    mm w   = any_mm();
    auto s = lager::make_state(w, lager::automatic_tag{});
    sets st;
    bool automatic = sym::flip();
    auto fn = [&](mm v) { st.call(v); s.set(v); };
    lager::cursor<mm> c;
    if (automatic)
        c = lager::reader<mm>{s}.setter<lager::automatic_tag>(fn);
    else
        c = lager::with_setter(lager::reader<mm>{s}, fn);
    lager::cursor<int> a = c[&mm::a], b = c[&mm::b];
    int n = 0;
    mm arg{};
    c.watch([&](const mm& v) { ++n; arg = v; });
    for (int k = 0; k < bound(3, 4); ++k) {
        mm old = w;
        if (sym::flip())
            write(c, a, b, w, st);
        else
            s.set(w = any_mm());
        CHECK((s.get() == w) & (c.get() == w) & (a.get() == w.a) & (b.get() == w.b), "cursor and source show the value written");
        bool diff = !(old == w);
        CHECK(n == diff, "watchers are called if and only if the shown value changed");
        if (diff)
            CHECK(arg == w, "with the new value");
        CHECK(st.n == 0, "only writes through the cursor call the setter");
        n = 0;
    }
    sym::reach("done");
}
// the setter does nothing, or something else
HARNESS(rejecting)
{
    mm src = any_mm();
    auto s = lager::make_state(src, lager::transactional_tag{});
    bool automatic = sym::flip();
    sets st;
    auto fn = [&](mm v) { st.call(v); };
    lager::cursor<mm> c;
    if (automatic)
        c = lager::reader<mm>{s}.setter<lager::automatic_tag>(fn);
    else
        c = lager::with_setter(lager::reader<mm>{s}, fn);
    lager::cursor<int> a = c[&mm::a];
    lager::reader<int> f = c.map([](const mm& x) { return sym::uf(5, x.a, x.b); });
    mm pub = src;
    for (int k = 0; k < bound(2, 3); ++k) {
        mm v = any_mm();
        c.set(v);
        st.was(v);
        if (automatic)
            pub = v;
        CHECK(c.get() == pub, "shown at once in automatic mode only");
        mm w = any_mm();
        sym::assume(!(w == src));
        s.set(w);
        lager::commit(s);
        src = pub = w;
        CHECK((c.get() == w) & (a.get() == w.a) & (f.get() == sym::uf(5, w.a, w.b)), "after the source is changed and committed it shows the source's value");
        CHECK(st.n == 0, "only writes through the cursor call the setter");
        w.a = sym::any();
        a.set(w.a);
        st.was(w);
        if (automatic)
            pub = w;
        CHECK(c.get() == pub, "shown at once in automatic mode only");
    }
    sym::reach("done");
}
