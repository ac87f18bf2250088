//@ entry: same_cursor reach=done
//@ entry: mixed reach=done
//@ entry: updaters reach=done
//@ entry: writers reach=done
//@ entry: long_run reach=done
//@ bounds: 2 (thorough: 3) updates (same_cursor: 5 (8), writers: 3) in one or several transactions through the root, an attribute, a nested attribute, a composed lens, a map with reverse transformation, a merged cursor or a writer; updaters: 3 (4) operations through cursors whose reverse transformation is lager::update, over one parent, two parents and another such cursor; update functions arbitrary; a run of 16 updates through 4 cursors of one root in one transaction
//@ outside: update functions that write to the same root themselves
#include "graph.hpp"

namespace {
// every write depends on the value written so far, so that a lost update is visible
template <class Tag>
void mixed_run()
{
    auto m    = any_outer();
    auto root = lager::make_state(m, Tag{});
    lager::cursor<mdl> in = root[&outer::in];
    lager::cursor<int> a = in[&mdl::a], b = root[&outer::in][&mdl::b], a2 = root.zoom(zug::comp(lager::lenses::attr(&outer::in), lager::lenses::attr(&mdl::a)));
    lager::cursor<pr> ab  = lager::with(a, b);
    lager::cursor<int> ng = a.xform(zug::map([](int x) { return ~x; }), zug::map([](int x) { return ~x; }));
    lager::writer<int> wb = b;
    lager::cursor<mdl> sw = lager::with(b, lager::cursor<int>{root[&outer::c]}).zoom(lager::lenses::getset([](const pr& p) { return mdl{std::get<0>(p), std::get<1>(p)}; }, [](const pr&, const mdl& x) { return pr{x.a, x.b}; }));
    for (int i = 0; i < bound(2, 3); ++i) {
        int f = 10 + i;
        switch (sym::choice(10)) {
        case 0: root.update([f](outer o) { o.c = sym::uf(f, o.c, o.in.a); o.in.b = sym::uf(f, o.in.b); return o; }); { int c = m.c; m.c = sym::uf(f, c, m.in.a); m.in.b = sym::uf(f, m.in.b); } break;
        case 1: in.update([f](const mdl& x) { return mdl{sym::uf(f, x.a, x.b), sym::uf(f, x.b, x.a)}; }); m.in = mdl{sym::uf(f, m.in.a, m.in.b), sym::uf(f, m.in.b, m.in.a)}; break;
        case 2: a.update([f](int x) { return sym::uf(f, x); }); m.in.a = sym::uf(f, m.in.a); break;
        case 3: a2.update([f](int x) { return sym::uf(f, x); }); m.in.a = sym::uf(f, m.in.a); break;
        case 4: wb.update([f](int x) { return sym::uf(f, x); }); m.in.b = sym::uf(f, m.in.b); break;
        case 5: ab.update([f](const pr& p) { return pr{sym::uf(f, std::get<0>(p), std::get<1>(p)), sym::uf(f, std::get<1>(p))}; }); { int x = m.in.a; m.in.a = sym::uf(f, x, m.in.b); m.in.b = sym::uf(f, m.in.b); } break;
        case 6: ng.update([f](int x) { return sym::uf(f, x); }); m.in.a = ~sym::uf(f, ~m.in.a); break;
        case 7: sw.update([f](const mdl& x) { return mdl{sym::uf(f, x.a, x.b), sym::uf(f, x.b)}; }); { int x = m.in.b; m.in.b = sym::uf(f, x, m.c); m.c = sym::uf(f, m.c); } break;
        case 8: { int v = sym::any(); a.set(v); m.in.a = v; break; }
        case 9: lager::commit(root); break;
        }
    }
    lager::commit(root);
    CHECK(root.get() == m, "every update was applied to the value as written so far");
    CHECK((a.get() == m.in.a) & (b.get() == m.in.b) & (ng.get() == ~m.in.a), "cursors");
    sym::observe(root.get().c);
    sym::reach("done");
}
template <class Tag>
void same_run()
{
    auto m    = any_outer();
    auto root = lager::make_state(m, Tag{});
    lager::cursor<int> a = root[&outer::in][&mdl::a];
    int v = m.in.a;
    for (int i = 0; i < bound(5, 8); ++i) {
        a.update([](int x) { return sym::uf(1, x); });
        v = sym::uf(1, v);
        if (sym::flip())
            lager::commit(root);
    }
    lager::commit(root);
    CHECK(a.get() == v, "n updates are the n-fold application");
    CHECK(root.get() == (outer{{v, m.in.b}, m.c}), "and touch nothing else");
    sym::observe(v);
    sym::reach("done");
}
} // namespace
HARNESS(same_cursor)
{
    if (sym::flip())
        same_run<lager::transactional_tag>();
    else
        same_run<lager::automatic_tag>();
}
HARNESS(mixed)
{
    if (sym::flip())
        mixed_run<lager::transactional_tag>();
    else
        mixed_run<lager::automatic_tag>();
}
// cursors whose writes are given by a function of the parents and the value written
template <class Tag>
void updaters_run()
{
    auto m    = any_outer();
    auto root = lager::make_state(m, Tag{});
    lager::cursor<mdl> in = root[&outer::in];
    lager::cursor<int> b = in[&mdl::b], c = root[&outer::c];
    lager::cursor<int> u  = in.xform(zug::map([](const mdl& x) { return x.a; }), lager::update([](mdl x, int v) { return mdl{sym::uf(1, x.a, v), x.b}; }));
    lager::cursor<int> w  = lager::with(b, c).xform(zug::map([](int x, int y) { return sym::uf(2, x, y); }), lager::update([](const pr& p, int v) { return pr{sym::uf(3, std::get<0>(p), v), sym::uf(4, std::get<1>(p), v)}; }));
    lager::cursor<int> uu = u.xform(zug::map([](int x) { return ~x; }), lager::update([](int x, int v) { return sym::uf(5, x, v); }));
    for (int i = 0; i < bound(3, 4); ++i) {
        int v = sym::any();
        auto set_u = [&](int v) { m.in.a = sym::uf(1, m.in.a, v); };
        switch (sym::choice(8)) {
        case 0: u.set(v); set_u(v); break;
        case 1: w.set(v); m.in.b = sym::uf(3, m.in.b, v); m.c = sym::uf(4, m.c, v); break;
        case 2: uu.set(v); set_u(sym::uf(5, m.in.a, v)); break;
        case 3: u.update([](int x) { return sym::uf(6, x); }); set_u(sym::uf(6, m.in.a)); break;
        case 4: b.set(v); m.in.b = v; break;
        case 5: c.set(v); m.c = v; break;
        case 6: root.update([v](outer o) { o.in.a = sym::uf(7, o.in.a, v); return o; }); m.in.a = sym::uf(7, m.in.a, v); break;
        case 7: lager::commit(root); break;
        }
    }
    lager::commit(root);
    CHECK(root.get() == m, "a write through an update function applies it to the parents as written so far");
    CHECK((u.get() == m.in.a) & (w.get() == sym::uf(2, m.in.b, m.c)) & (uu.get() == ~m.in.a), "cursors");
    sym::observe(root.get().c);
    sym::reach("done");
}
HARNESS(updaters)
{
    if (sym::flip())
        updaters_run<lager::transactional_tag>();
    else
        updaters_run<lager::automatic_tag>();
}
// two writers of the same parts, one of them made while writes are pending
HARNESS(writers)
{
    auto m    = any_mdl();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::writer<int> w1 = root[&mdl::a];
    w1.update([](int x) { return sym::uf(1, x); });
    m.a = sym::uf(1, m.a);
    lager::writer<int> w2 = lager::cursor<int>{root[&mdl::a]};
    lager::writer<mdl> w3 = root;
    for (int i = 0; i < 3; ++i) {
        int f = 2 + i;
        switch (sym::choice(3)) {
        case 0: w1.update([f](int x) { return sym::uf(f, x); }); m.a = sym::uf(f, m.a); break;
        case 1: w2.update([f](int x) { return sym::uf(f, x); }); m.a = sym::uf(f, m.a); break;
        case 2: w3.update([f](mdl x) { return mdl{sym::uf(f, x.a, x.b), x.a}; }); m = mdl{sym::uf(f, m.a, m.b), m.a}; break;
        }
    }
    lager::commit(root);
    CHECK(root.get() == m, "writers of the same root accumulate");
    sym::observe(m.a);
    sym::reach("done");
}
// many updates in one transaction, through several cursors
HARNESS(long_run)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::cursor<mdl> in = root[&outer::in];
    lager::cursor<int> a = in[&mdl::a], b = root[&outer::in][&mdl::b], c = root[&outer::c];
    for (int i = 0; i < 16; ++i)
        switch (i * 7 % 4) {
        case 0: a.update([](int x) { return sym::uf(1, x); }); m.in.a = sym::uf(1, m.in.a); break;
        case 1: b.update([](int x) { return sym::uf(1, x); }); m.in.b = sym::uf(1, m.in.b); break;
        case 2: c.update([](int x) { return x + 3; }); m.c += 3; break;
        default: in.update([](mdl x) { return mdl{x.b, x.a}; }); m.in = mdl{m.in.b, m.in.a};
        }
    lager::commit(root);
    CHECK(root.get() == m, "every update was applied to the value as written so far");
    CHECK((a.get() == m.in.a) & (b.get() == m.in.b) & (c.get() == m.c), "cursors");
    sym::reach("done");
}
