//@ entry: map_chain reach=done
//@ entry: filter_reader reach=done,rejected,accepted
//@ entry: compositions reach=done
//@ entry: reverse reach=done
//@ entry: reverse_update reach=done
//@ entry: reverse_filter reach=done
//@ bounds: 2-3 (thorough: 3-5) publications or writes with arbitrary values; mappings and predicates arbitrary (uninterpreted); map, filter, filter of map, map of filter, filter of filter, as one expression or through readers; reverse map, reverse updating transformation over 1 and 2 parents, composed reverse transformations
//@ outside: transducers with state other than filter; filters below a merge of parts of one root (C10)
#include "graph.hpp"
#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

namespace {
int f(int x) { return sym::uf(1, x); }
int g(int x) { return sym::uf(2, x); }
bool p(int x) { return sym::up(3, x); }
bool q(int x) { return sym::up(4, x); }
} // namespace
HARNESS(map_chain)
{
    auto m    = any_mdl();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::cursor<int> a = root[&mdl::a];
    lager::reader<int> r1 = a.map(f);
    lager::reader<int> r2 = r1.map(g);
    lager::reader<int> r3 = a.xform(zug::map(f)).xform(zug::map(g));
    lager::reader<int> r4 = a.xform(zug::comp(zug::map(f), zug::map(g)));
    lager::reader<int> r5 = lager::with(a, lager::reader<int>{root[&mdl::b]}).map([](int x, int y) { return sym::uf(5, x, y); });
    lager::reader<int> r6 = root[&mdl::a].map(f).map(g);
    auto shows = [&] {
        int fa = f(m.a), gfa = g(fa);
        CHECK(r1.get() == fa, "map");
        CHECK((r2.get() == gfa) & (r3.get() == gfa) & (r4.get() == gfa) & (r6.get() == gfa), "map of map");
        CHECK(r5.get() == sym::uf(5, m.a, m.b), "map of a merge");
    };
    shows();
    for (int i = 0; i < bound(3, 4); ++i) {
        m = any_mdl();
        root.set(m);
        lager::commit(root);
        shows();
    }
    sym::observe(r2.get());
    sym::reach("done");
}
HARNESS(filter_reader)
{
    int v     = sym::any();
    auto root = lager::make_state(v, lager::automatic_tag{});
    lager::reader<int> r = root.filter(p);
    lager::reader<int> k = r;
    int calls = 0;
    lager::watch(k, [&](int x) { calls++; CHECK(p(x), "a filter never notifies a rejected value"); });
    int exp = p(v) ? v : 0;
    CHECK(r.get() == exp, "initial value of a filter: the source's if it satisfies the predicate, else the default");
    for (int i = 0; i < bound(3, 5); ++i) {
        v     = sym::any();
        int o = exp;
        calls = 0;
        root.set(v);
        if (p(v)) {
            exp = v;
            sym::reach("accepted");
        } else
            sym::reach("rejected");
        CHECK(r.get() == exp, "a filter keeps the last value that satisfied the predicate");
        CHECK(calls == (exp != o ? 1 : 0), "notified when it changes");
    }
    sym::observe(exp);
    sym::reach("done");
}
HARNESS(compositions)
{
    int v     = sym::any();
    bool autom = sym::flip();
    auto go   = [&](auto root) {
        lager::reader<int> fm = root.map(f).filter(p);
        lager::reader<int> mf = root.filter(p).map(f);
        lager::reader<int> ff = root.filter(p).filter(q);
        lager::reader<int> mfm = root.xform(zug::comp(zug::map(f), zug::filter(p), zug::map(g)));
        lager::reader<int> st = lager::reader<int>{root.map(f)};
        lager::reader<int> st2 = st.filter(p);
        lager::reader<int> st3 = st2.map(g);
        int efm = 0, emf = 0, eff = 0, emfm = 0;
        auto take = [&](int x) {
            if (p(f(x))) efm = f(x), emfm = g(f(x));
            if (p(x)) emf = f(x);
            if (p(x) && q(x)) eff = x;
        };
        auto shows = [&] {
            CHECK(fm.get() == efm, "filter of map");
            CHECK(mf.get() == emf, "map of filter");
            CHECK(ff.get() == eff, "filter of filter");
            CHECK(mfm.get() == emfm, "map, filter, map");
            CHECK(st2.get() == efm, "filter of a mapped reader");
            CHECK(st3.get() == g(efm), "map of a filtered reader");
        };
        take(v);
        shows();
        for (int i = 0; i < bound(2, 3); ++i) {
            v = sym::any();
            root.set(v);
            lager::commit(root);
            take(v);
            shows();
        }
        sym::observe(efm);
    };
    if (autom) go(lager::make_state(v, lager::automatic_tag{}));
    else go(lager::make_state(v, lager::transactional_tag{}));
    sym::reach("done");
}
HARNESS(reverse)
{
    auto m    = any_mdl();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::cursor<int> a  = root[&mdl::a];
    lager::cursor<int> c  = a.xform(zug::map(f), zug::map(g));
    lager::cursor<int> c2 = a.xform(zug::map(f), zug::map(g)).xform(zug::map([](int x) { return sym::uf(6, x); }), zug::map([](int x) { return sym::uf(7, x); }));
    lager::cursor<int> c3 = c.xform(zug::map([](int x) { return sym::uf(6, x); }), zug::map([](int x) { return sym::uf(7, x); }));
    lager::cursor<mdl> c4 = lager::with(a, lager::cursor<int>{root[&mdl::b]}).xform(zug::map([](int x, int y) { return mdl{sym::uf(8, x), y}; }), zug::map([](const mdl& x) { return std::make_tuple(sym::uf(9, x.a), x.b); }));
    lager::cursor<int> c5 = root.zoom(lager::lenses::attr(&mdl::a)).xform(zug::map(f), zug::map(g));
    for (int i = 0; i < bound(2, 3); ++i) {
        int v = sym::any();
        switch (sym::choice(6)) {
        case 0: c.set(v); m.a = g(v); break;
        case 1: c2.set(v); m.a = g(sym::uf(7, v)); break;
        case 2: c3.set(v); m.a = g(sym::uf(7, v)); break;
        case 3: { int w = sym::any(); c4.set(mdl{v, w}); m = mdl{sym::uf(9, v), w}; break; }
        case 4: m.b = v; root.set(m); break;
        case 5: { const int w = v; c5.set(w); m.a = g(v); break; }
        }
        if (sym::flip()) lager::commit(root);
    }
    lager::commit(root);
    CHECK(root.get() == m, "writing through a reverse transformation writes the reverse image");
    CHECK((c.get() == f(m.a)) & (c5.get() == f(m.a)), "and reading shows the forward one");
    CHECK((c2.get() == sym::uf(6, f(m.a))) & (c3.get() == sym::uf(6, f(m.a))), "composed");
    CHECK(c4.get() == (mdl{sym::uf(8, m.a), m.b}), "of several parents");
    sym::observe(m.a);
    sym::reach("done");
}
HARNESS(reverse_update)
{
    auto m    = any_mdl();
    int s     = sym::any();
    auto root = lager::make_state(m, lager::transactional_tag{});
    auto other = lager::make_state(s, lager::transactional_tag{});
    lager::cursor<int> a = root[&mdl::a];
    // updating transformations: the parents' values as written so far and the new value
    lager::cursor<int> u1 = root.xform(zug::map([](const mdl& x) { return sym::uf(1, x.a, x.b); }), lager::update([](const mdl& x, int v) { return mdl{sym::uf(2, x.a, v), x.b}; }));
    lager::cursor<int> u2 = lager::with(a, other).xform(zug::map([](int x, int y) { return sym::uf(3, x, y); }), lager::update([](const pr& x, int v) { return std::make_tuple(sym::uf(4, std::get<0>(x), v), sym::uf(5, std::get<1>(x), v)); }));
    lager::cursor<int> u3 = a.xform(zug::map(f), zug::comp(zug::map(g), lager::update([](int x, int v) { return sym::uf(6, x, v); })));
    for (int i = 0; i < bound(2, 3); ++i) {
        int v = sym::any();
        switch (sym::choice(5)) {
        case 0: u1.set(v); m.a = sym::uf(2, m.a, v); break;
        case 1: u2.set(v); m.a = sym::uf(4, m.a, v); s = sym::uf(5, s, v); break;
        case 2: u3.set(v); m.a = sym::uf(6, m.a, g(v)); break;
        case 3: other.set(v); s = v; break;
        case 4: { auto n = any_mdl(); root.set(n); m = n; break; }
        }
        if (sym::flip()) lager::commit(other, root);
    }
    lager::commit(root, other);
    CHECK((root.get() == m) & (other.get() == s), "an updating transformation is computed from the parents' current values");
    CHECK(u1.get() == sym::uf(1, m.a, m.b), "reading");
    CHECK(u2.get() == sym::uf(3, m.a, s), "reading two parents");
    CHECK(u3.get() == f(m.a), "reading a map");
    sym::observe(m.a);
    sym::reach("done");
}
// a reverse transformation that rejects some values writes nothing for them
HARNESS(reverse_filter)
{
    int v     = sym::any();
    auto root = lager::make_state(v, lager::automatic_tag{});
    lager::cursor<int> c = root.xform(zug::map(f), zug::comp(zug::filter(p), zug::map(g)));
    for (int i = 0; i < bound(3, 4); ++i) {
        int w = sym::any();
        c.set(w);
        if (p(w))
            v = g(w);
        CHECK(root.get() == v, "a rejected value is not written, an accepted one is");
        CHECK(c.get() == f(v), "the cursor shows its source");
    }
    sym::observe(v);
    sym::reach("done");
}
