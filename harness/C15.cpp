//@ entry: same_root reach=done
//@ entry: other_roots reach=done
//@ entry: readers reach=done
//@ entry: nested reach=done
//@ bounds: merges of 2 and 3 parents (cursors of the same root, overlapping or not, of other roots, other merges); 2-3 (thorough: 3-4) writes through the merge or the parents; arbitrary values
//@ outside: merges of more than 3 parents; the same node merged twice (the library asserts against it)
#include "graph.hpp"

using tr = std::tuple<int, int, int>;
namespace {
template <class Tag>
void same_run()
{
    auto m    = any_outer();
    auto root = lager::make_state(m, Tag{});
    lager::cursor<mdl> in = root[&outer::in];
    lager::cursor<int> a = in[&mdl::a], b = in[&mdl::b], c = root[&outer::c];
    lager::cursor<pr> ab  = lager::with(a, b);
    lager::cursor<tr> cba = lager::with(c, b, a);
    lager::cursor<std::tuple<mdl, int>> ic = lager::with(in, c);
    int calls = 0;
    pr last{};
    lager::watch(ab, [&](const pr& p) { calls++; last = p; });
    for (int i = 0; i < bound(2, 3); ++i) {
        switch (sym::choice(5)) {
        case 0: { int x = sym::any(), y = sym::any(); ab.set(pr{x, y}); m.in = mdl{x, y}; break; }
        case 1: { int x = sym::any(), y = sym::any(), z = sym::any(); cba.set(tr{x, y, z}); m = outer{{z, y}, x}; break; }
        case 2: { auto x = any_mdl(); int y = sym::any(); const std::tuple<mdl, int> v{x, y}; ic.set(v); m = outer{x, y}; break; }
        case 3: { int x = sym::any(); b.set(x); m.in.b = x; break; }
        case 4: { auto x = any_outer(); root.set(x); m = x; break; }
        }
        if (sym::flip()) {
            lager::commit(root);
            CHECK(root.get() == m, "every component is written to its parent");
            CHECK(same(ab.get(), pr{m.in.a, m.in.b}), "the merge shows the values of its parents");
        }
    }
    lager::commit(root);
    CHECK(root.get() == m, "every component is written to its parent");
    CHECK(same(ab.get(), pr{m.in.a, m.in.b}), "the merge shows the values of its parents");
    auto t = cba.get();
    CHECK((std::get<0>(t) == m.c) & (std::get<1>(t) == m.in.b) & (std::get<2>(t) == m.in.a), "three parents");
    auto u = ic.get();
    CHECK((std::get<0>(u) == m.in) & (std::get<1>(u) == m.c), "parents of different types");
    if (calls)
        CHECK(same(last, ab.get()), "the last notification carries the value");
    sym::observe(m.c);
    sym::reach("done");
}
} // namespace
HARNESS(same_root)
{
    if (sym::flip())
        same_run<lager::transactional_tag>();
    else
        same_run<lager::automatic_tag>();
}
HARNESS(other_roots)
{
    int x = sym::any(), y = sym::any();
    auto z = any_mdl();
    auto rx = lager::make_state(x, lager::transactional_tag{});
    auto ry = lager::make_state(y, lager::automatic_tag{});
    auto rz = lager::make_state(z, lager::transactional_tag{});
    lager::cursor<tr> m = lager::with(rx, ry, lager::cursor<int>{rz[&mdl::a]});
    for (int i = 0; i < bound(3, 4); ++i) {
        switch (sym::choice(5)) {
        case 0: x = sym::any(); y = sym::any(); z.a = sym::any(); m.set(tr{x, y, z.a}); break;
        case 1: x = sym::any(); rx.set(x); break;
        case 2: y = sym::any(); ry.set(y); break;
        case 3: z = any_mdl(); rz.set(z); break;
        case 4: m.update([](const tr& t) { return tr{sym::uf(1, std::get<2>(t)), sym::uf(2, std::get<0>(t)), sym::uf(3, std::get<1>(t))}; }); { int o = x; x = sym::uf(1, z.a); z.a = sym::uf(3, y); y = sym::uf(2, o); } break;
        }
        if (sym::flip())
            lager::commit(rz, rx);
    }
    lager::commit(rx, rz);
    CHECK((rx.get() == x) & (ry.get() == y) & (rz.get() == z), "every component is written to its own parent");
    auto t = m.get();
    CHECK((std::get<0>(t) == x) & (std::get<1>(t) == y) & (std::get<2>(t) == z.a), "the merge shows its parents");
    sym::observe(x);
    sym::reach("done");
}
HARNESS(readers)
{
    auto m    = any_outer();
    auto root = lager::make_state(m, lager::transactional_tag{});
    lager::reader<int> a = root[&outer::in][&mdl::a];
    lager::reader<int> fc = root.map([](const outer& o) { return sym::uf(1, o.c); });
    lager::reader<pr> p  = lager::with(a, fc);
    lager::reader<int> b = root[&outer::in][&mdl::b];
    lager::reader<tr> q  = lager::with(a, fc, b);
    lager::reader<int> h = lager::with(fc, a).map([](int x, int y) { return sym::uf(2, x, y); });
    for (int i = 0; i < bound(2, 3); ++i) {
        m = any_outer();
        root.set(m);
        CHECK(same(p.get(), pr{a.get(), fc.get()}), "before the commit");
        lager::commit(root);
        CHECK(same(p.get(), pr{m.in.a, sym::uf(1, m.c)}), "the merge shows the values of its parents");
        auto t = q.get();
        CHECK((std::get<0>(t) == m.in.a) & (std::get<1>(t) == sym::uf(1, m.c)) & (std::get<2>(t) == m.in.b), "three parents");
        CHECK(h.get() == sym::uf(2, sym::uf(1, m.c), m.in.a), "mapping of a merge");
    }
    sym::observe(m.c);
    sym::reach("done");
}
HARNESS(nested)
{
    auto m    = any_outer();
    bool autom = sym::flip();
    auto go = [&](auto root) {
        lager::cursor<int> a = root[&outer::in][&mdl::a], b = root[&outer::in][&mdl::b], c = root[&outer::c];
        lager::cursor<pr> ab = lager::with(a, b);
        lager::cursor<std::tuple<int, pr>> cab = lager::with(c, ab);
        lager::cursor<int> el = ab.zoom(lager::lenses::getset([](const pr& p) { return std::get<1>(p); }, [](pr p, int v) { return pr{std::get<0>(p), v}; }));
        for (int i = 0; i < bound(3, 4); ++i)
            switch (sym::choice(4)) {
            case 0: { int x = sym::any(), y = sym::any(), z = sym::any(); cab.set(std::tuple<int, pr>{x, pr{y, z}}); m = outer{{y, z}, x}; break; }
            case 1: { int x = sym::any(); el.set(x); m.in.b = x; break; }
            case 2: { int x = sym::any(); a.set(x); m.in.a = x; break; }
            case 3: { int x = sym::any(), y = sym::any(); ab.set(pr{x, y}); m.in = mdl{x, y}; break; }
            }
        lager::commit(root);
        CHECK(root.get() == m, "root");
        auto t = cab.get();
        CHECK((std::get<0>(t) == m.c) & same(std::get<1>(t), pr{m.in.a, m.in.b}), "merge of a merge");
        CHECK(el.get() == m.in.b, "element of a merge");
    };
    if (autom)
        go(lager::make_state(m, lager::automatic_tag{}));
    else
        go(lager::make_state(m, lager::transactional_tag{}));
    sym::reach("done");
}
