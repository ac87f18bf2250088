//@ entry: attrs reach=done
//@ entry: tuples reach=done
//@ entry: zips reach=done
//@ entry: fans reach=done
//@ entry: boxes reach=done
//@ entry: getsets reach=done
//@ entry: getset_by_value reach=done
//@ entry: values_or reach=done
//@ entry: chains reach=done
//@ entry: overs reach=done
//@ entry: many reach=done
//@ bounds: none on the values: arbitrary wholes and parts whose leaves are arbitrary ints that are emptied when moved from; every listed lens and composition, whole as const, lvalue or temporary, value as const, lvalue or temporary, plain and type-erased
//@ outside: compositions deeper than 4; fans over overlapping parts; lenses written by users
#include "lens.hpp"
#include <immer/box.hpp>

namespace {
struct leaf { mv x, y; };
struct node { leaf l; mv z; };
bool eqv(const leaf& a, const leaf& b) { return eqv(a.x, b.x) & eqv(a.y, b.y); }
bool eqv(const node& a, const node& b) { return eqv(a.l, b.l) & eqv(a.z, b.z); }
bool operator==(const leaf& a, const leaf& b) { return eqv(a, b); }
bool operator==(const node& a, const node& b) { return eqv(a, b); }
leaf any_leaf() { leaf l; l.x = any_mv(); l.y = any_mv(); return l; }
node any_node() { node n; n.l = any_leaf(); n.z = any_mv(); return n; }
using namespace lager::lenses;
bool eqv(const immer::box<leaf>& a, const immer::box<leaf>& b) { return eqv(a.get(), b.get()); }
bool eqv(const std::pair<leaf, node>& a, const std::pair<leaf, node>& b) { return eqv(a.first, b.first) & eqv(a.second, b.second); }
struct boxed { immer::box<leaf> b; mv k; };
bool eqv(const boxed& a, const boxed& b) { return eqv(a.b, b.b) & eqv(a.k, b.k); }
} // namespace
HARNESS(attrs)
{
    auto w = any_node();
    laws<mv>(attr(&node::z), w, any_mv(), any_mv(), [](const node& n) { return n.z; }, [](node n, mv v) { n.z = v; return n; });
    laws<leaf>(attr(&node::l), w, any_leaf(), any_leaf(), [](const node& n) { return n.l; }, [](node n, leaf v) { n.l = v; return n; });
    auto xl = zug::comp(attr(&node::l), attr(&leaf::y));
    laws<mv>(xl, w, any_mv(), any_mv(), [](const node& n) { return n.l.y; }, [](node n, mv v) { n.l.y = v; return n; });
    laws<mv>(attr(&node::l) | attr(&leaf::x), w, any_mv(), any_mv(), [](const node& n) { return n.l.x; }, [](node n, mv v) { n.l.x = v; return n; });
    sym::reach("done");
}
HARNESS(tuples)
{
    using T = std::tuple<mv, leaf, mv>;
    T w{any_mv(), any_leaf(), any_mv()};
    laws<mv>(element<0>, w, any_mv(), any_mv(), [](const T& t) { return std::get<0>(t); }, [](T t, mv v) { std::get<0>(t) = v; return t; });
    laws<mv>(element<2>, w, any_mv(), any_mv(), [](const T& t) { return std::get<2>(t); }, [](T t, mv v) { std::get<2>(t) = v; return t; });
    laws<leaf>(second, w, any_leaf(), any_leaf(), [](const T& t) { return std::get<1>(t); }, [](T t, leaf v) { std::get<1>(t) = v; return t; });
    using P = std::pair<leaf, mv>;
    P p{any_leaf(), any_mv()};
    laws<mv>(second, p, any_mv(), any_mv(), [](const P& t) { return t.second; }, [](P t, mv v) { t.second = v; return t; });
    laws<leaf>(first, p, any_leaf(), any_leaf(), [](const P& t) { return t.first; }, [](P t, leaf v) { t.first = v; return t; });
    laws<mv>(zug::comp(first, attr(&leaf::y)), p, any_mv(), any_mv(), [](const P& t) { return t.first.y; }, [](P t, mv v) { t.first.y = v; return t; });
    sym::reach("done");
}
HARNESS(zips)
{
    using W = std::pair<leaf, node>;
    using P = std::pair<mv, mv>;
    W w{any_leaf(), any_node()};
    auto mk = [] { auto a = any_mv(); auto b = any_mv(); return P{a, b}; };
    laws<P>(zip(attr(&leaf::y), attr(&node::z)), w, mk(), mk(), [](const W& x) { return P{x.first.y, x.second.z}; }, [](W x, P p) { x.first.y = p.first; x.second.z = p.second; return x; });
    auto ln = zug::comp(attr(&node::l), attr(&leaf::x));
    laws<P>(zip(attr(&leaf::x), ln), w, mk(), mk(), [](const W& x) { return P{x.first.x, x.second.l.x}; }, [](W x, P p) { x.first.x = p.first; x.second.l.x = p.second; return x; });
    using W3 = std::tuple<leaf, node, leaf>;
    using P3 = std::tuple<mv, leaf, mv>;
    W3 w3{any_leaf(), any_node(), any_leaf()};
    auto mk3 = [] { auto a = any_mv(); auto b = any_leaf(); auto c = any_mv(); return P3{a, b, c}; };
    laws<P3>(zip(attr(&leaf::x), attr(&node::l), attr(&leaf::y)), w3, mk3(), mk3(), [](const W3& x) { return P3{std::get<0>(x).x, std::get<1>(x).l, std::get<2>(x).y}; },
             [](W3 x, P3 p) { std::get<0>(x).x = std::get<0>(p); std::get<1>(x).l = std::get<1>(p); std::get<2>(x).y = std::get<2>(p); return x; });
    sym::reach("done");
}
struct wide { mv a, b, c, d, e; };
bool eqv(const wide& x, const wide& y) { return eqv(x.a, y.a) & eqv(x.b, y.b) & eqv(x.c, y.c) & eqv(x.d, y.d) & eqv(x.e, y.e); }
HARNESS(many)
{
    wide w{any_mv(), any_mv(), any_mv(), any_mv(), any_mv()};
    using P4 = std::tuple<mv, mv, mv, mv>;
    using P5 = std::tuple<mv, mv, mv, mv, mv>;
    auto mk4 = [] { return P4{any_mv(), any_mv(), any_mv(), any_mv()}; };
    auto mk5 = [] { return P5{any_mv(), any_mv(), any_mv(), any_mv(), any_mv()}; };
    laws<P4>(fan(attr(&wide::d), attr(&wide::a), attr(&wide::e), attr(&wide::b)), w, mk4(), mk4(), [](const wide& x) { return P4{x.d, x.a, x.e, x.b}; }, [](wide x, P4 p) { std::tie(x.d, x.a, x.e, x.b) = p; return x; });
    laws<P5>(fan(attr(&wide::e), attr(&wide::d), attr(&wide::c), attr(&wide::b), attr(&wide::a)), w, mk5(), mk5(), [](const wide& x) { return P5{x.e, x.d, x.c, x.b, x.a}; }, [](wide x, P5 p) { std::tie(x.e, x.d, x.c, x.b, x.a) = p; return x; });
    laws<P5>(attr(&wide::b, &wide::a, &wide::c, &wide::e, &wide::d), w, mk5(), mk5(), [](const wide& x) { return P5{x.b, x.a, x.c, x.e, x.d}; }, [](wide x, P5 p) { std::tie(x.b, x.a, x.c, x.e, x.d) = p; return x; });
    using W4 = std::tuple<leaf, mv, wide, leaf>;
    W4 w4{any_leaf(), any_mv(), w, any_leaf()};
    laws<P4>(zip(attr(&leaf::y), zug::identity, attr(&wide::c), attr(&leaf::x)), w4, mk4(), mk4(), [](const W4& x) { return P4{std::get<0>(x).y, std::get<1>(x), std::get<2>(x).c, std::get<3>(x).x}; },
             [](W4 x, P4 p) { std::get<0>(x).y = std::get<0>(p); std::get<1>(x) = std::get<1>(p); std::get<2>(x).c = std::get<2>(p); std::get<3>(x).x = std::get<3>(p); return x; });
    laws<mv>(element<3>, mk4(), any_mv(), any_mv(), [](const P4& x) { return std::get<3>(x); }, [](P4 x, mv v) { std::get<3>(x) = v; return x; });
    // over() of lenses with several parts
    auto f5 = [](P5 p) { auto g = [](int i, mv x) { return mv{sym::uf(i, x.v)}; }; return P5{g(1, std::get<1>(p)), std::get<0>(p), g(2, std::get<4>(p)), std::get<2>(p), g(3, std::get<3>(p))}; };
    agrees_over<P5>(fan(attr(&wide::e), attr(&wide::d), attr(&wide::c), attr(&wide::b), attr(&wide::a)), w, [](const wide& x) { return P5{x.e, x.d, x.c, x.b, x.a}; }, [](wide x, P5 p) { std::tie(x.e, x.d, x.c, x.b, x.a) = p; return x; }, f5);
    using W2 = std::pair<wide, leaf>;
    using P2 = std::pair<mv, mv>;
    W2 w2{w, any_leaf()};
    agrees_over<P2>(zip(attr(&wide::c), attr(&leaf::x)), w2, [](const W2& x) { return P2{x.first.c, x.second.x}; }, [](W2 x, P2 p) { x.first.c = p.first; x.second.x = p.second; return x; }, [](P2 p) { return P2{p.second, mv{sym::uf(1, p.first.v)}}; });
    sym::reach("done");
}
HARNESS(fans)
{
    using P2 = std::tuple<mv, mv>;
    using P3 = std::tuple<mv, mv, mv>;
    auto w   = any_node();
    auto mk2 = [] { auto a = any_mv(); auto b = any_mv(); return P2{a, b}; };
    auto mk3 = [] { auto a = any_mv(); auto b = any_mv(); auto c = any_mv(); return P3{a, b, c}; };
    auto ly = zug::comp(attr(&node::l), attr(&leaf::y));
    auto lx = zug::comp(attr(&node::l), attr(&leaf::x));
    laws<P2>(fan(attr(&node::z), ly), w, mk2(), mk2(), [](const node& n) { return P2{n.z, n.l.y}; }, [](node n, P2 p) { n.z = std::get<0>(p); n.l.y = std::get<1>(p); return n; });
    laws<P3>(fan(lx, ly, attr(&node::z)), w, mk3(), mk3(), [](const node& n) { return P3{n.l.x, n.l.y, n.z}; }, [](node n, P3 p) { n.l.x = std::get<0>(p); n.l.y = std::get<1>(p); n.z = std::get<2>(p); return n; });
    auto lf = any_leaf();
    laws<P2>(attr(&leaf::y, &leaf::x), lf, mk2(), mk2(), [](const leaf& n) { return P2{n.y, n.x}; }, [](leaf n, P2 p) { n.y = std::get<0>(p); n.x = std::get<1>(p); return n; });
    laws<P2>(zug::comp(attr(&node::l), fan(attr(&leaf::x), attr(&leaf::y))), w, mk2(), mk2(), [](const node& n) { return P2{n.l.x, n.l.y}; }, [](node n, P2 p) { n.l.x = std::get<0>(p); n.l.y = std::get<1>(p); return n; });
    sym::reach("done");
}
HARNESS(boxes)
{
    using B = immer::box<leaf>;
    B w{any_leaf()};
    laws<leaf>(unbox, w, any_leaf(), any_leaf(), [](const B& b) { return b.get(); }, [](const B&, leaf v) { return B{v}; });
    laws<mv>(zug::comp(unbox, attr(&leaf::x)), w, any_mv(), any_mv(), [](const B& b) { return b.get().x; }, [](const B& b, mv v) { leaf l = b.get(); l.x = v; return B{l}; });
    boxed h{B{any_leaf()}, any_mv()};
    laws<mv>(zug::comp(attr(&boxed::b), unbox, attr(&leaf::y)), h, any_mv(), any_mv(), [](const boxed& b) { return b.b.get().y; }, [](boxed b, mv v) { leaf l = b.b.get(); l.y = v; b.b = B{l}; return b; });
    sym::reach("done");
}
HARNESS(getsets)
{
    // y is shown with an offset: a law-abiding pair with a computed part
    auto get = [](const node& n) { return mv{n.l.y.v - 3}; };
    auto put = [](node n, mv v) { n.l.y.v = v.v + 3; return n; };
    auto w   = any_node();
    laws<mv>(getset(get, [](const node& n, const mv& v) { node r = n; r.l.y.v = v.v + 3; return r; }), w, any_mv(), any_mv(), get, put);
    laws<mv>(getset([](auto&& n) { return mv{n.l.y.v - 3}; }, [](auto&& n, auto&& v) { node r = LAGER_FWD(n); r.l.y.v = v.v + 3; return r; }), w, any_mv(), any_mv(), get, put);
    auto l = zug::comp(attr(&node::l), getset([](const leaf& n) { return n.x; }, [](leaf n, const mv& v) { n.x = v; return n; }));
    laws<mv>(l, w, any_mv(), any_mv(), [](const node& n) { return n.l.x; }, [](node n, mv v) { n.l.x = v; return n; });
    auto r = zug::comp(getset([](const node& n) { return n.l; }, [](node n, const leaf& v) { n.l = v; return n; }), attr(&leaf::x));
    laws<mv>(r, w, any_mv(), any_mv(), [](const node& n) { return n.l.x; }, [](node n, mv v) { n.l.x = v; return n; });
    sym::reach("done");
}
// a getter that takes the whole by value
HARNESS(getset_by_value)
{
    auto w = any_node();
    laws<mv>(getset([](node n) { return n.l.y; }, [](node n, mv v) { n.l.y = v; return n; }), w, any_mv(), any_mv(), [](const node& n) { return n.l.y; }, [](node n, mv v) { n.l.y = v; return n; });
    auto c = zug::comp(attr(&node::l), getset([](leaf n) { return n.x; }, [](leaf n, mv v) { n.x = v; return n; }));
    laws<mv>(c, w, any_mv(), any_mv(), [](const node& n) { return n.l.x; }, [](node n, mv v) { n.l.x = v; return n; });
    // and one that forwards a part of it
    laws<mv>(getset([](auto&& n) { return LAGER_FWD(n).z; }, [](node n, mv v) { n.z = v; return n; }), w, any_mv(), any_mv(), [](const node& n) { return n.z; }, [](node n, mv v) { n.z = v; return n; });
    sym::reach("done");
}
HARNESS(values_or)
{
    using O = std::optional<mv>;
    O w{any_mv()};
    mv d = any_mv();
    laws<mv>(value_or(d), w, any_mv(), any_mv(), [](const O& o) { return *o; }, [](const O&, mv v) { return O{v}; });
    laws<mv>(or_default, w, any_mv(), any_mv(), [](const O& o) { return *o; }, [](const O&, mv v) { return O{v}; });
    // on an empty optional the default is shown and setting engages it
    O e;
    agrees<mv>(value_or(d), e, any_mv(), [d](const O&) { return d; }, [](const O&, mv v) { return O{v}; });
    agrees<mv>(or_default, e, any_mv(), [](const O&) { return mv{}; }, [](const O&, mv v) { return O{v}; });
    using OL = std::optional<leaf>;
    OL l{any_leaf()};
    laws<mv>(zug::comp(or_default, attr(&leaf::y)), l, any_mv(), any_mv(), [](const OL& o) { return o->y; }, [](OL o, mv v) { o->y = v; return o; });
    sym::reach("done");
}
HARNESS(chains)
{
    using W = std::tuple<mv, std::pair<mv, node>>;
    W w{any_mv(), {any_mv(), any_node()}};
    auto get = [](const W& x) { return std::get<1>(x).second.l.x; };
    auto put = [](W x, mv v) { std::get<1>(x).second.l.x = v; return x; };
    laws<mv>(zug::comp(zug::comp(second, second), zug::comp(attr(&node::l), attr(&leaf::x))), w, any_mv(), any_mv(), get, put);
    laws<mv>(zug::comp(second, second) | attr(&node::l) | attr(&leaf::x), w, any_mv(), any_mv(), get, put);
    lager::lens<W, node> a{zug::comp(second, second)};
    lager::lens<node, mv> b{zug::comp(attr(&node::l), attr(&leaf::x))};
    laws<mv>(zug::comp(a, b), w, any_mv(), any_mv(), get, put);
    using P = std::tuple<mv, mv>;
    auto f  = zug::comp(second, fan(first, zug::comp(second, attr(&node::z))));
    P v{any_mv(), any_mv()}, u{any_mv(), any_mv()};
    laws<P>(f, w, v, u, [](const W& x) { return P{std::get<1>(x).first, std::get<1>(x).second.z}; }, [](W x, P p) { std::get<1>(x).first = std::get<0>(p); std::get<1>(x).second.z = std::get<1>(p); return x; });
    sym::reach("done");
}
HARNESS(overs)
{
    auto w = any_node();
    auto f = [](mv x) { return mv{sym::uf(1, x.v)}; };
    agrees_over<mv>(attr(&node::z), w, [](const node& n) { return n.z; }, [](node n, mv v) { n.z = v; return n; }, f);
    agrees_over<mv>(zug::comp(attr(&node::l), attr(&leaf::x)), w, [](const node& n) { return n.l.x; }, [](node n, mv v) { n.l.x = v; return n; }, f);
    using P = std::pair<leaf, mv>;
    P p{any_leaf(), any_mv()};
    agrees_over<mv>(zug::comp(first, attr(&leaf::y)), p, [](const P& t) { return t.first.y; }, [](P t, mv v) { t.first.y = v; return t; }, f);
    agrees_over<leaf>(attr(&node::l), w, [](const node& n) { return n.l; }, [](node n, leaf v) { n.l = v; return n; }, [](leaf l) { return leaf{mv{sym::uf(1, l.x.v)}, mv{sym::uf(2, l.y.v)}}; });
    sym::reach("done");
}
