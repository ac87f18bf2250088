//@ entry: plain reach=done
//@ entry: keyed reach=done
//@ entry: subsets reach=done
//@ entry: merges reach=done
//@ entry: merge_overlap reach=done
//@ entry: merge_kinds reach=done
//@ entry: optionals reach=done,present,missing
//@ entry: functions reach=done
//@ entry: chains reach=done,present,missing
//@ entry: in_store reach=done
//@ entry: many reach=done
//@ bounds: bags of up to 5 dependencies (values, references, reference wrappers, keyed, optional, provided by functions), passed through up to 4 copies, subsets, reorderings, merges and conversions; stored values arbitrary and emptied when moved from, referenced objects arbitrary and changed afterwards; optional dependencies supplied or not; a bag of 10 dependencies, subsets of it in another order and a merge
//@ outside: bags with more than 10 dependencies; the static checks that reject bags with missing required dependencies
#include "common.hpp"
#include <lager/deps.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>

namespace {
template <int I>
struct thing
{
    int v = 0;
    thing() = default;
    explicit thing(int x) : v(x) {}
    thing(const thing&) = default;
    thing& operator=(const thing&) = default;
    thing(thing&& o) noexcept : v(o.v) { o.v = -7777777; }
    thing& operator=(thing&& o) noexcept
    {
        int t = o.v;
        o.v   = -7777777;
        v     = t;
        return *this;
    }
    ~thing() { __lsym_scrub(&v); }
};
using A = thing<0>;
using B = thing<1>;
using C = thing<2>;
using D = thing<3>;
struct k1 {};
struct k2 {};
struct k3 {};
using namespace lager;
template <class T> T any_() { return T{sym::any()}; }
template <class K, class Bag>
bool missing(const Bag& b)
{
    try {
        (void) b.template get<K>();
    } catch (const lager::missing_dependency_error&) {
        return true;
    }
    return false;
}
} // namespace
#define VAL(bag, key, want) CHECK((bag).template get<key>().v == (want) && lager::get<key>(bag).v == (want), "a key yields the value supplied for it")
#define REF(bag, key, obj) CHECK(&(bag).template get<key>() == &(obj) && &lager::get<key>(bag) == &(obj), "a key yields the very object supplied for it")
#define HAS(bag, key, yes) CHECK((bag).template has<key>() == (yes) && lager::has<key>(bag) == (yes), "present if and only if it was supplied")
HARNESS(plain)
{
    int a = sym::any(), b = sym::any(), d = sym::any();
    C c{sym::any()};
    auto x = deps<A, B, C&, D>::with(A{a}, B{b}, c, D{d});
    auto chk = [&](auto& y) {
        VAL(y, A, a);
        VAL(y, B, b);
        REF(y, C, c);
        VAL(y, D, d);
        HAS(y, A, true);
        HAS(y, C, true);
    };
    chk(x);
    auto y = x;
    chk(x);
    chk(y);
    auto z = std::move(y);
    chk(z);
    y = z;
    chk(y);
    chk(z);
    c.v = sym::any();
    VAL(y, C, c.v);
    D dd{d};
    const auto m = make_deps(A{a}, B{b}, std::ref(c), D{d});
    chk(m);
    auto n = make_deps(D{d}, A{a}, std::ref(c), B{b});
    chk(n);
    deps<A, B, C&, D> o{n};
    chk(o);
    chk(n);
    deps<> e{n};
    (void) e;
    sym::reach("done");
}
HARNESS(keyed)
{
    int a = sym::any(), b = sym::any();
    A r1{sym::any()}, r2{sym::any()};
    auto x = deps<dep::key<k1, A>, dep::key<k2, A>, dep::key<k3, A&>, A&>::with(A{a}, A{b}, r1, r2);
    auto chk = [&](auto& y) {
        VAL(y, k1, a);
        VAL(y, k2, b);
        REF(y, k3, r1);
        REF(y, A, r2);
    };
    chk(x);
    deps<A&, dep::key<k3, A&>, dep::key<k2, A>, dep::key<k1, A>> y{x};
    chk(y);
    chk(x);
    auto z = deps<dep::key<k2, A>, dep::key<k1, A>>::with(A{b}, A{a}).merge(deps<dep::key<k3, A&>, A&>::with(r1, r2));
    chk(z);
    deps<dep::key<k1, A>, dep::key<k3, A&>> s{z};
    VAL(s, k1, a);
    REF(s, k3, r1);
    r1.v = sym::any();
    VAL(s, k3, r1.v);
    sym::reach("done");
}
HARNESS(subsets)
{
    int a = sym::any(), b = sym::any(), c = sym::any();
    D d{sym::any()};
    auto x = deps<A, B, C, D&>::with(A{a}, B{b}, C{c}, d);
    deps<C, A> y{x};
    VAL(y, A, a);
    VAL(y, C, c);
    deps<A> z{y};
    VAL(z, A, a);
    deps<D&, B> w{x};
    REF(w, D, d);
    VAL(w, B, b);
    deps<D&> u = std::move(w);
    REF(u, D, d);
    deps<A, B, C> t{std::move(x)};
    VAL(t, A, a);
    VAL(t, B, b);
    VAL(t, C, c);
    VAL(y, A, a);
    VAL(y, C, c);
    sym::reach("done");
}
HARNESS(merges)
{
    int a = sym::any(), b = sym::any(), c = sym::any();
    D d{sym::any()};
    auto x = deps<A, D&>::with(A{a}, d);
    auto y = deps<B, C>::with(B{b}, C{c});
    auto chk = [&](auto& m) {
        VAL(m, A, a);
        VAL(m, B, b);
        VAL(m, C, c);
        REF(m, D, d);
    };
    auto m1 = x.merge(y);
    chk(m1);
    auto m2 = y.merge(x);
    chk(m2);
    deps<C, D&, A, B> m3{x, y};
    chk(m3);
    deps<C, D&> m4{x, y};
    VAL(m4, C, c);
    REF(m4, D, d);
    VAL(x, A, a);
    VAL(y, B, b);
    deps<> e;
    auto m5 = e.merge(m1);
    chk(m5);
    auto m6 = m1.merge(e);
    chk(m6);
    sym::reach("done");
}
// the right hand side wins
HARNESS(merge_overlap)
{
    int a1 = sym::any(), a2 = sym::any(), b = sym::any(), c = sym::any();
    A r{sym::any()}, r2{sym::any()};
    auto x = deps<A, B>::with(A{a1}, B{b});
    auto y = deps<C, A>::with(C{c}, A{a2});
    auto m = x.merge(y);
    VAL(m, A, a2);
    VAL(m, B, b);
    VAL(m, C, c);
    auto n = y.merge(x);
    VAL(n, A, a1);
    VAL(n, B, b);
    VAL(n, C, c);
    deps<A, C> o{x, y};
    VAL(o, A, a2);
    VAL(o, C, c);
    deps<A> p{y, x};
    VAL(p, A, a1);
    sym::reach("done");
}
// also when it is of another kind
HARNESS(merge_kinds)
{
    int a1 = sym::any(), b = sym::any();
    A r{sym::any()}, r2{sym::any()};
    auto x = deps<A, B>::with(A{a1}, B{b});
    // a value, then a reference under the same key
    auto z  = deps<A&>::with(r);
    auto m2 = x.merge(z);
    REF(m2, A, r);
    VAL(m2, B, b);
    auto m3 = z.merge(x);
    VAL(m3, A, a1);
    auto k  = deps<dep::key<k1, A&>, dep::key<k2, A>>::with(r, A{a1});
    auto l  = deps<dep::key<k1, A&>>::with(r2);
    auto m4 = k.merge(l);
    REF(m4, k1, r2);
    VAL(m4, k2, a1);
    auto m5 = l.merge(k);
    REF(m5, k1, r);
    VAL(m5, k2, a1);
    sym::reach("done");
}
HARNESS(optionals)
{
    int a = sym::any(), b = sym::any();
    C c{sym::any()};
    bool ha = sym::flip(), hc = sym::flip();
    using bag = deps<dep::opt<A>, B, dep::opt<dep::key<k1, C&>>>;
    auto make = [&]() -> bag {
        if (ha && hc)
            return bag{deps<A, B, dep::key<k1, C&>>::with(A{a}, B{b}, c)};
        if (ha)
            return bag{deps<B, A>::with(B{b}, A{a})};
        if (hc)
            return bag{deps<dep::key<k1, C&>, B, D>::with(c, B{b}, D{1})};
        return bag{deps<B>::with(B{b})};
    };
    auto chk = [&](auto& x) {
        HAS(x, A, ha);
        HAS(x, k1, hc);
        if (ha) {
            VAL(x, A, a);
            sym::reach("present");
        } else {
            CHECK(missing<A>(x), "asking for a missing dependency throws");
            sym::reach("missing");
        }
        if (hc)
            REF(x, k1, c);
        else
            CHECK(missing<k1>(x), "asking for a missing dependency throws");
    };
    auto x = make();
    chk(x);
    VAL(x, B, b);
    HAS(x, B, true);
    auto y = x;
    chk(y);
    deps<dep::opt<dep::key<k1, C&>>, dep::opt<A>> z{x};
    chk(z);
    deps<dep::opt<D>> w{x};
    HAS(w, D, false);
    CHECK(missing<D>(w), "asking for a missing dependency throws");
    // directly constructed
    auto u = deps<dep::opt<A>, B>::with(A{a}, B{b});
    HAS(u, A, true);
    VAL(u, A, a);
    deps<dep::opt<A>> def;
    HAS(def, A, false);
    CHECK(missing<A>(def), "asking for a missing dependency throws");
    // an optional merged over, and under, the same key
    auto q = x.merge(deps<D>::with(D{b}));
    chk(q);
    VAL(q, D, b);
    auto p = deps<D>::with(D{b}).merge(x);
    chk(p);
    VAL(p, D, b);
    auto s = x.merge(deps<A>::with(A{b}));
    HAS(s, A, true);
    VAL(s, A, b);
    auto t = deps<A>::with(A{b}).merge(x);
    HAS(t, A, ha);
    if (ha)
        VAL(t, A, a);
    sym::reach("done");
}
HARNESS(functions)
{
    A a{sym::any()};
    int b = sym::any(), nb = 0;
    auto x = make_deps(dep::as<dep::fn<A&>>([&]() -> A& { return a; }), dep::as<dep::key<k1, dep::fn<B>>>([&] { ++nb; return B{b}; }), C{b});
    REF(x, A, a);
    VAL(x, C, b);
    nb = 0;
    CHECK(x.get<k1>().v == b, "a function provides the value");
    CHECK(nb == 1, "called once");
    auto y = x;
    b      = sym::any();
    CHECK(y.get<k1>().v == b, "a function provides the present value");
    deps<A&> z{x};
    REF(z, A, a);
    deps<dep::key<k1, dep::fn<B>>, dep::fn<A&>> w{x};
    REF(w, A, a);
    CHECK(w.get<k1>().v == b, "a function provides the value");
    auto m = w.merge(deps<D>::with(D{3}));
    nb     = 0;
    for (int i = 0; i < 2; ++i) {
        b = sym::any();
        REF(m, A, a);
        CHECK(m.get<k1>().v == b, "a function provides the present value, however many bags it went through");
        CHECK(w.get<k1>().v == b, "a function provides the present value, however many bags it went through");
        CHECK(y.get<k1>().v == b, "a function provides the present value, however many bags it went through");
        CHECK(nb == 3 * (i + 1), "called once each time the dependency is asked for");
    }
    deps<dep::opt<dep::key<k1, dep::fn<B>>>, dep::opt<dep::fn<A&>>> o{m};
    HAS(o, k1, true);
    HAS(o, A, true);
    b = sym::any();
    CHECK(o.get<k1>().v == b, "an optional function provides the present value");
    REF(o, A, a);
    A a2{sym::any()};
    auto m2 = w.merge(deps<A&>::with(a2));
    REF(m2, A, a2);
    auto m3 = deps<A&>::with(a2).merge(w);
    REF(m3, A, a);
    HAS(m3, A, true);
    sym::reach("done");
}
HARNESS(chains)
{
    int a = sym::any(), b = sym::any(), c = sym::any();
    D d{sym::any()}, d2{sym::any()};
    bool over = sym::flip();
    auto x = deps<A, dep::key<k1, B>, D&>::with(A{a}, B{b}, d);
    auto y = deps<dep::key<k2, C>>::with(C{c}).merge(x);
    deps<dep::opt<dep::key<k2, C>>, D&, dep::opt<dep::key<k3, A>>> z{y};
    auto w = z.merge(deps<dep::key<k1, B>>::with(B{b}));
    deps<dep::opt<dep::key<k3, A>>, dep::opt<dep::key<k2, C>>, dep::opt<dep::key<k1, B>>, D&> v{over ? decltype(w){w.merge(deps<D&>::with(d2))} : w};
    VAL(v, k1, b);
    VAL(v, k2, c);
    HAS(v, k1, true);
    HAS(v, k2, true);
    HAS(v, k3, false);
    sym::reach("present");
    CHECK(missing<k3>(v), "asking for a missing dependency throws");
    sym::reach("missing");
    if (over)
        REF(v, D, d2);
    else
        REF(v, D, d);
    sym::reach("done");
}
// what a store's effects get
HARNESS(in_store)
{
    using act = int;
    using dd  = deps<A&, dep::key<k1, B>, dep::opt<C>>;
    A a{sym::any()};
    int b = sym::any(), ran = 0;
    bool extra = sym::flip();
    auto body = [&](const auto& ctx) {
        ++ran;
        CHECK(&lager::get<A>(ctx) == &a, "a reference supplied to a store");
        CHECK(lager::get<k1>(ctx).v == b, "a value supplied to a store");
        CHECK(lager::has<C>(ctx) == extra, "an optional dependency is present if and only if supplied");
    };
    auto red = [&](int m, act x) -> result<int, act, dd> { return {m + x, effect<act, dd>{[&](const context<act, dd>& ctx) { body(ctx); }}}; };
    if (extra) {
        auto s = make_store<act>(0, with_manual_event_loop{}, with_reducer(red), with_deps(std::ref(a), dep::as<dep::key<k1, B>>(B{b}), C{3}));
        s.dispatch(1);
    } else {
        auto s = make_store<act>(0, with_manual_event_loop{}, with_reducer(red), with_deps(dep::as<dep::key<k1, B>>(B{b})), with_deps(std::ref(a)));
        s.dispatch(1);
    }
    CHECK(ran == 1, "the effect runs");
    sym::reach("done");
}
// many dependencies
HARNESS(many)
{
    using deps_t = deps<A&, thing<11>, thing<12>, thing<13>, dep::key<k1, thing<14>>, dep::key<k2, thing<14>>, thing<15>, B&, thing<16>, dep::key<k3, A&>>;
    A a{sym::any()}, a2{sym::any()};
    B b{sym::any()};
    int v[7];
    for (auto& x : v)
        x = sym::any();
    auto x = deps_t::with(a, thing<11>{v[0]}, thing<12>{v[1]}, thing<13>{v[2]}, thing<14>{v[3]}, thing<14>{v[4]}, thing<15>{v[5]}, b, thing<16>{v[6]}, a2);
    auto check = [&](auto& x) {
        REF(x, A, a);
        REF(x, B, b);
        REF(x, k3, a2);
        VAL(x, thing<11>, v[0]);
        VAL(x, thing<12>, v[1]);
        VAL(x, thing<13>, v[2]);
        VAL(x, k1, v[3]);
        VAL(x, k2, v[4]);
        VAL(x, thing<15>, v[5]);
        VAL(x, thing<16>, v[6]);
    };
    check(x);
    deps<thing<16>, dep::key<k3, A&>, thing<15>, dep::key<k2, thing<14>>, A&, B&, thing<13>, thing<11>, dep::key<k1, thing<14>>, thing<12>> y{x};
    check(y);
    deps<dep::key<k2, thing<14>>, thing<16>, thing<12>> z{y};
    VAL(z, thing<16>, v[6]);
    VAL(z, thing<12>, v[1]);
    VAL(z, k2, v[4]);
    auto m = deps<thing<13>, thing<16>>::with(thing<13>{1}, thing<16>{2}).merge(y);
    check(m);
    sym::reach("done");
}
