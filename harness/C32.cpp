//@ entry: one_variant reach=done
//@ entry: forwarded reach=done
//@ entry: derived_variant reach=done
//@ entry: move_only reach=done
//@ entry: two_variants reach=done
//@ entry: three_variants reach=done
//@ entry: visitors reach=done
//@ entry: repeated reach=done
//@ entry: many_alternatives reach=done
//@ bounds: one, two and three variants of up to 4 alternatives (ints, structs, a type that is emptied when moved from, a move-only type), as lvalues, constants and temporaries, and types derived from variants (directly and twice); every alternative and combination; stored values arbitrary; handlers per alternative, generic, overloaded by value category, returning values and references; a variant of 12 alternatives and a type derived from it, alone and together with another variant
//@ outside: variants of more than 12 alternatives; variants that lost their value (valueless)
#include "common.hpp"
#include <lager/util.hpp>
#include <memory>

namespace {
// emptied when moved from
struct mv
{
    int v;
    mv(int x) : v(x) {}
    mv(const mv&) = default;
    mv(mv&& o) noexcept : v(o.v) { o.v = -77777; }
    mv& operator=(const mv&) = default;
    mv& operator=(mv&& o) noexcept
    {
        int t = o.v;
        o.v   = -77777;
        v     = t;
        return *this;
    }
    ~mv() { __lsym_scrub(&v); }
};
struct pt
{
    int a, b;
};
struct none
{};
using V = std::variant<int, mv, pt, none>;
struct D1 : V
{
    using V::V;
    int extra = 3;
};
struct D2 : D1
{
    using D1::D1;
};
struct value
{
    unsigned k;
    int x, y;
    value() : k(sym::choice(4)), x(sym::any()), y(sym::any()) {}
    template <class T = V>
    T make() const
    {
        switch (k) {
        case 0: return T{x};
        case 1: return T{mv{x}};
        case 2: return T{pt{x, y}};
        default: return T{none{}};
        }
    }
};
struct calls
{
    int n = 0, k = -1, x = 0, y = 0;
    void hit(int kk, int xx, int yy)
    {
        ++n;
        k = kk;
        x = xx;
        y = yy;
    }
};
void expect(const calls& c, const value& w)
{
    CHECK(c.n == 1, "exactly one handler is called");
    CHECK(c.k == (int) w.k, "the handler of the active alternative is called");
    if (w.k < 3)
        CHECK(c.x == w.x, "the handler gets the stored value");
    if (w.k == 2)
        CHECK(c.y == w.y, "the handler gets the stored value");
}
template <class M>
void run(M&& m, const value& w)
{
    calls c;
    int r = std::forward<M>(m)([&](int x) { c.hit(0, x, 0); return 10; }, [&](const mv& q) { c.hit(1, q.v, 0); return 11; }, [&](const pt& p) { c.hit(2, p.a, p.b); return 12; }, [&](none) { c.hit(3, 0, 0); return 13; });
    expect(c, w);
    CHECK(r == 10 + (int) w.k, "the result of the handler is returned");
}
template <class T>
void holds(const T& v, const value& w)
{
    const V& u = v;
    CHECK(u.index() == w.k, "matching does not change the variant");
    if (w.k == 0)
        CHECK(std::get<0>(u) == w.x, "matching does not change the variant");
    if (w.k == 1)
        CHECK(std::get<1>(u).v == w.x, "matching does not change the variant");
    if (w.k == 2)
        CHECK((std::get<2>(u).a == w.x) & (std::get<2>(u).b == w.y), "matching does not change the variant");
}
} // namespace
template <class T>
void categories()
{
    value w;
    using lager::match;
    auto v        = w.make<T>();
    const auto cv = w.make<T>();
    run(match(v), w);
    holds(v, w);
    run(match(cv), w);
    holds(cv, w);
    run(match(w.make<T>()), w);
    // by reference
    {
        calls c;
        match(v)([&](int& x) { c.hit(0, x++, 0); }, [&](mv& q) { c.hit(1, q.v++, 0); }, [&](pt& p) { c.hit(2, p.a++, p.b); }, [&](none&) { c.hit(3, 0, 0); });
        expect(c, w);
        value u = w;
        u.x     = (int) (1u + w.x);
        holds(v, u);
        v = w.make<T>();
    }
    // the very object, for constants and lvalues
    {
        const void* p = match(cv)([](const int& x) { return (const void*) &x; }, [](const auto& x) { return (const void*) &x; });
        const V& b    = cv;
        const void* q = w.k == 0 ? (const void*) std::get_if<0>(&b) : w.k == 1 ? (const void*) std::get_if<1>(&b) : w.k == 2 ? (const void*) std::get_if<2>(&b) : (const void*) std::get_if<3>(&b);
        CHECK(p == q, "the handler gets the very object stored");
    }
    // moved out of
    {
        calls c;
        match(std::move(v))([&](int&& x) { c.hit(0, x, 0); }, [&](mv&& q) { mv t{std::move(q)}; c.hit(1, t.v, 0); }, [&](pt&& p) { c.hit(2, p.a, p.b); }, [&](none&&) { c.hit(3, 0, 0); });
        expect(c, w);
        V& b = v;
        CHECK(b.index() == w.k, "matching does not change the alternative");
        if (w.k == 1)
            CHECK(std::get<1>(b).v == -77777, "a temporary is handed over, not copied");
    }
    // not moved unless the handler does
    {
        auto u = w.make<T>();
        calls c;
        match(std::move(u))([&](const int& x) { c.hit(0, x, 0); }, [&](const mv& q) { c.hit(1, q.v, 0); }, [&](const pt& p) { c.hit(2, p.a, p.b); }, [&](const none&) { c.hit(3, 0, 0); });
        expect(c, w);
        holds(u, w);
    }
}
// handlers that take anything are told how the variant was given
HARNESS(forwarded)
{
    struct how
    {
        int operator()(mv&) const { return 1; }
        int operator()(const mv&) const { return 2; }
        int operator()(mv&&) const { return 3; }
        int operator()(int&) const { return 4; }
        int operator()(const int&) const { return 5; }
        int operator()(int&&) const { return 6; }
    };
    using X = std::variant<int, mv>;
    X x{sym::any()};
    bool m = sym::flip();
    if (m)
        x = mv{sym::any()};
    const X c = x;
    CHECK(lager::match(x)(how{}) == (m ? 1 : 4), "lvalues are given as lvalues");
    CHECK(lager::match(c)(how{}) == (m ? 2 : 5), "constants are given as constants");
    CHECK(lager::match(std::move(x))(how{}) == (m ? 3 : 6), "temporaries are given as temporaries");
    int k = lager::match(std::move(x), c)([](auto&& a, auto&& b) { return (std::is_lvalue_reference_v<decltype(a)> ? 1 : 0) + (std::is_lvalue_reference_v<decltype(b)> ? 0 : 2); });
    CHECK(k == 0, "each as it was given");
    sym::reach("done");
}
HARNESS(one_variant)
{
    categories<V>();
    sym::reach("done");
}
HARNESS(derived_variant)
{
    if (sym::flip())
        categories<D1>();
    else
        categories<D2>();
    sym::reach("done");
}
HARNESS(move_only)
{
    using P = std::unique_ptr<int>;
    using W = std::variant<P, int>;
    int x   = sym::any();
    bool p  = sym::flip();
    W w     = p ? W{std::make_unique<int>(x)} : W{x};
    int n   = 0;
    // lvalue: the pointer stays
    int r = lager::match(w)([&](P& q) { ++n; return *q; }, [&](int y) { ++n; return y; });
    CHECK((r == x) & (n == 1), "the handler gets the stored value");
    P out = lager::match(std::move(w))([&](P q) { ++n; return q; }, [&](int y) { ++n; return std::make_unique<int>(y); });
    CHECK((*out == x) & (n == 2), "a temporary is handed over, not copied");
    if (p)
        CHECK(!std::get<0>(w), "a temporary is handed over, not copied");
    sym::reach("done");
}
HARNESS(two_variants)
{
    value w1, w2;
    calls c;
    struct dec_t { int k, x, y; };
    auto one = [&](auto& a, auto& b) {
        auto dec = [](const auto& q) {
            using T = std::decay_t<decltype(q)>;
            if constexpr (std::is_same_v<T, int>)
                return dec_t{0, q, 0};
            else if constexpr (std::is_same_v<T, mv>)
                return dec_t{1, q.v, 0};
            else if constexpr (std::is_same_v<T, pt>)
                return dec_t{2, q.a, q.b};
            else
                return dec_t{3, 0, 0};
        };
        auto x = dec(a), y = dec(b);
        ++c.n;
        CHECK(x.k == (int) w1.k && y.k == (int) w2.k, "the handler of the active alternatives is called, in order");
        if (w1.k < 3)
            CHECK(x.x == w1.x, "the handler gets the stored values, in order");
        if (w2.k < 3)
            CHECK(y.x == w2.x, "the handler gets the stored values, in order");
        if (w2.k == 2)
            CHECK(y.y == w2.y, "the handler gets the stored values, in order");
        return (int) (w1.k * 4 + w2.k);
    };
    int r;
    bool special = false;
    auto gen     = [&](const auto& a, const auto& b) { return one(a, b); };
    auto spec    = [&](const mv& a, int b) {
        special = true;
        return one(a, b);
    };
    switch (sym::choice(4)) {
    case 0: {
        auto v1 = w1.make();
        auto v2 = w2.make<D1>();
        r       = lager::match(v1, v2)(gen, spec);
        holds(v1, w1);
        holds(v2, w2);
        break;
    }
    case 1: {
        const auto v1 = w1.make<D2>();
        r             = lager::match(v1, w2.make())(gen, spec);
        holds(v1, w1);
        break;
    }
    case 2: r = lager::match(w1.make(), w2.make())(spec, gen); break;
    default: {
        auto v2       = w2.make();
        const auto v1 = w1.make();
        r             = lager::match(v1, std::move(v2))(spec, gen);
        holds(v1, w1);
    }
    }
    CHECK(c.n == 1, "exactly one handler is called");
    CHECK(r == (int) (w1.k * 4 + w2.k), "the result of the handler is returned");
    CHECK(special == (w1.k == 1 && w2.k == 0), "the handler made for the active alternatives is preferred");
    sym::reach("done");
}
HARNESS(three_variants)
{
    using A = std::variant<int, none>;
    using B = std::variant<none, pt>;
    int x = sym::any(), y = sym::any();
    bool ka = sym::flip(), kb = sym::flip();
    value w;
    A a = ka ? A{none{}} : A{x};
    B b = kb ? B{pt{y, x}} : B{none{}};
    auto c = w.make<D1>();
    int n  = 0;
    auto f = [&](const auto& p, const auto& q, const auto& r) {
        ++n;
        CHECK((std::is_same_v<std::decay_t<decltype(p)>, none>) == ka, "the handler of the active alternatives is called, in order");
        CHECK((std::is_same_v<std::decay_t<decltype(q)>, pt>) == kb, "the handler of the active alternatives is called, in order");
        if constexpr (std::is_same_v<std::decay_t<decltype(p)>, int>)
            CHECK(p == x, "the handler gets the stored values, in order");
        if constexpr (std::is_same_v<std::decay_t<decltype(q)>, pt>)
            CHECK((q.a == y) & (q.b == x), "the handler gets the stored values, in order");
        calls k;
        if constexpr (std::is_same_v<std::decay_t<decltype(r)>, int>)
            k.hit(0, r, 0);
        else if constexpr (std::is_same_v<std::decay_t<decltype(r)>, mv>)
            k.hit(1, r.v, 0);
        else if constexpr (std::is_same_v<std::decay_t<decltype(r)>, pt>)
            k.hit(2, r.a, r.b);
        else
            k.hit(3, 0, 0);
        expect(k, w);
        return 5;
    };
    int r = sym::flip() ? lager::match(a, b, c)(f) : lager::match(std::move(a), std::as_const(b), w.make())(f);
    CHECK(n == 1 && r == 5, "exactly one handler is called");
    sym::reach("done");
}
// stateful and reference returning handlers
HARNESS(visitors)
{
    value w;
    auto v   = w.make();
    int t[4] = {};
    int& r   = lager::match(v)([&](int) -> int& { return t[0]; }, [&](mv) -> int& { return t[1]; }, [&](pt) -> int& { return t[2]; }, [&](none) -> int& { return t[3]; });
    CHECK(&r == &t[w.k], "the result of the handler is returned, by reference");
    auto vis = lager::visitor{[](int) { return 0; }, [](const auto&) { return 9; }, [](const pt&) { return 2; }};
    int q    = lager::match(v)(vis);
    CHECK(q == (w.k == 0 ? 0 : w.k == 2 ? 2 : 9), "the handler made for the active alternative is preferred");
    int s = std::visit(vis, v);
    CHECK(s == q, "a visitor of handlers is the same as matching");
    // captured state, copied and moved only handlers
    auto up = std::make_unique<int>(w.x);
    int z   = lager::match(v)([up = std::move(up)](const auto&) mutable { return *up; });
    CHECK(z == w.x, "the handler is used as given");
    sym::reach("done");
}
// the same type twice: one handler serves both
HARNESS(repeated)
{
    using W = std::variant<int, mv, int>;
    int x   = sym::any();
    W w     = sym::flip() ? W{std::in_place_index<0>, x} : W{std::in_place_index<2>, x};
    int n   = 0;
    int r   = lager::match(w)([&](int y) { ++n; return y; }, [&](const mv&) { ++n; return 1; });
    CHECK((n == 1) & (r == x), "exactly one handler is called");
    sym::reach("done");
}
// many alternatives
namespace {
template <int I>
struct alt
{
    int v;
};
using W = std::variant<alt<0>, alt<1>, alt<2>, alt<3>, alt<4>, alt<5>, alt<6>, alt<7>, alt<8>, alt<9>, alt<10>, alt<11>>;
struct DW : W
{
    using W::W;
};
template <class T, int... I>
T make_alt(unsigned k, int v, std::integer_sequence<int, I...>)
{
    T r{alt<0>{v}};
    (void) ((k == (unsigned) I && (r = T{alt<I>{v}}, true)) || ...);
    return r;
}
template <class T>
void many_run()
{
    unsigned k = sym::choice(12);
    int v      = sym::any();
    T x        = make_alt<T>(k, v, std::make_integer_sequence<int, 12>{});
    int calls = 0, which = -1;
    auto hit = [&](int i, int a) {
        ++calls;
        which = i;
        return sym::uf(i, a);
    };
    auto f = [&](auto&& y) {
        return lager::match(std::forward<decltype(y)>(y))([&](const alt<0>& a) { return hit(0, a.v); }, [&](const alt<1>& a) { return hit(1, a.v); }, [&](alt<2> a) { return hit(2, a.v); },
                                                          [&](alt<3> a) { return hit(3, a.v); }, [&](const alt<4>& a) { return hit(4, a.v); }, [&](alt<5> a) { return hit(5, a.v); },
                                                          [&](const alt<6>& a) { return hit(6, a.v); }, [&](const alt<7>& a) { return hit(7, a.v); }, [&](const alt<8>& a) { return hit(8, a.v); },
                                                          [&](const alt<9>& a) { return hit(9, a.v); }, [&](alt<10> a) { return hit(10, a.v); }, [&](const alt<11>& a) { return hit(11, a.v); });
    };
    int r = f(std::as_const(x));
    CHECK(calls == 1 && which == (int) k && r == sym::uf((int) k, v), "exactly the handler of the active alternative");
    r = f(x);
    CHECK(calls == 2 && which == (int) k && r == sym::uf((int) k, v), "exactly the handler of the active alternative");
    // together with another variant
    std::variant<int, alt<3>> y;
    int w     = sym::any();
    bool isi  = sym::flip();
    if (isi)
        y = w;
    else
        y = alt<3>{w};
    int both = lager::match(x, y)([&](alt<11> a, int b) { return 1000; }, [&](const auto& a, const alt<3>& b) { return a.v == v && b.v == w ? 2000 : 0; }, [&](const auto& a, int b) { return a.v == v && b == w ? 3000 : 0; });
    CHECK(both == (!isi ? 2000 : k == 11 ? 1000 : 3000), "exactly the handler of the active alternatives");
    r = f(std::move(x));
    CHECK(calls == 3 && which == (int) k && r == sym::uf((int) k, v), "exactly the handler of the active alternative");
}
} // namespace
HARNESS(many_alternatives)
{
    if (sym::flip())
        many_run<W>();
    else
        many_run<DW>();
    sym::reach("done");
}
