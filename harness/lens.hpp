// The lens laws, for any lens, whole and parts; every way of passing the whole.
#pragma once
#include "common.hpp"
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/lenses/variant.hpp>
#include <optional>
#include <tuple>

// a value that is visibly emptied when moved from or destroyed
struct mv
{
    int v = 0;
    mv()  = default;
    explicit mv(int x) : v(x) {}
    mv(const mv&) = default;
    mv(mv&& o) noexcept : v(o.v) { o.v = -7777777; }
    mv& operator=(const mv&) = default;
    mv& operator=(mv&& o) noexcept
    {
        int t = o.v;
        o.v   = -7777777;
        v     = t;
        return *this;
    }
    ~mv() { __lsym_scrub(&v); }
    friend bool operator==(const mv& a, const mv& b) { return a.v == b.v; }
    friend bool operator!=(const mv& a, const mv& b) { return a.v != b.v; }
};
inline mv any_mv() { return mv{sym::any()}; }
inline bool eqv(int a, int b) { return a == b; }
inline bool eqv(const mv& a, const mv& b) { return a.v == b.v; }
template <class A, class B>
bool eqv(const std::pair<A, B>& a, const std::pair<A, B>& b) { return eqv(a.first, b.first) & eqv(a.second, b.second); }
template <class... A>
bool eqv(const std::tuple<A...>& a, const std::tuple<A...>& b);
template <class T>
bool eqv(const std::optional<T>& a, const std::optional<T>& b)
{
    if (a.has_value() != b.has_value())
        return false;
    return a ? eqv(*a, *b) : true;
}
template <class... A>
bool eqv(const std::tuple<A...>& a, const std::tuple<A...>& b)
{
    return std::apply([&](const auto&... x) { return std::apply([&](const auto&... y) { return (true & ... & eqv(x, y)); }, b); }, a);
}

// get and put: what the lens must do, as plain functions
template <class P, class L, class W, class Get, class Put>
void agrees(const L& l, const W& w, const P& v, Get get, Put put)
{
    W w0    = w;
    P want  = get(w);
    W wantw = put(w, v);
    { P x = lager::view(l, w); CHECK(eqv(x, want), "view of a const whole"); }
    { W t = w; P x = lager::view(l, t); CHECK(eqv(x, want), "view of an lvalue whole"); CHECK(eqv(t, w0), "viewing an lvalue leaves it alone"); }
    { W t = w; P x = lager::view(l, std::move(t)); CHECK(eqv(x, want), "view of a temporary whole"); }
    { W x = lager::set(l, w, v); CHECK(eqv(x, wantw), "set on a const whole"); }
    { W t = w; P p = v; W x = lager::set(l, t, p); CHECK(eqv(x, wantw), "set on an lvalue whole"); CHECK(eqv(t, w0), "setting leaves an lvalue whole alone"); CHECK(eqv(p, v), "and the given value"); }
    { W t = w; W x = lager::set(l, std::move(t), v); CHECK(eqv(x, wantw), "set on a temporary whole"); }
    { W t = w; P p = v; W x = lager::set(l, std::move(t), std::move(p)); CHECK(eqv(x, wantw), "set of a temporary value on a temporary whole"); }
    CHECK(eqv(w, w0), "a const whole is never modified");
}
// over(): set of the function of the view
template <class P, class L, class W, class Get, class Put, class Fn>
void agrees_over(const L& l, const W& w, Get get, Put put, Fn fn)
{
    W want = put(w, fn(get(w)));
    { W x = lager::over(l, w, [&](auto&& p) { return fn(P(LAGER_FWD(p))); }); CHECK(eqv(x, want), "over on a const whole"); }
    { W t = w; W x = lager::over(l, t, [&](auto&& p) { return fn(P(LAGER_FWD(p))); }); CHECK(eqv(x, want), "over on an lvalue whole"); CHECK(eqv(t, w), "over leaves an lvalue whole alone"); }
    { W t = w; W x = lager::over(l, std::move(t), [&](auto&& p) { return fn(P(LAGER_FWD(p))); }); CHECK(eqv(x, want), "over on a temporary whole"); }
}
template <class P, class L, class W, class Get, class Put>
void laws(const L& l, const W& w, const P& v, const P& u, Get get, Put put)
{
    agrees<P>(l, w, v, get, put);
    { W x = lager::set(l, w, v); P p = lager::view(l, x); CHECK(eqv(p, v), "viewing after setting gives the set value"); }
    { P p = lager::view(l, w); W x = lager::set(l, w, p); CHECK(eqv(x, w), "setting the viewed value changes nothing"); }
    { W z = lager::set(l, w, v); W x = lager::set(l, std::move(z), u); W y = lager::set(l, w, u); CHECK(eqv(x, y), "setting twice is setting the last"); }
    lager::lens<W, P> e{l};
    agrees<P>(e, w, v, get, put);
    auto e2 = e;
    { W x = lager::set(e2, w, u); CHECK(eqv(x, put(w, u)), "copies of a type-erased lens"); }
}
