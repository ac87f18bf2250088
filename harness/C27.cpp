//@ entry: narrowing reach=done
//@ entry: convertible_alternatives reach=done
//@ entry: converters reach=done
//@ entry: hierarchy reach=done
//@ entry: effects reach=done
//@ entry: stores reach=done
//@ entry: loops reach=done
//@ entry: futures reach=done
//@ bounds: stores whose action is a variant of 3 alternatives (one carrying an arbitrary int, one a pair, one empty) or a variant holding a variant; contexts narrowed up to 3 times in every order of 4 shapes, converted by up to 2 action converters (arbitrary functions) before or after narrowing; all payloads; every alternative; manual and queue loops and a loop that records every operation
//@ outside: action sets of more than 4 types; actions that convert to several alternatives of the same variant ambiguously (do not compile)
#include "common.hpp"
#include <lager/context.hpp>
#include <lager/deps.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/store.hpp>
#include <variant>

namespace {
using namespace lager;
struct A
{
    int v;
};
struct B
{
    int v, w;
};
struct C
{};
using any_action = std::variant<A, B, C>;
// what the store received: kind and payload
struct record
{
    slog<int> kind, a, b;
    void add(int k, int x, int y)
    {
        kind.push(k);
        a.push(x);
        b.push(y);
    }
    void operator()(A x) { add(0, x.v, 0); }
    void operator()(B x) { add(1, x.v, x.w); }
    void operator()(C) { add(2, 0, 0); }
};
void expect(record& r, int& n, int k, int x, int y)
{
    CHECK(r.kind.n == n + 1, "one dispatch delivers exactly one action");
    CHECK(r.kind[n] == k, "the action delivered holds the right alternative");
    CHECK((r.a[n] == x) & (r.b[n] == y), "the action delivered equals the one given");
    ++n;
}
template <class Red>
auto store_for(Red red)
{
    return make_store<any_action>(0, with_manual_event_loop{}, with_reducer(red));
}
template <class Ctx>
void any_of_a_b(Ctx& c, record& r, int& n)
{
    int x = sym::any(), y = sym::any();
    if (sym::flip()) {
        c.dispatch(A{x});
        expect(r, n, 0, x, 0);
    } else {
        c.dispatch(B{x, y});
        expect(r, n, 1, x, y);
    }
}
template <class Ctx>
void any_of_all(Ctx& c, record& r, int& n)
{
    int x = sym::any(), y = sym::any();
    switch (sym::choice(4)) {
    case 0:
        c.dispatch(A{x});
        expect(r, n, 0, x, 0);
        break;
    case 1:
        c.dispatch(B{x, y});
        expect(r, n, 1, x, y);
        break;
    case 2:
        c.dispatch(C{});
        expect(r, n, 2, 0, 0);
        break;
    default: {
        any_action q = B{x, y};
        c.dispatch(q);
        expect(r, n, 1, x, y);
    }
    }
}
} // namespace
HARNESS(narrowing)
{
    record r;
    int n  = 0;
    auto s = store_for([&](int m, any_action a) {
        std::visit([&](auto x) { r(x); }, a);
        return m + 1;
    });
    context<any_action> c0{s};
    any_of_all(c0, r, n);
    context<actions<A, B, C>> abc{c0};
    context<actions<C, A>> ca{c0};
    context<actions<B>> b{c0};
    context<A> a{s};
    switch (sym::choice(8)) {
    case 0: {
        context<actions<B, A>> ba{abc};
        any_of_a_b(ba, r, n);
        context<actions<A, B>> ab{ba};
        any_of_a_b(ab, r, n);
        break;
    }
    case 1: {
        int x = sym::any();
        context<A> a2{ca};
        a2.dispatch(A{x});
        expect(r, n, 0, x, 0);
        context<C> c2{ca};
        c2.dispatch(C{});
        expect(r, n, 2, 0, 0);
        break;
    }
    case 2: {
        int x = sym::any(), y = sym::any();
        b.dispatch(B{x, y});
        expect(r, n, 1, x, y);
        context<B> b2{b};
        b2.dispatch(B{y, x});
        expect(r, n, 1, y, x);
        break;
    }
    case 3: {
        int x = sym::any();
        a.dispatch(A{x});
        expect(r, n, 0, x, 0);
        auto a2 = a;
        a2.dispatch(A{x + 1});
        expect(r, n, 0, x + 1, 0);
        break;
    }
    case 4: {
        context<actions<C, B, A>> cba{abc};
        context<actions<B, A>> ba{cba};
        context<actions<A>> a3{ba};
        int x = sym::any();
        a3.dispatch(A{x});
        expect(r, n, 0, x, 0);
        any_of_a_b(cba, r, n);
        break;
    }
    case 5: {
        // a set that contains the whole variant
        context<actions<any_action, A>> va{c0};
        any_of_all(va, r, n);
        context<actions<A, B>> ab{va};
        any_of_a_b(ab, r, n);
        break;
    }
    case 6: {
        context<> nothing{abc};
        (void) nothing;
        context<actions<>> nothing2{c0};
        (void) nothing2;
        CHECK(r.kind.n == n, "narrowing delivers nothing");
        break;
    }
    default: {
        context<any_action> late;
        late = c0;
        any_of_all(late, r, n);
        context<actions<A, B>> moved{std::move(late)};
        any_of_a_b(moved, r, n);
    }
    }
    CHECK(s.get() == n, "every action is reduced once");
    sym::reach("done");
}
// alternatives that convert to each other
HARNESS(convertible_alternatives)
{
    using act = std::variant<bool, int, long long>;
    slog<int> kind;
    slog<long long> val_;
    auto s = make_store<act>(0, with_manual_event_loop{}, with_reducer([&](int m, act a) {
        kind.push((int) a.index());
        std::visit([&](auto x) { val_.push((long long) x); }, a);
        return m;
    }));
    int x       = sym::any();
    long long y = sym::any<long long>();
    bool z      = sym::any<bool>();
    context<actions<bool, int, long long>> all{s};
    context<actions<int, bool>> ib{all};
    context<actions<long long>> l{all};
    context<int> i{all};
    context<int> i2{ib};
    context<bool> b{ib};
    i.dispatch(x);
    i2.dispatch(x);
    b.dispatch(z);
    l.dispatch(y);
    ib.dispatch(x);
    all.dispatch(y);
    CHECK(kind.n == 6, "one dispatch delivers exactly one action");
    CHECK((kind[0] == 1) & (kind[1] == 1) & (kind[2] == 0) & (kind[3] == 2) & (kind[4] == 1) & (kind[5] == 2), "a narrowed context keeps the alternative of the action");
    CHECK((val_[0] == x) & (val_[1] == x) & (val_[2] == z) & (val_[3] == y) & (val_[4] == x) & (val_[5] == y), "a narrowed context keeps the value of the action");
    sym::reach("done");
}
HARNESS(converters)
{
    record r;
    int n  = 0;
    auto s = store_for([&](int m, any_action a) {
        std::visit([&](auto x) { r(x); }, a);
        return m + 1;
    });
    struct X
    {
        int v;
    };
    struct Y
    {
        int v;
    };
    // converters with state of their own, say the identity of a child
    int tag = 1;
    auto f1 = [tag](int v) { return sym::uf(tag, v); };
    auto fa = [f1](X x) { return A{f1(x.v)}; };
    auto fb = [tag](auto y) {
        if constexpr (std::is_same_v<std::decay_t<decltype(y)>, X>)
            return any_action{A{sym::uf(tag, y.v)}};
        else
            return any_action{B{sym::uf(tag + 1, y.v), y.v}};
    };
    int x = sym::any();
    switch (sym::choice(7)) {
    case 0: {
        context<X> c{s, fa};
        c.dispatch(X{x});
        expect(r, n, 0, sym::uf(1, x), 0);
        auto d = c;
        d.dispatch(X{x});
        expect(r, n, 0, sym::uf(1, x), 0);
        break;
    }
    case 1: {
        context<actions<X, Y>> c{s, fb};
        c.dispatch(X{x});
        expect(r, n, 0, sym::uf(1, x), 0);
        c.dispatch(Y{x});
        expect(r, n, 1, sym::uf(2, x), x);
        context<Y> y{c};
        y.dispatch(Y{x});
        expect(r, n, 1, sym::uf(2, x), x);
        context<X> z{c};
        z.dispatch(X{x});
        expect(r, n, 0, sym::uf(1, x), 0);
        break;
    }
    case 2: {
        // narrow, then convert
        context<actions<B, A>> ba{s};
        context<X> c{ba, fa};
        c.dispatch(X{x});
        expect(r, n, 0, sym::uf(1, x), 0);
        break;
    }
    case 3: {
        // convert a converted one
        context<X> c{s, fa};
        context<Y> d{c, [three = 3](Y y) { return X{sym::uf(three, y.v)}; }};
        d.dispatch(Y{x});
        expect(r, n, 0, sym::uf(1, sym::uf(3, x)), 0);
        break;
    }
    case 4: {
        // a converter to a variant of the same alternatives
        context<std::variant<X, Y>> c{s, [&](auto a) {
                                          if constexpr (std::is_same_v<std::decay_t<decltype(a)>, std::variant<X, Y>>)
                                              return std::visit(fb, a);
                                          else
                                              return fb(a);
                                      }};
        bool w = sym::flip();
        if (w) {
            c.dispatch(std::variant<X, Y>{X{x}});
            expect(r, n, 0, sym::uf(1, x), 0);
        } else {
            c.dispatch(Y{x});
            expect(r, n, 1, sym::uf(2, x), x);
        }
        break;
    }
    case 5: {
        // a converter that wraps in the variant
        context<actions<A, C>> c{s, [](auto a) -> any_action { return a; }};
        c.dispatch(A{x});
        expect(r, n, 0, x, 0);
        c.dispatch(C{});
        expect(r, n, 2, 0, 0);
        break;
    }
    default: {
        // through a context with dependencies
        int svc = 0;
        with_manual_event_loop dummy;
        context<any_action, deps<int&>> cd{[&](auto&& a) { return s.dispatch(any_action{a}); }, dummy, deps<int&>::with(svc)};
        context<X, deps<int&>> c{cd, fa};
        CHECK(&get<int>(c) == &svc, "dependencies pass through a converted context");
        context<X> e{cd, fa};
        e.dispatch(X{x});
        expect(r, n, 0, sym::uf(1, x), 0);
    }
    }
    CHECK(s.get() == n, "every action is reduced once");
    sym::reach("done");
}
// variants inside variants
HARNESS(hierarchy)
{
    struct D
    {
        int v;
    };
    using outer = std::variant<any_action, D>;
    slog<int> kind;
    record r;
    int n  = 0;
    auto s = make_store<outer>(0, with_manual_event_loop{}, with_reducer([&](int m, outer a) {
        kind.push((int) a.index());
        if (auto p = std::get_if<any_action>(&a))
            std::visit([&](auto x) { r(x); }, *p);
        else
            r.add(3, std::get<D>(a).v, 0);
        return m;
    }));
    int x = sym::any();
    context<actions<any_action, D>> c{s};
    context<any_action> in{c};
    any_of_all(in, r, n);
    context<actions<A, B>> ab{in};
    any_of_a_b(ab, r, n);
    context<actions<D, A>> da{sym::flip() ? context<actions<D, any_action>>{c} : context<actions<D, any_action>>{s}};
    da.dispatch(A{x});
    expect(r, n, 0, x, 0);
    da.dispatch(D{x});
    expect(r, n, 3, x, 0);
    for (int i = 0; i < n; ++i)
        CHECK(kind[i] == (r.kind[i] == 3), "the action delivered holds the right alternative");
    sym::reach("done");
}
// contexts given to effects
HARNESS(effects)
{
    record r;
    int n = 0, ran = 0;
    int x  = sym::any();
    int svc = 0;
    using eff_t = effect<any_action, deps<int&>>;
    struct start
    {};
    using top = std::variant<any_action, start>;
    unsigned w = sym::choice(4);
    auto s     = make_store<top>(0, with_manual_event_loop{}, with_deps(std::ref(svc)), with_reducer([&](int m, top a) -> result<int, top, deps<int&>> {
        if (auto p = std::get_if<any_action>(&a)) {
            std::visit([&](auto q) { r(q); }, *p);
            return m + 1;
        }
        switch (w) {
        case 0: return {m, [&](auto&& ctx) { ++ran; ctx.dispatch(A{x}); }};
        case 1: return {m, [&](context<any_action, deps<int&>> ctx) { ++ran; CHECK(&lager::get<int>(ctx) == &svc, "dependencies pass through a narrowed context"); ctx.dispatch(A{x}); }};
        case 2: return {m, eff_t{[&](auto&& ctx) { ++ran; CHECK(&lager::get<int>(ctx) == &svc, "dependencies pass through a narrowed context"); context<actions<B, A>> c{ctx}; c.dispatch(A{x}); }}};
        default: return {m, effect<actions<A, C>>{[&](auto&& ctx) { ++ran; ctx.dispatch(A{x}); }}};
        }
    }));
    s.dispatch(start{});
    CHECK(ran == 1, "the effect runs once");
    expect(r, n, 0, x, 0);
    CHECK(s.get() == n, "every action is reduced once");
    sym::reach("done");
}
// stores viewed as stores of narrower actions and dependencies
HARNESS(stores)
{
    record r;
    int n = 0, svc = 0;
    queue_event_loop q;
    auto t = make_store<any_action>(0, with_queue_event_loop{q}, with_deps(std::ref(svc)), with_reducer([&](int m, any_action a) {
        std::visit([&](auto x) { r(x); }, a);
        return m + 1;
    }));
    int x = sym::any();
    context<actions<A, B>> c{t};
    context<A, deps<int&>> d{t};
    CHECK(&get<int>(d) == &svc, "dependencies pass through a narrowed context");
    store<any_action, int> u{std::move(t)};
    switch (sym::choice(4)) {
    case 0: c.dispatch(A{x}); break;
    case 1: d.dispatch(A{x}); break;
    case 2: u.dispatch(A{x}); break;
    default: context<A>{u}.dispatch(A{x});
    }
    CHECK(r.kind.n == 0, "the action waits for the store's loop");
    q.step();
    expect(r, n, 0, x, 0);
    q.step();
    CHECK(u.get() == 1, "every action is reduced once");
    sym::reach("done");
}
namespace {
struct recording_loop
{
    struct log
    {
        slog<int> ops;
        std::function<void()> last;
    };
    log* l;
    void post(std::function<void()> f) { l->ops.push(1); l->last = std::move(f); }
    void async(std::function<void()> f) { l->ops.push(2); l->last = std::move(f); }
    void finish() { l->ops.push(3); }
    void pause() { l->ops.push(4); }
    void resume() { l->ops.push(5); }
};
} // namespace
// every loop operation reaches the store's own loop
HARNESS(loops)
{
    recording_loop::log l, other;
    auto o = make_store<any_action>(0, recording_loop{&other}, with_reducer([&](int m, any_action) { return m; }));
    auto s = make_store<any_action>(0, recording_loop{&l}, with_reducer([&](int m, any_action) { return m; }));
    auto conv = [](int x) { return A{x}; };
    context<any_action> c0{s};
    context<actions<A, B>> c1{c0};
    context<> c2{c1};
    context<int> c3{c1, conv};
    context<> c4{c3};
    detail::event_loop_iface* loops[] = {&s.loop(), &c0.loop(), &c1.loop(), &c2.loop(), &c3.loop(), &c4.loop()};
    unsigned w = sym::choice(6);
    auto& loop = *loops[w];
    int ran = 0;
    for (int i = 0; i < 2; ++i) {
        unsigned op = sym::choice(5);
        int before  = l.ops.n;
        switch (op) {
        case 0: loop.post([&] { ++ran; }); break;
        case 1: loop.async([&] { ++ran; }); break;
        case 2: loop.finish(); break;
        case 3: loop.pause(); break;
        default: loop.resume();
        }
        CHECK((l.ops.n == before + 1) && l.ops[before] == (int) op + 1, "a loop operation of a context is the same operation on the store's loop, once");
        if (op < 2) {
            CHECK(ran == 0, "the function is given to the loop, not run");
            l.last();
            CHECK(ran == 1, "the function given to the loop is the one posted");
            ran = 0;
        }
    }
    CHECK(other.ops.n == 0, "only the store's own loop");
    sym::reach("done");
}
// the future returned by any context completes with the action
HARNESS(futures)
{
    queue_event_loop q;
    record r;
    int n = 0, svc = 0, done = 0;
    auto s = make_store<any_action>(0, with_queue_event_loop{q}, with_futures, with_deps(std::ref(svc)), with_reducer([&](int m, any_action a) {
        std::visit([&](auto x) { r(x); }, a);
        return m + 1;
    }));
    context<actions<A, B>> c1{s};
    context<A> c2{c1};
    context<int> c3{c1, [](int x) { return A{x}; }};
    int x  = sym::any();
    auto f = [&]() -> future {
        switch (sym::choice(4)) {
        case 0: return s.dispatch(A{x});
        case 1: return c1.dispatch(A{x});
        case 2: return c2.dispatch(A{x});
        default: return c3.dispatch(x);
        }
    }();
    CHECK(bool(f), "the future of the dispatch is returned");
    std::move(f).then([&] {
        CHECK(r.kind.n == 1, "completes after the action");
        ++done;
    });
    CHECK(done == 0 && r.kind.n == 0, "nothing before the loop runs");
    for (int i = 0; i < 5; ++i)
        q.step();
    CHECK(done == 1, "the future completes once");
    expect(r, n, 0, x, 0);
    sym::reach("done");
}
