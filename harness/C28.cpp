//@ entry: sequences reach=done,pending,all-empty
//@ entry: sequences_four reach=done,pending,all-empty tier=thorough
//@ entry: emptiness reach=done,empty,real
//@ entry: results reach=done
//@ entry: dependencies reach=done
//@ entry: store_empties reach=done,empty,real
//@ entry: store_sequences reach=done
//@ entry: convertible_actions reach=done
//@ entry: six reach=done
//@ bounds: sequences of 3 (thorough: 4) effects, each empty, a no-op, real without result, real with an already completed future, or real with a future that completes later; promises fulfilled and loop steps in any order, before or after each other; effects over 3 action types and 2 dependency bags, converted up to 3 times; models and actions arbitrary; a sequence of 6 effects (and one of sequences), any one of which completes later, or none
//@ outside: sequences of more than 6 effects
#include "common.hpp"
#include <lager/effect.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/store.hpp>
#include <optional>
#include <variant>

namespace {
using namespace lager;
struct A
{
    int v;
};
struct B
{
    int v;
};
using any_action = std::variant<A, B>;
struct svc1
{
    int v = 0;
};
struct svc2
{
    int v = 0;
};
struct run
{
    queue_event_loop q;
    slog<int> ran;   // effects, as they run
    slog<int> sent;  // actions dispatched by them
    promise p[4]{promise::invalid().first, promise::invalid().first, promise::invalid().first, promise::invalid().first};
    bool pending[4] = {};
};
// kinds: 0 default, 1 noop, 2 void, 3 completed future, 4 pending future, 5 a converted empty one, 6 a converted noop
constexpr int kinds = 7;
template <class Act, class Deps, class Narrow>
effect<Act, Deps> make(run& r, int i, unsigned kind)
{
    switch (kind) {
    case 0: return {};
    case 1: return noop;
    case 2: return [&r, i](auto&&) { r.ran.push(i); };
    case 3:
        return [&r, i](auto&&) -> future {
            r.ran.push(i);
            return {};
        };
    case 4:
        return [&r, i](auto&&) -> future {
            r.ran.push(i);
            sym::reach("pending");
            auto [p, f] = promise::with_loop(r.q);
            r.p[i]       = p;
            r.pending[i] = true;
            return std::move(f);
        };
    case 5: return effect<Narrow>{};
    default: return effect<Narrow>{noop};
    }
}
bool real(unsigned k) { return k >= 2 && k <= 4; }
template <class Seq, class Ctx>
void drive(run& r, Seq& s, Ctx& ctx, const unsigned* k, int n)
{
    slog<int> want;
    for (int i = 0; i < n; ++i)
        if (real(k[i]))
            want.push(i);
    CHECK(is_empty_effect(s) == (want.n == 0), "a sequence is empty if and only if all of its effects are");
    if (want.n == 0) {
        sym::reach("all-empty");
        if (s)
            s(ctx);
        CHECK(r.ran.n == 0, "an empty effect runs nothing");
        return;
    }
    int done = 0;
    {
        auto f = s(ctx);
        std::move(f).then([&] { ++done; });
    }
    int waiting = -1;
    for (int t = 0; t < 14; ++t) {
        CHECK(r.ran.n <= want.n, "each effect runs once");
        for (int i = 0; i < r.ran.n; ++i)
            CHECK(r.ran[i] == want[i], "effects run in the order of the sequence");
        waiting = -1;
        for (int i = 0; i < n; ++i)
            if (r.pending[i])
                waiting = i;
        if (waiting >= 0) {
            CHECK(r.ran[r.ran.n - 1] == waiting, "the next effect runs only after the future of the previous completed");
            CHECK(done == 0, "a sequence completes after its last effect");
            // let the loop run for a while before
            if (sym::flip())
                r.q.step();
            CHECK(r.ran[r.ran.n - 1] == waiting, "the next effect runs only after the future of the previous completed");
            r.pending[waiting] = false;
            r.p[waiting]();
        } else
            r.q.step();
    }
    CHECK(r.ran.n == want.n, "every effect of the sequence runs");
    CHECK(done == 1, "a sequence completes once");
}
} // namespace
HARNESS(sequences)
{
    run r;
    svc1 s1;
    svc2 s2;
    unsigned k[3] = {sym::choice(kinds), sym::choice(kinds), sym::choice(kinds)};
    auto a        = make<A, deps<svc1&>, void>(r, 0, k[0]);
    auto b        = make<any_action, deps<>, B>(r, 1, k[1]);
    auto c        = make<actions<B>, deps<svc2&, svc1&>, B>(r, 2, k[2]);
    context<any_action, deps<svc1&, svc2&>> ctx{[](auto&&) -> future { return {}; }, r.q, deps<svc1&, svc2&>::with(s1, s2)};
    if (sym::flip()) {
        auto s = sequence(a, b, c);
        drive(r, s, ctx, k, 3);
    } else {
        auto s = sequence(a, sequence(b, c));
        drive(r, s, ctx, k, 3);
    }
    sym::reach("done");
}
HARNESS(sequences_four)
{
    run r;
    unsigned k[4] = {sym::choice(5), sym::choice(5), sym::choice(5), sym::choice(5)};
    auto a        = make<A, deps<>, void>(r, 0, k[0]);
    auto b        = make<any_action, deps<>, B>(r, 1, k[1]);
    auto c        = make<actions<B>, deps<>, B>(r, 2, k[2]);
    auto d        = make<actions<B, A>, deps<>, B>(r, 3, k[3]);
    context<any_action> ctx{[](auto&&) -> future { return {}; }, r.q, deps<>{}};
    switch (sym::choice(3)) {
    case 0: {
        auto s = sequence(a, b, c, d);
        drive(r, s, ctx, k, 4);
        break;
    }
    case 1: {
        auto s = sequence(sequence(a, b), sequence(c, d));
        drive(r, s, ctx, k, 4);
        break;
    }
    default: {
        auto s = sequence(a, sequence(b, sequence(c, d)));
        drive(r, s, ctx, k, 4);
    }
    }
    sym::reach("done");
}
HARNESS(emptiness)
{
    run r;
    svc1 s1;
    svc2 s2;
    unsigned k = sym::choice(kinds);
    auto a     = make<A, deps<svc1&>, void>(r, 0, k);
    context<any_action, deps<svc1&, svc2&>> ctx{[](auto&&) -> future { return {}; }, r.q, deps<svc1&, svc2&>::with(s1, s2)};
    auto chk = [&](auto e) {
        CHECK(is_empty_effect(e) == !real(k), "an effect is recognised as empty if and only if it is");
        auto before = r.ran.n;
        if (e)
            e(ctx);
        CHECK(r.ran.n == before + real(k), "a converted effect does the same as the original");
    };
    chk(a);
    effect<actions<A, B>, deps<svc1&>> b{a};
    chk(b);
    effect<actions<B, A>, deps<svc2&, svc1&>> c{b};
    chk(c);
    effect<any_action, deps<svc2&, svc1&>> d = sym::flip() ? effect<any_action, deps<svc2&, svc1&>>{std::move(c)} : effect<any_action, deps<svc2&, svc1&>>{a};
    chk(d);
    auto e = d;
    chk(e);
    e = b;
    chk(e);
    effect<any_action, deps<svc2&, svc1&>> f;
    CHECK(is_empty_effect(f), "an effect is recognised as empty if and only if it is");
    f = std::move(e);
    chk(f);
    result<int, any_action, deps<svc1&, svc2&>> res{1, b};
    chk(res.second);
    result<int, any_action> plain{1};
    CHECK(is_empty_effect(plain.second), "a result without effect has an empty one");
    sym::reach(real(k) ? "real" : "empty");
    sym::reach("done");
}
namespace {
struct m1
{
    int v;
};
struct m2
{
    int v;
    m2(int x) : v(x) {}
    m2(m1 x) : v(x.v) {}
};
} // namespace
HARNESS(results)
{
    int x = sym::any(), y = sym::any();
    slog<int> got;
    queue_event_loop q;
    svc1 s1;
    context<any_action, deps<svc1&>> ctx{[&](auto&& a) -> future {
                                            if constexpr (std::is_same_v<std::decay_t<decltype(a)>, any_action>) {
                                                got.push((int) a.index());
                                                std::visit([&](auto q) { got.push(q.v); }, a);
                                            }
                                            return {};
                                        },
                                        q,
                                        deps<svc1&>::with(s1)};
    unsigned w = sym::choice(4);
    auto inner = [&]() -> result<m1, B> {
        switch (w) {
        case 0: return m1{x};
        case 1: return {m1{x}, noop};
        case 2: return {m1{x}, [y](auto&& c) { c.dispatch(B{y}); }};
        default: return {m1{x}, effect<B>{[y](auto&& c) { c.dispatch(B{y}); }}};
        }
    }();
    auto chk = [&](auto r) {
        CHECK(r.first.v == x, "a converted result has the same model");
        CHECK(is_empty_effect(r.second) == (w < 2), "a converted result has an effect if and only if the original has");
        got.clear();
        if (r.second)
            r.second(ctx);
        CHECK(got.n == (w < 2 ? 0 : 2), "a converted effect dispatches the same");
        if (w >= 2)
            CHECK((got[0] == 1) & (got[1] == y), "a converted effect dispatches the same");
    };
    chk(inner);
    result<m2, actions<A, B>> b{inner};
    chk(b);
    result<m2, any_action, deps<svc1&>> c{b};
    chk(c);
    result<m1, any_action, deps<svc1&>> d{std::move(inner)};
    chk(d);
    auto [m, e] = d;
    result<m2, any_action, deps<svc1&>> f{m, e};
    chk(f);
    sym::reach("done");
}
HARNESS(dependencies)
{
    svc1 s1{sym::any()};
    svc2 s2{sym::any()};
    int ran = 0;
    effect<A, deps<svc1&>> a{[&](auto&& ctx) {
        ++ran;
        CHECK(&get<svc1>(ctx) == &s1, "an effect sees its dependencies through conversions");
    }};
    effect<B, deps<dep::opt<svc2>, svc1&>> b{[&](auto&& ctx) {
        ++ran;
        CHECK(&get<svc1>(ctx) == &s1, "an effect sees its dependencies through conversions");
        CHECK(has<svc2>(ctx) && get<svc2>(ctx).v == s2.v, "an effect sees its dependencies through conversions");
    }};
    auto s = sequence(a, b, a);
    with_manual_event_loop loop;
    context<any_action, deps<svc2, svc1&>> ctx{[](auto&&) -> future { return {}; }, loop, deps<svc2, svc1&>::with(s2, s1)};
    effect<any_action, deps<svc1&, svc2>> t{s};
    t(ctx);
    CHECK(ran == 3, "every effect of the sequence runs");
    sym::reach("done");
}
// empty effects returned by reducers
HARNESS(store_empties)
{
    run r;
    unsigned k  = sym::choice(kinds);
    int x       = sym::any(), v = sym::any();
    int seen    = 0;
    bool done   = false;
    unsigned w  = sym::choice(2);
    auto s = make_store<any_action>(v, with_queue_event_loop{r.q}, with_futures, with_reducer([&](int m, any_action a) -> result<int, any_action> {
        return {sym::uf(1, m, std::visit([](auto q) { return q.v; }, a)), w ? effect<any_action>{make<A, deps<>, void>(r, 0, k)} : make<any_action, deps<>, B>(r, 0, k)};
    }));
    watch(s, [&](int) { ++seen; });
    s.dispatch(A{x}).then([&] { done = true; });
    for (int t = 0; t < 6; ++t)
        r.q.step();
    CHECK(s.get() == sym::uf(1, v, x), "an action with an empty effect is reduced as any other");
    CHECK(r.ran.n == real(k), "an empty effect runs nothing");
    if (r.pending[0]) {
        CHECK(!done, "not before the effect completes");
        r.p[0]();
        for (int t = 0; t < 3; ++t)
            r.q.step();
    }
    CHECK(done, "an action with an empty effect completes");
    sym::reach(real(k) ? "real" : "empty");
    sym::reach("done");
}
HARNESS(store_sequences)
{
    run r;
    unsigned k[2] = {sym::choice(kinds), sym::choice(kinds)};
    int x = sym::any();
    bool done = false;
    auto s = make_store<any_action>(0, with_queue_event_loop{r.q}, with_futures, with_reducer([&](int m, any_action a) -> result<int, any_action> {
        if (auto p = std::get_if<B>(&a)) {
            r.sent.push(p->v);
            return m;
        }
        auto e0 = make<A, deps<>, void>(r, 0, k[0]);
        auto e1 = make<any_action, deps<>, B>(r, 1, k[1]);
        auto e2 = effect<actions<B>>{[x](auto&& c) { return c.dispatch(B{x}); }};
        return {m, sequence(e0, e1, e2)};
    }));
    s.dispatch(A{0}).then([&] { done = true; });
    for (int t = 0; t < 12; ++t) {
        for (int i = 0; i < 2; ++i)
            if (r.pending[i]) {
                CHECK(!done && r.sent.n == 0 && r.ran[r.ran.n - 1] == i, "the next effect runs only after the future of the previous completed");
                if (sym::flip())
                    r.q.step();
                CHECK(!done && r.sent.n == 0 && r.ran[r.ran.n - 1] == i, "the next effect runs only after the future of the previous completed");
                r.pending[i] = false;
                r.p[i]();
            }
        if (done)
            CHECK(r.sent.n == 1, "the action completes after its effects");
        r.q.step();
    }
    CHECK(done, "the action completes after its effects");
    CHECK(r.sent.n == 1 && r.sent[0] == x, "every effect of the sequence runs");
    CHECK(r.ran.n == real(k[0]) + real(k[1]), "every effect of the sequence runs once");
    if (r.ran.n == 2)
        CHECK(r.ran[0] == 0, "effects run in the order of the sequence");
    sym::reach("done");
}
// actions that convert into each other
HARNESS(convertible_actions)
{
    using act = std::variant<bool, int>;
    int x     = sym::any();
    slog<int> kind, val_;
    auto s = make_store<act>(0, with_manual_event_loop{}, with_reducer([&](int m, act a) -> result<int, act> {
        kind.push((int) a.index());
        std::visit([&](auto v) { val_.push((int) v); }, a);
        if (kind.n > 1)
            return m;
        effect<bool> e0{[](auto&&) {}};
        effect<int> e1{[x](auto&& c) { c.dispatch(x); }};
        return {m, sym::flip() ? effect<act>{sequence(e0, e1)} : effect<act>{sequence(e1, e0)}};
    }));
    s.dispatch(true);
    CHECK(kind.n == 2, "every effect of the sequence runs");
    CHECK((kind[1] == 1) & (val_[1] == x), "an effect in a sequence dispatches what it dispatches alone");
    sym::reach("done");
}
// longer sequences
HARNESS(six)
{
    queue_event_loop q;
    slog<int> ran;
    promise p   = promise::invalid().first;
    unsigned at = sym::choice(7); // the one that completes later
    auto one    = [&](int i) -> effect<A> {
        return [&, i](auto&&) -> future {
            ran.push(i);
            if ((int) at != i)
                return {};
            auto [x, f] = promise::with_loop(q);
            p           = std::move(x);
            return std::move(f);
        };
    };
    auto all = sym::flip() ? sequence(one(0), one(1), one(2), one(3), one(4), one(5)) : sequence(sequence(one(0), one(1)), sequence(one(2), sequence(one(3), one(4))), one(5));
    bool done = false;
    auto s = make_store<A>(0, with_queue_event_loop{q}, with_futures, with_reducer([&](int m, A) -> result<int, A> { return {m, all}; }));
    s.dispatch(A{0}).then([&] { done = true; });
    for (int t = 0; t < 12; ++t)
        q.step();
    if (at < 6) {
        CHECK(ran.n == (int) at + 1 && !done, "the next effect runs only after the future of the previous completed");
        p();
        for (int t = 0; t < 12; ++t)
            q.step();
    }
    CHECK(ran.n == 6 && done, "every effect of the sequence runs once");
    for (int i = 0; i < 6; ++i)
        CHECK(ran[i] == i, "effects run in the order of the sequence");
    sym::reach("done");
}
