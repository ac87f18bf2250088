// Shared by C24 and C25: a store with a debugger, on a loop that the harness controls.
#pragma once
#include "common.hpp"
#include <deque>
#include <functional>
#include <lager/context.hpp>
#include <lager/deps.hpp>
#include <lager/effect.hpp>
#include <lager/extra/struct.hpp>
#include <lager/reader.hpp>
#include <lager/store.hpp>
#include <optional>

namespace dbg {
struct M
{
    int v = 0;
    LAGER_STRUCT_NESTED(M, v);
};
// the event loop: runs what is posted in order, now or when asked
struct loop_state
{
    std::deque<std::function<void()>> q;
    bool running = false, deferred = false;
    int pauses = 0, resumes = 0;
    void run()
    {
        if (running)
            return;
        running = true;
        while (!q.empty()) {
            auto f = std::move(q.front());
            q.pop_front();
            f();
        }
        running = false;
    }
};
struct loop
{
    loop_state* s;
    template <class F>
    void post(F&& f)
    {
        s->q.push_back(std::forward<F>(f));
        if (!s->deferred)
            s->run();
    }
    template <class F>
    void async(F&&)
    {}
    void finish() {}
    void pause() { s->pauses++; }
    void resume() { s->resumes++; }
};
// a dependency of the effects, where they record what they did
struct svc
{
    slog<int> ran;
    slog<int> on; // how often the loop had been resumed by then
    loop_state* ls = nullptr;
};
// an action: a number, which may have an effect, which may dispatch a further action
struct act
{
    int v        = 0;
    int kind     = 0; // 0: none, 1: records, 2: records and dispatches next
    int next     = 0;
    LAGER_STRUCT_NESTED(act, v, kind, next);
};
inline int red(int m, int a) { return sym::uf(1, m, a); }
using deps_t   = lager::deps<svc&>;
using stored_t = lager::deps<lager::dep::ref<svc>>;
struct plain
{
    M operator()(const M& m, act a) const { return {red(m.v, a.v)}; }
};
struct with_effects
{
    std::pair<M, lager::effect<act, deps_t>> operator()(const M& m, act a) const
    {
        M n{red(m.v, a.v)};
        if (!a.kind)
            return {n, lager::noop};
        return {n, [a](lager::context<act, deps_t> ctx) {
                    auto& s = lager::get<svc&>(ctx);
                    s.ran.push(a.v);
                    if (s.ls)
                        s.on.push(s.ls->resumes);
                    if (a.kind == 2)
                        ctx.dispatch(act{a.next, 1, 0});
                }};
    }
};
// takes what the debugger makes available
template <class D>
struct server
{
    using action = typename D::action;
    using model  = typename D::model;
    struct handle
    {
        std::optional<lager::context<action, typename D::deps_t>> ctx;
        lager::reader<model> r;
        template <class C, class R>
        void init(C& c, R&& x)
        {
            ctx.emplace(c);
            r = lager::reader<model>{std::forward<R>(x)};
        }
    };
    std::shared_ptr<handle> h;
    auto make(D)
    {
        h = std::make_shared<handle>();
        return h;
    }
};
} // namespace dbg
