//@ entry: same reach=done,effect
//@ entry: history reach=done,rewound,moved,refused,branched
//@ entry: inner reach=done,moved,branched
//@ entry: pauses reach=done,resumed,effect
//@ bounds: any sequence of 6 (thorough: 7) operations out of an action, undo, goto any recorded position, and goto a position that does not exist (a neighbour of a recorded one with arbitrary branch or step, or a longer one); from a history of 3 actions, up to 5 (6) rounds of going to any recorded position and acting there; 5 (6) operations with pause and resume and effects; action values arbitrary, reducer uninterpreted
//@ outside: redo (not implemented by the tree debugger); the serialisation of the history (C31) and the HTTP server (C41); longer histories; actions that throw
#include "debugger.hpp"
#include <lager/debug/debugger.hpp>
#include <lager/debug/tree_debugger.hpp>

namespace {
using namespace dbg;
constexpr int MAXN = 16;
template <class Reducer, class Deps>
struct world
{
    using D   = lager::tree_debugger<act, M, Deps>;
    using cur = typename D::cursor_t;
    using pos = typename D::pos_t;
    using A   = typename D::action;
    loop_state ls;
    svc s;
    server<D> srv;
    // oracle: the recorded positions, each with the one it was added after; 0 is the initial model
    int n = 1, at = 0;
    int parent[MAXN] = {-1}, a[MAXN] = {}, m[MAXN];
    cur where[MAXN];
    act pend[16];
    int np = 0, resumes = 0, pauses = 0;
    bool paused = false;
    slog<int> fx, fxon;

    world(int i)
    {
        m[0] = i;
        s.ls = &ls;
    }
    static bool eq(const cur& x, const cur& y)
    {
        if (x.size() != y.size())
            return false;
        for (unsigned i = 0; i < x.size(); ++i)
            if ((x[i].branch != y[i].branch) | (x[i].step != y[i].step))
                return false;
        return true;
    }
    void apply(act c)
    {
        int p     = at;
        bool kid  = false;
        for (int i = 1; i < n; ++i)
            kid |= parent[i] == p;
        if (kid)
            sym::reach("branched");
        at         = n++;
        parent[at] = p;
        a[at]      = c.v;
        m[at]      = red(m[p], c.v);
    }
    void settle(const act* as, int k)
    {
        act next[16];
        int q = 0;
        for (int i = 0; i < k; ++i)
            if (as[i].kind) {
                fx.push(as[i].v);
                fxon.push(resumes);
                if (as[i].kind == 2)
                    next[q++] = act{as[i].next, 1, 0};
            }
        for (int i = 0; i < q; ++i)
            act_(next[i]);
    }
    void act_(act c)
    {
        if (paused) {
            pend[np++] = c;
        } else {
            apply(c);
            settle(&c, 1);
        }
    }
    template <class Store>
    void do_act(Store& store, bool effects)
    {
        act c{sym::any(), 0, 0};
        if (effects && (c.kind = (int) sym::choice(3)) == 2)
            c.next = sym::any();
        int before = n;
        srv.h->ctx->dispatch(A{c});
        act_(c);
        learn(store, before);
    }
    // the cursors of the positions added since: the present one, and by undoing from there
    template <class Store>
    void learn(Store& store, int before)
    {
        if (n == before)
            return;
        cur c = store.get().cursor;
        int x = at;
        // the path, by undoing on a copy of the model
        auto mdl = store.get();
        while (x >= before) {
            where[x] = mdl.cursor;
            for (int i = 0; i < x; ++i)
                CHECK(!(i < before) || !eq(where[i], mdl.cursor), "a new action gets a position of its own");
            bool kid = false;
            for (int i = 1; i < x; ++i)
                kid |= parent[i] == parent[x];
            if (parent[x] && parent[x] < before && !kid) {
                cur q      = where[parent[x]];
                unsigned l = q.size() - 1;
                CHECK(mdl.cursor.size() == q.size() && eq(mdl.cursor, q.set(l, pos{q[l].branch, q[l].step + 1})), "a new action at the end of a branch extends it");
            }
            if (parent[x] < before && kid)
                CHECK(parent[x] ? mdl.cursor.size() == where[parent[x]].size() + 1 : mdl.cursor.size() == 1, "a new action after going back makes a new branch");
            mdl = D::update([](const M& m, act) -> M { return m; }, mdl, A{typename D::undo_action{}}).first;
            CHECK(parent[x] >= before || eq(mdl.cursor, where[parent[x]]), "undo moves to the previous position");
            x = parent[x];
        }
        CHECK(eq(store.get().cursor, c), "undo moves to the previous position");
    }
    void undo()
    {
        srv.h->ctx->dispatch(A{typename D::undo_action{}});
        if (at) {
            at = parent[at];
            sym::reach("rewound");
        }
    }
    void go(int x)
    {
        srv.h->ctx->dispatch(A{typename D::goto_action{where[x]}});
        if (at != x)
            sym::reach("moved");
        at = x;
    }
    // goto a position that does not exist: it must stay where it is
    void bad()
    {
        cur c       = where[sym::choice(n)];
        unsigned sz = c.size();
        std::size_t v = sym::any<std::size_t>();
        switch (sym::choice(sz ? 3 : 1)) {
        case 0: c = c.push_back(pos{v, 0}); break;
        case 1: c = c.set(sz - 1, pos{v, c[sz - 1].step}); break;
        default: c = c.set(sz - 1, pos{c[sz - 1].branch, v});
        }
        bool exists = false;
        for (int i = 0; i < n; ++i)
            exists |= eq(c, where[i]);
        sym::assume(!exists);
        srv.h->ctx->dispatch(A{typename D::goto_action{c}});
        sym::reach("refused");
    }
    // the summary has exactly the shape of the recorded tree
    static int summarised(const immer::vector<typename D::history>& bs, const typename D::summary_t& sum)
    {
        int total = 0;
        CHECK(bs.size() == sum.size(), "the summary has every branch");
        for (unsigned b = 0; b < bs.size(); ++b) {
            unsigned k = 0;
            CHECK(sum[b].size() > 0, "the summary has every step");
            for (unsigned e = 0; e < sum[b].size(); ++e) {
                for (unsigned j = 0; j < sum[b][e]->steps; ++j, ++k)
                    CHECK(k < bs[b].size() && bs[b][k]->branches.empty(), "the summary has every step");
                if (e + 1 < sum[b].size()) {
                    CHECK(k < bs[b].size() && !bs[b][k]->branches.empty(), "the summary has every branch");
                    total += summarised(bs[b][k]->branches, sum[b][e]->branches);
                    ++k;
                } else
                    CHECK(sum[b][e]->branches.empty(), "the summary has every branch");
            }
            CHECK(k == bs[b].size(), "the summary has every step");
            total += (int) k;
        }
        return total;
    }
    template <class Store>
    void check(Store& store)
    {
        const typename D::model& mdl = store.get();
        CHECK(static_cast<const M&>(mdl).v == m[at], "the current model is the fold of the reducer along the path");
        CHECK(eq(mdl.cursor, where[at]), "the present position is the one moved to");
        CHECK(mdl.paused == paused, "the mode is kept");
        CHECK(summarised(mdl.branches, mdl.summary()) == n - 1, "the summary has every step");
        for (int i = 0; i < n; ++i) {
            auto l = mdl.lookup(where[i]);
            CHECK(l.second.v == m[i], "recorded positions keep their model");
            CHECK(l.first.has_value() == (i > 0) && (i == 0 || l.first->v == a[i]), "recorded positions keep their action");
        }
        CHECK(mdl.pending.size() == (std::size_t) np, "while paused actions are only queued");
        for (int i = 0; i < np; ++i)
            CHECK((mdl.pending[i].v == pend[i].v) & (mdl.pending[i].kind == pend[i].kind), "while paused actions are only queued");
        CHECK(static_cast<const M&>(srv.h->r.get()).v == m[at], "the debugger sees the same model as the store");
        CHECK(s.ran.n == fx.n, "every effect runs once");
        for (int i = 0; i < fx.n; ++i) {
            CHECK(s.ran[i] == fx[i], "the effects run in order");
            CHECK(s.on[i] == fxon[i], "the effects of the queued actions run on a loop that has been resumed");
        }
        CHECK(ls.resumes == resumes && ls.pauses == pauses, "pausing pauses the loop and resuming resumes it");
    }
};
} // namespace

HARNESS(same)
{
    int i = sym::any();
    world<with_effects, stored_t> w{i};
    loop_state ls2;
    svc s2;
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_deps(std::ref(w.s)), lager::with_reducer(with_effects{}), lager::with_debugger<lager::tree_debugger>(w.srv));
    auto ref   = lager::make_store<act>(M{i}, loop{&ls2}, lager::with_deps(std::ref(s2)), lager::with_reducer(with_effects{}));
    lager::reader<M> r = store.map([](const M& m) { return m; });
    for (int k = 0; k < bound(3, 4); ++k) {
        act a{sym::any(), (int) sym::choice(3), 0};
        if (a.kind == 2)
            a.next = sym::any();
        store.dispatch(a);
        ref.dispatch(a);
        CHECK(r.get().v == ref.get().v, "the models are the same as without the debugger");
        CHECK(static_cast<const M&>(store.get()).v == ref.get().v, "the models are the same as without the debugger");
        CHECK(w.s.ran.n == s2.ran.n, "the effects are the same as without the debugger");
        for (int j = 0; j < s2.ran.n; ++j)
            CHECK(w.s.ran[j] == s2.ran[j], "the effects are the same as without the debugger");
        if (s2.ran.n)
            sym::reach("effect");
    }
    sym::reach("done");
}
HARNESS(history)
{
    int i = sym::any();
    world<plain, lager::deps<>> w{i};
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_reducer(plain{}), lager::with_debugger<lager::tree_debugger>(w.srv));
    w.check(store);
    for (int k = 0; k < bound(6, 7); ++k) {
        switch (sym::choice(4)) {
        case 0: w.do_act(store, false); break;
        case 1: w.undo(); break;
        case 2: w.go((int) sym::choice(w.n)); break;
        default: w.bad();
        }
        w.check(store);
    }
    sym::reach("done");
}
// branches at inner positions
HARNESS(inner)
{
    int i = sym::any();
    world<plain, lager::deps<>> w{i};
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_reducer(plain{}), lager::with_debugger<lager::tree_debugger>(w.srv));
    for (int k = 0; k < 3; ++k)
        w.do_act(store, false);
    w.check(store);
    for (int k = 0; k < bound(5, 6); ++k) {
        w.go((int) sym::choice(w.n));
        w.check(store);
        w.do_act(store, false);
        w.check(store);
    }
    for (int k = 0; k < w.n; ++k) {
        w.go(k);
        w.check(store);
    }
    sym::reach("done");
}
HARNESS(pauses)
{
    int i = sym::any();
    world<with_effects, stored_t> w{i};
    auto store = lager::make_store<act>(M{i}, loop{&w.ls}, lager::with_deps(std::ref(w.s)), lager::with_reducer(with_effects{}), lager::with_debugger<lager::tree_debugger>(w.srv));
    using D = decltype(w)::D;
    using A = decltype(w)::A;
    for (int k = 0; k < bound(5, 6); ++k) {
        switch (sym::choice(4)) {
        case 0: w.do_act(store, true); break;
        case 1: w.undo(); break;
        case 2:
            w.srv.h->ctx->dispatch(A{D::pause_action{}});
            w.paused = true;
            w.pauses++;
            break;
        default: {
            int before = w.n, np = w.np;
            w.srv.h->ctx->dispatch(A{D::resume_action{}});
            if (np)
                sym::reach("resumed");
            w.paused = false;
            w.resumes++;
            w.np = 0;
            for (int j = 0; j < np; ++j)
                w.apply(w.pend[j]);
            act ps[16];
            for (int j = 0; j < np; ++j)
                ps[j] = w.pend[j];
            w.settle(ps, np);
            w.learn(store, before);
        }
        }
        w.check(store);
        if (w.fx.n)
            sym::reach("effect");
    }
    sym::reach("done");
}
