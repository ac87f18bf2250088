// A graph of readers and cursors over one root, with the value each of them must show as a function of the root's value.
#pragma once
#include "common.hpp"
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <functional>
#include <memory>
#include <tuple>
#include <vector>

struct mdl
{
    int a, b;
    friend bool operator==(const mdl& x, const mdl& y) { return (x.a == y.a) & (x.b == y.b); }
    friend bool operator!=(const mdl& x, const mdl& y) { return !(x == y); }
};
struct outer
{
    mdl in;
    int c;
    friend bool operator==(const outer& x, const outer& y) { return (x.in.a == y.in.a) & (x.in.b == y.in.b) & (x.c == y.c); }
    friend bool operator!=(const outer& x, const outer& y) { return !(x == y); }
};
inline outer any_outer() { int a = sym::any(), b = sym::any(), c = sym::any(); return outer{{a, b}, c}; }
inline mdl any_mdl() { int a = sym::any(), b = sym::any(); return mdl{a, b}; }
using pr = std::tuple<int, int>;
inline bool same(int a, int b) { return a == b; }
inline bool same(const mdl& a, const mdl& b) { return a == b; }
inline bool same(const outer& a, const outer& b) { return a == b; }
inline bool same(const pr& a, const pr& b) { return (std::get<0>(a) == std::get<0>(b)) & (std::get<1>(a) == std::get<1>(b)); }

struct probe_base
{
    const char* name;
    bool single = true; // derived along a single path
    int calls   = 0;
    std::function<void(probe_base&)> hook; // run inside the watcher
    virtual void shows(const outer& m)                         = 0;
    virtual bool differs(const outer& a, const outer& b) const = 0;
    virtual void arg_is(const outer& m)                        = 0;
    virtual ~probe_base() = default;
};
template <class V, class R, class F>
struct probe : probe_base
{
    R r;
    F f;
    V arg{};
    probe(R r_, F f_)
        : r(std::move(r_))
        , f(f_)
    {}
    void arm()
    {
        r.watch([this](const V& v) {
            ++calls;
            arg = v;
            CHECK(same(v, r.get()), "the argument of the watcher is the value its reader shows");
            if (hook)
                hook(*this);
        });
    }
    void shows(const outer& m) override { CHECK(same(r.get(), f(m)), "every reader shows its function of the root"); }
    bool differs(const outer& a, const outer& b) const override { return !same(f(a), f(b)); }
    void arg_is(const outer& m) override { CHECK(same(arg, f(m)), "the watcher receives the new value"); }
};

struct graph
{
    std::vector<std::unique_ptr<probe_base>> ps;
    lager::cursor<mdl> in;
    lager::cursor<int> a, b, c;
    lager::cursor<pr> ab;

    template <class R, class F>
    void add(const char* name, R r, F f, bool single = true)
    {
        using V = std::decay_t<decltype(r.get())>;
        auto p  = std::make_unique<probe<V, R, F>>(std::move(r), f);
        p->name   = name;
        p->single = single;
        p->arm();
        ps.push_back(std::move(p));
    }
    // the part of the graph with a single path from the root to every reader
    template <class Root>
    void build_single(Root& root)
    {
        lager::cursor<outer> whole = root;
        in = root[&outer::in];
        a  = in[&mdl::a];
        b  = root[&outer::in][&mdl::b];
        c  = root[&outer::c];
        lager::reader<int> fa = a.map([](int x) { return sym::uf(1, x); });
        add("root", whole, [](const outer& m) { return m; });
        add("in", in, [](const outer& m) { return m.in; });
        add("a", lager::cursor<int>{a}, [](const outer& m) { return m.in.a; });
        add("c", lager::cursor<int>{c}, [](const outer& m) { return m.c; });
        add("fa", fa, [](const outer& m) { return sym::uf(1, m.in.a); });
        add("gfa", lager::reader<int>{fa.map([](int x) { return sym::uf(2, x); })}, [](const outer& m) { return sym::uf(2, sym::uf(1, m.in.a)); });
    }
    // readers with several paths from the root
    template <class Root>
    void build_multi(Root& root)
    {
        lager::reader<int> fa = a.map([](int x) { return sym::uf(1, x); });
        ab = lager::with(a, b);
        add("with(a,b)", lager::cursor<pr>{ab}, [](const outer& m) { return pr{m.in.a, m.in.b}; }, false);
        lager::reader<int> h = lager::with(fa, lager::reader<int>{c}).map([](int x, int y) { return sym::uf(3, x, y); });
        add("h(fa,c)", h, [](const outer& m) { return sym::uf(3, sym::uf(1, m.in.a), m.c); }, false);
        lager::reader<int> k = lager::with(h, lager::reader<mdl>{in}).map([](int x, const mdl& y) { return sym::uf(4, x, y.a, y.b); });
        add("k(h,in)", k, [](const outer& m) { return sym::uf(4, sym::uf(3, sym::uf(1, m.in.a), m.c), m.in.a, m.in.b); }, false);
    }
    void shows(const outer& m)
    {
        for (auto& p : ps)
            p->shows(m);
    }
    void reset()
    {
        for (auto& p : ps)
            p->calls = 0;
    }
    void quiet(const char* why)
    {
        for (auto& p : ps)
            CHECK(p->calls == 0, why);
    }
    // one write through some handle; keeps m, the value the root must have after it
    template <class Root>
    void write(Root& root, outer& m)
    {
        switch (sym::choice(8)) {
        case 0: {
            auto v = any_outer();
            root.set(v);
            m = v;
            break;
        }
        case 1: {
            auto v = any_mdl();
            in.set(v);
            m.in = v;
            break;
        }
        case 2: {
            int v = sym::any();
            a.set(v);
            m.in.a = v;
            break;
        }
        case 3: {
            int v = sym::any();
            b.set(std::move(v));
            m.in.b = v;
            break;
        }
        case 4: {
            int v = sym::any();
            lager::writer<int> w = c;
            w.set(std::move(v));
            m.c = v;
            break;
        }
        case 5: {
            root.update([](outer o) { o.c = sym::uf(5, o.c); return o; });
            m.c = sym::uf(5, m.c);
            break;
        }
        case 6: {
            a.update([](int x) { return sym::uf(6, x); });
            m.in.a = sym::uf(6, m.in.a);
            break;
        }
        case 7: {
            int v = sym::any(), w = sym::any();
            lager::cursor<pr> t = lager::with(a, b);
            t.set(pr{v, w});
            m.in = mdl{v, w};
            break;
        }
        }
    }
};
