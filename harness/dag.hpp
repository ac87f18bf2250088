// Readers over an arbitrary dependency graph: every node is a map of one earlier node or of a merge of two earlier nodes;
// the mapping functions are arbitrary.
#pragma once
#include "common.hpp"
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <functional>
#include <memory>
struct dag
{
    static constexpr int MAX = 10;
    lager::reader<int> r[MAX];
    int p[MAX], q[MAX]; // parents, -1 for none
    int src[MAX];       // bit set of the roots it depends on
    int paths[MAX];     // number of paths from the roots
    int n = 0;
    int calls[MAX] = {};
    int arg[MAX];
    std::function<void(int)> hook;
    void root(lager::reader<int> x)
    {
        p[n] = q[n] = -1;
        src[n]      = 1 << n;
        paths[n]    = 1;
        r[n++]      = x;
    }
    void grow()
    {
        int i = n;
        unsigned c = sym::choice(i + i * (i - 1) / 2);
        if ((int) c < i)
            map(c);
        else {
            c -= i;
            int y = 1;
            while ((int) c >= y) {
                c -= y;
                ++y;
            }
            merge(c, y);
        }
    }
    void map(int a)
    {
        int i    = n++;
        p[i]     = a;
        q[i]     = -1;
        src[i]   = src[a];
        paths[i] = paths[a];
        r[i]     = r[a].map([i](int x) { return sym::uf(100 + i, x); });
    }
    void merge(int a, int b)
    {
        int i    = n++;
        p[i]     = a;
        q[i]     = b;
        src[i]   = src[a] | src[b];
        paths[i] = paths[a] + paths[b];
        r[i]     = lager::with(r[a], r[b]).map([i](int x, int y) { return sym::uf(100 + i, x, y); });
    }
    // leaves the remains of a dead reader among the readers derived from each node
    void ghosts()
    {
        for (int i = 0; i < n; ++i)
            lager::reader<int> dead = r[i].map([](int x) { return x; });
    }
    void watch_all()
    {
        for (int i = 0; i < n; ++i)
            r[i].watch([this, i](int v) {
                calls[i]++;
                arg[i] = v;
                CHECK(v == r[i].get(), "the argument of the watcher is the value its reader shows");
                if (hook)
                    hook(i);
            });
    }
    // the values all the nodes must have, given the roots' in v[0..]
    void eval(int* v) const
    {
        for (int i = 0; i < n; ++i)
            if (p[i] >= 0)
                v[i] = q[i] < 0 ? sym::uf(100 + i, v[p[i]]) : sym::uf(100 + i, v[p[i]], v[q[i]]);
    }
    void shows(const int* v) const
    {
        for (int i = 0; i < n; ++i)
            CHECK(r[i].get() == v[i], "every reader shows its function of the roots");
    }
    void reset()
    {
        for (int i = 0; i < n; ++i)
            calls[i] = 0;
    }
};
