// Shared pieces of the harnesses.
#pragma once
#include "sym.hpp"
#include <cassert>
#include <cstddef>
#include <utility>

// A value wrapper around an int with observable identity: symbolic payload.
// Comparisons are branch-free so that a comparison is one solver term.
struct val
{
    int v = 0;
    friend bool operator==(const val& a, const val& b) { return a.v == b.v; }
    friend bool operator!=(const val& a, const val& b) { return a.v != b.v; }
};

// A value whose moved-from state shows: moving from what others still look at does not go unnoticed.
struct moved_int
{
    int v = 0;
    moved_int() = default;
    explicit moved_int(int x)
        : v{x}
    {}
    moved_int(const moved_int&) = default;
    moved_int& operator=(const moved_int&) = default;
    moved_int(moved_int&& o) noexcept
        : v{o.v}
    {
        o.v = 0x5eed;
    }
    moved_int& operator=(moved_int&& o) noexcept
    {
        int x = o.v;
        o.v   = 0x5eed;
        v     = x;
        return *this;
    }
    operator int() const { return v; }
    friend bool operator==(const moved_int& a, const moved_int& b) { return a.v == b.v; }
    friend bool operator!=(const moved_int& a, const moved_int& b) { return a.v != b.v; }
};

// Fixed-capacity log usable from callbacks.
template <class T, int N = 64>
struct slog
{
    T d[N] = {};
    int n  = 0;
    void push(T x)
    {
        CHECK(n < N, "harness log overflow");
        d[n++] = x;
    }
    T operator[](int i) const { return d[i]; }
    int count(T x) const
    {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r += d[i] == x;
        return r;
    }
    void clear() { n = 0; }
};
