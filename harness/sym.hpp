// Harness API. Under lsym these functions are intrinsics; natively engine/replay.cpp answers them from a replay file.
#pragma once
#include <cstdint>
#include <type_traits>
extern "C" {
std::uint64_t __lsym_make(int bits);
std::uint32_t __lsym_choice(std::uint32_t n);
std::uint64_t __lsym_conc(std::uint64_t v);
void __lsym_assume(bool);
void __lsym_assert(bool, const char*);
void __lsym_fail(const char*);
void __lsym_reach(const char*);
void __lsym_tag(const char*);
void __lsym_observe(std::uint64_t);
std::uint64_t __lsym_uf(std::uint32_t fid, std::uint32_t retbits, std::uint32_t n, std::uint64_t a, std::uint64_t b, std::uint64_t c);
int __lsym_thread_create(void (*fn)(void*), void* arg);
void __lsym_thread_join(int);
int __lsym_tid();
void __lsym_yield();
long __lsym_heap_live();
void __lsym_scrub(int*);
void __lsym_print(const char*, std::uint64_t);
extern char __libc_single_threaded;
}
namespace sym {
// an arbitrary value of an integral type
template <class T = int>
inline T any()
{
    if constexpr (std::is_same_v<T, bool>)
        return (bool) (__lsym_make(1) & 1);
    else
        return (T) __lsym_make(sizeof(T) * 8);
}
// an arbitrary value in [lo, hi] (symbolic)
inline int range(int lo, int hi)
{
    int v = (int) __lsym_make(32);
    __lsym_assume((v >= lo) & (v <= hi));
    return v;
}
// an arbitrary structural choice in [0, n): every value is explored as its own path
inline unsigned choice(unsigned n) { return __lsym_choice(n); }
inline bool flip() { return __lsym_choice(2) != 0; }
inline void assume(bool b) { __lsym_assume(b); }
inline void reach(const char* l) { __lsym_reach(l); }
inline void observe(std::uint64_t v) { __lsym_observe(v); }
inline void tag(const char* l) { __lsym_tag(l); }
// an arbitrary (uninterpreted) function of up to three integers
inline int uf(unsigned id, int a) { return (int) __lsym_uf(id * 8 + 1, 32, 1, (std::uint32_t) a, 0, 0); }
inline int uf(unsigned id, int a, int b) { return (int) __lsym_uf(id * 8 + 2, 32, 2, (std::uint32_t) a, (std::uint32_t) b, 0); }
inline int uf(unsigned id, int a, int b, int c) { return (int) __lsym_uf(id * 8 + 3, 32, 3, (std::uint32_t) a, (std::uint32_t) b, (std::uint32_t) c); }
inline bool up(unsigned id, int a) { return __lsym_uf(id * 8 + 4 + 1, 1, 1, (std::uint32_t) a, 0, 0) & 1; }
inline bool up(unsigned id, int a, int b) { return __lsym_uf(id * 8 + 4 + 2, 1, 2, (std::uint32_t) a, (std::uint32_t) b, 0) & 1; }
inline long heap_live() { return __lsym_heap_live(); }
} // namespace sym
#define CHECK(c, m) __lsym_assert((c), m)
#define HARNESS(name)          \
    extern "C" void name();    \
    void name()
#ifndef TIER
#define TIER 0
#endif
// bound(q, t): q in the quick tier, t in the thorough one
constexpr int bound(int q, int t) { return TIER ? t : q; }
