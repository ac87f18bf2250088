// Native counterpart of the lsym intrinsics for harnesses with threads. The harness is compiled with -fsanitize=thread and linked with this
// file instead of the sanitizer's runtime: real threads run one at a time, following the schedule of the replay file at the operations that
// the engine schedules (locks, atomics, joins, ends of threads); data races are found with vector clocks, and freed memory is never reused.
// usage: replay ENTRY FILE...   -- each file in a forked child; prints "RESULT <file> <status>"
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
enum { DIVERGED = 43, ASSERTED = 42, MISMATCH = 44, RACE = 66, DEADLOCK = 67, BADMEM = 77, MAXT = 8 };
// memory of this file's own containers does not go through the tracked operator new
template <class T>
struct raw
{
    using value_type = T;
    raw() = default;
    template <class U>
    raw(const raw<U>&) {}
    T* allocate(size_t n) { return (T*) malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    bool operator==(const raw&) const { return true; }
    bool operator!=(const raw&) const { return false; }
};
template <class T>
using rvec = std::vector<T, raw<T>>;
template <class K, class V>
using rmap = std::map<K, V, std::less<K>, raw<std::pair<const K, V>>>;
using vclock = std::array<uint32_t, MAXT>;
struct cell
{
    int wt = -1;
    uint32_t wc = 0;
    uint32_t rc[MAXT] = {};
};
struct thr
{
    sem_t go;
    pthread_t h;
    vclock vc{};
    enum { RUN, LOCK, JOIN, DONE } st = RUN;
    uintptr_t on = 0;
    void (*fn)(void*) = nullptr;
    void* arg         = nullptr;
};
struct mtx
{
    int owner = -1;
    vclock vc{};
};
static thr th[MAXT];
static int nth = 1;
static thread_local int me = -1; // -1: not a thread of the harness
static rvec<uint8_t>* sched;
static size_t spos;
static rmap<uintptr_t, mtx>* mutexes;
static rmap<uintptr_t, vclock>* avc;
static std::unordered_map<uintptr_t, cell, std::hash<uintptr_t>, std::equal_to<uintptr_t>, raw<std::pair<const uintptr_t, cell>>>* shadow;
struct block
{
    size_t size;
    bool freed;
};
static rmap<uintptr_t, block>* heap;
static std::vector<std::pair<int, uint64_t>> vals;
static size_t vpos, opos;
static std::vector<uint64_t> expect;
static bool strict, live_rt;
static std::map<std::vector<uint64_t>, uint64_t> ufs;
static long live;

[[noreturn]] static void quit(int c)
{
    fflush(stdout);
    fflush(stderr);
    _exit(c);
}
static bool on() { return live_rt && me >= 0; }
static bool multi() { return nth > 1; }
static bool enabled(int t)
{
    switch (th[t].st) {
    case thr::DONE: return false;
    case thr::LOCK: {
        auto it = mutexes->find(th[t].on);
        return it == mutexes->end() || it->second.owner < 0;
    }
    case thr::JOIN: return th[th[t].on].st == thr::DONE;
    default: return true;
    }
}
// picks who performs its pending operation next, and gives it the turn
static int pick()
{
    int t = -1;
    if (spos < sched->size()) {
        t = (*sched)[spos++];
        if (t >= nth || !enabled(t)) {
            printf("diverged: the schedule names a thread that cannot run\n");
            quit(DIVERGED);
        }
        return t;
    }
    if (me >= 0 && enabled(me))
        return me;
    for (int i = 0; i < nth; i++)
        if (enabled(i))
            return i;
    printf("DEADLOCK\n");
    quit(DEADLOCK);
}
static void visible(int st = thr::RUN, uintptr_t a = 0)
{
    if (!multi())
        return;
    th[me].st = (decltype(th[me].st)) st;
    th[me].on = a;
    int t     = pick();
    if (t != me) {
        sem_post(&th[t].go);
        sem_wait(&th[me].go);
    }
    th[me].st = thr::RUN;
}
static void join_vc(vclock& a, const vclock& b)
{
    for (int i = 0; i < MAXT; i++)
        a[i] = std::max(a[i], b[i]);
}
static void access(const void* p, size_t n, bool w)
{
    if (!on())
        return;
    uintptr_t a = (uintptr_t) p;
    if (a < 4096) {
        printf("invalid memory access at %p\n", p);
        quit(BADMEM);
    }
    auto it = heap->upper_bound(a + n - 1);
    if (it != heap->begin()) {
        --it;
        if (it->second.freed && it->first + it->second.size > a) {
            printf("USE AFTER FREE: %s of %zu bytes at %p\n", w ? "write" : "read", n, p);
            quit(BADMEM);
        }
    }
    if (!multi())
        return;
    auto& vc = th[me].vc;
    for (size_t i = 0; i < n; i++) {
        auto& c = (*shadow)[a + i];
        if (c.wt >= 0 && c.wt != me && c.wc > vc[c.wt]) {
            printf("DATA RACE: %s at %p after an unsynchronised write\n", w ? "write" : "read", p);
            quit(RACE);
        }
        if (w) {
            for (int k = 0; k < MAXT; k++)
                if (k != me && c.rc[k] > vc[k]) {
                    printf("DATA RACE: write at %p after an unsynchronised read\n", p);
                    quit(RACE);
                }
            c.wt = me;
            c.wc = vc[me];
        } else
            c.rc[me] = vc[me];
    }
}
static void alive(const volatile void* p)
{
    auto it = heap->upper_bound((uintptr_t) p);
    if (it != heap->begin() && (--it)->second.freed && it->first + it->second.size > (uintptr_t) p) { printf("USE AFTER FREE: at %p\n", (void*) p); quit(BADMEM); }
}
static void* start(void* p)
{
    me = (int) (intptr_t) p;
    sem_wait(&th[me].go);
    th[me].fn(th[me].arg);
    th[me].vc[me]++;
    th[me].st = thr::DONE;
    int t     = pick();
    sem_post(&th[t].go);
    me = -1;
    return nullptr;
}
static uint64_t next(int w)
{
    if (vpos >= vals.size()) { printf("diverged: more inputs requested than the path has\n"); quit(DIVERGED); }
    if (vals[vpos].first != w) { printf("diverged: input width\n"); quit(DIVERGED); }
    return vals[vpos++].second;
}
struct quiet // code of this file that uses tracked facilities
{
    int was = me;
    quiet() { me = -1; }
    ~quiet() { me = was; }
};
extern "C" {
uint64_t __lsym_make(int bits) { return next(bits); }
uint32_t __lsym_choice(uint32_t n) { if (n == 0) quit(DIVERGED); uint32_t v = next(32); if (v >= n) { printf("diverged: choice\n"); quit(DIVERGED); } return v; }
uint64_t __lsym_conc(uint64_t v) { return v; }
void __lsym_assume(bool b) { if (!b) { printf("diverged: assumption\n"); quit(DIVERGED); } }
void __lsym_assert(bool b, const char* m) { if (!b) { printf("ASSERTION FAILED: %s\n", m); quit(ASSERTED); } }
void __lsym_fail(const char* m) { printf("ASSERTION FAILED: %s\n", m); quit(ASSERTED); }
void __lsym_reach(const char*) {}
void __lsym_tag(const char*) {}
void __lsym_observe(uint64_t v)
{
    if (!strict) return;
    if (opos >= expect.size() || expect[opos] != v) { printf("observation %zu differs: native %llu, engine %llu\n", opos, (unsigned long long) v, opos < expect.size() ? (unsigned long long) expect[opos] : 0); quit(MISMATCH); }
    opos++;
}
uint64_t __lsym_uf(uint32_t fid, uint32_t, uint32_t n, uint64_t a, uint64_t b, uint64_t c)
{
    quiet q;
    std::vector<uint64_t> k{fid, n};
    if (n > 0) k.push_back(a);
    if (n > 1) k.push_back(b);
    if (n > 2) k.push_back(c);
    auto it = ufs.find(k);
    if (it == ufs.end()) { if (strict) { printf("diverged: function point\n"); quit(DIVERGED); } return 0; }
    return it->second;
}
void __lsym_scrub(int* p) { *p = -8888888; }
long __lsym_heap_live() { return live; }
void __lsym_print(const char* m, uint64_t v) { printf("[print] %s %llu\n", m, (unsigned long long) v); }
uint64_t __lsym_is_symbolic(uint64_t) { return 0; }
int __lsym_tid() { return me; }
void __lsym_yield() { if (on()) visible(); }
int __lsym_thread_create(void (*fn)(void*), void* arg)
{
    int id = nth;
    if (id >= MAXT) quit(DIVERGED);
    if (id == 1) th[0].vc[0] = 1;
    sem_init(&th[id].go, 0, 0);
    th[id].vc     = th[me].vc;
    th[id].vc[id] = 1;
    th[me].vc[me]++;
    th[id].fn  = fn;
    th[id].arg = arg;
    int was = me;
    me      = -1;
    pthread_create(&th[id].h, nullptr, start, (void*) (intptr_t) id);
    me = was;
    nth++;
    return id;
}
void __lsym_thread_join(int id)
{
    visible(thr::JOIN, id);
    join_vc(th[me].vc, th[id].vc);
}
// mutexes: only one thread runs at a time
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on()) return 0;
    alive(m);
    auto a = (uintptr_t) m;
    {
        auto it = mutexes->find(a);
        if (it != mutexes->end() && it->second.owner == me) { printf("DEADLOCK: mutex locked twice by the same thread\n"); quit(DEADLOCK); }
    }
    visible(thr::LOCK, a);
    auto& s = (*mutexes)[a];
    if (s.owner >= 0) { printf("DEADLOCK\n"); quit(DEADLOCK); }
    s.owner = me;
    join_vc(th[me].vc, s.vc);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on()) return 0;
    visible();
    auto& s = (*mutexes)[(uintptr_t) m];
    if (s.owner >= 0) return 16;
    s.owner = me;
    join_vc(th[me].vc, s.vc);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on()) return 0;
    visible();
    alive(m);
    auto& s = (*mutexes)[(uintptr_t) m];
    if (s.owner != me) { printf("UNLOCK of a mutex not held\n"); quit(DEADLOCK); }
    s.owner = -1;
    s.vc    = th[me].vc;
    th[me].vc[me]++;
    return 0;
}
// the instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(N)                                                               \
    void __tsan_read##N(void* p) { access(p, N, false); }                    \
    void __tsan_write##N(void* p) { access(p, N, true); }                    \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false); }          \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true); }          \
    void __tsan_read_write##N(void* p) { access(p, N, false); access(p, N, true); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, false); access(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false); }           \
    void __tsan_volatile_write##N(void* p) { access(p, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) access(s, n, false), access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) access(s, n, false), access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { if (n) access(d, n, true); return memset(d, v, n); }
static void aacq(const volatile void* a, int mo) { if (multi() && mo != 0 && mo != 3) join_vc(th[me].vc, (*avc)[(uintptr_t) a]); }
static void arel(const volatile void* a, int mo, bool j)
{
    if (!multi() || mo < 3) return;
    auto& v = (*avc)[(uintptr_t) a];
    if (j) join_vc(v, th[me].vc); else v = th[me].vc;
    th[me].vc[me]++;
}
#define BEGIN if (on()) { visible(); alive(a); }
#define RMW(T, N, OP, EXPR)                                                   \
    T __tsan_atomic##N##_##OP(volatile T* a, T v, int mo)                     \
    {                                                                         \
        BEGIN T o = *a;                                                       \
        if (on()) { aacq(a, mo); arel(a, mo, true); }                         \
        *a = (EXPR);                                                          \
        return o;                                                             \
    }
#define ATOM(T, N)                                                            \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) { BEGIN if (on()) aacq(a, mo); return *a; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { BEGIN if (on()) arel(a, mo, false); *a = v; } \
    RMW(T, N, exchange, v) RMW(T, N, fetch_add, o + v) RMW(T, N, fetch_sub, o - v) RMW(T, N, fetch_and, o & v) RMW(T, N, fetch_or, o | v) RMW(T, N, fetch_xor, o ^ v) \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int)  \
    {                                                                         \
        BEGIN T o = *a;                                                       \
        if (on()) { aacq(a, mo); if (o == e) arel(a, mo, true); }             \
        if (o == e) *a = v;                                                   \
        return o;                                                             \
    }                                                                         \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { T o = __tsan_atomic##N##_compare_exchange_val(a, *e, v, mo, fmo); if (o == *e) return 1; *e = o; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo); }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (on()) {
        live++;
        memset(p, 0xbe, n);
        (*heap)[(uintptr_t) p] = {n ? n : 1, false};
    }
    return p;
}
void operator delete(void* p) noexcept
{
    if (!p) return;
    if (!on()) {
        // (memory of the harness that is freed by code outside of it is not reused either)
        if (!heap || heap->find((uintptr_t) p) == heap->end()) free(p);
        return;
    }
    auto it = heap->find((uintptr_t) p);
    if (it == heap->end()) { free(p); return; }
    if (it->second.freed) { printf("DOUBLE FREE at %p\n", p); quit(BADMEM); }
    access(p, it->second.size, true);
    live--;
    it->second.freed = true;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static std::string message;
static void load(const char* f)
{
    std::ifstream in(f);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "message") message = line.substr(8);
        else if (k == "v") { int w; uint64_t x; s >> w >> x; vals.push_back({w, x}); }
        else if (k == "uf") { uint64_t id, n; s >> id >> n; std::vector<uint64_t> key{id, n}; for (uint64_t i = 0; i < n; i++) { uint64_t a; s >> a; key.push_back(a); } uint64_t r; s >> r; ufs[key] = r; }
        else if (k == "sched") { int t; while (s >> t) sched->push_back(t); }
        else if (k == "o") { uint64_t x; s >> x; expect.push_back(x); }
    }
}
int main(int argc, char** argv)
{
    sched   = new rvec<uint8_t>;
    mutexes = new std::remove_pointer_t<decltype(mutexes)>;
    avc     = new std::remove_pointer_t<decltype(avc)>;
    shadow  = new std::remove_pointer_t<decltype(shadow)>;
    heap    = new std::remove_pointer_t<decltype(heap)>;
    void* h = dlopen(nullptr, RTLD_NOW);
    auto fn = (void (*)()) dlsym(h, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    bool st = getenv("LSYM_STRICT") != nullptr;
    for (int i = 2; i < argc; i++) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl{20, 20};
            setrlimit(RLIMIT_CPU, &rl);
            struct rlimit rc{0, 0};
            setrlimit(RLIMIT_CORE, &rc);
            alarm(40);
            strict = st;
            load(argv[i]);
            sem_init(&th[0].go, 0, 0);
            me      = 0;
            live_rt = true;
            fn();
            me = -1;
            if (strict && opos != expect.size()) { printf("fewer observations than expected\n"); quit(MISMATCH); }
            quit(0);
        }
        int s;
        waitpid(p, &s, 0);
        int code = WIFEXITED(s) ? WEXITSTATUS(s) : 128 + WTERMSIG(s);
        printf("RESULT %s %d\n", argv[i], code);
    }
}
