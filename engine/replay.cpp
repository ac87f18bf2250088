// Native counterpart of the lsym intrinsics: runs a harness entry against the real (sanitized) build with the values of a replay file.
// usage: replay ENTRY FILE...   -- each file in a forked child; prints "RESULT <file> <status>"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static std::vector<std::pair<int, uint64_t>> vals; static size_t vpos; static std::vector<uint64_t> expect; static size_t opos; static bool strict;
static std::map<std::vector<uint64_t>, uint64_t> ufs; static long live;
static long g_in;
enum { DIVERGED = 43, ASSERTED = 42, MISMATCH = 44 };
[[noreturn]] static void quit(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static uint64_t next(int w)
{
    if (vpos >= vals.size()) { printf("diverged: more inputs requested than the path has\n"); quit(DIVERGED); }
    if (vals[vpos].first != w) { printf("diverged: input width\n"); quit(DIVERGED); }
    return vals[vpos++].second;
}
extern "C" {
uint64_t __lsym_make(int bits) { return next(bits); }
uint32_t __lsym_choice(uint32_t n) { if (n == 0) quit(DIVERGED); uint32_t v = next(32); if (v >= n) { printf("diverged: choice\n"); quit(DIVERGED); } return v; }
uint64_t __lsym_conc(uint64_t v) { return v; }
void __lsym_assume(bool b) { if (!b) { printf("diverged: assumption\n"); quit(DIVERGED); } }
void __lsym_assert(bool b, const char* m) { if (!b) { printf("ASSERTION FAILED: %s\n", m); quit(ASSERTED); } }
void __lsym_fail(const char* m) { printf("ASSERTION FAILED: %s\n", m); quit(ASSERTED); }
void __lsym_reach(const char*) {}
void __lsym_tag(const char*) {}
void __lsym_observe(uint64_t v)
{
    if (getenv("LSYM_SHOW")) printf("observe %llu\n", (unsigned long long) v);
    if (!strict) return;
    if (opos >= expect.size() || expect[opos] != v) { printf("observation %zu differs: native %llu, engine %llu\n", opos, (unsigned long long) v, opos < expect.size() ? (unsigned long long) expect[opos] : 0); quit(MISMATCH); }
    opos++;
}
uint64_t __lsym_uf(uint32_t fid, uint32_t rb, uint32_t n, uint64_t a, uint64_t b, uint64_t c)
{
    std::vector<uint64_t> k{fid, n}; if (n > 0) k.push_back(a); if (n > 1) k.push_back(b); if (n > 2) k.push_back(c);
    auto it = ufs.find(k);
    if (it == ufs.end()) { if (strict) { printf("diverged: function point\n"); quit(DIVERGED); } return 0; }
    (void) rb; return it->second;
}
void __lsym_scrub(int* p) { *p = -8888888; }
long __lsym_heap_live() { return live; }
void __lsym_print(const char* m, uint64_t v) { printf("[print] %s %llu\n", m, (unsigned long long) v); }
uint64_t __lsym_is_symbolic(uint64_t) { return 0; }
int __lsym_tid() { return 0; }
void __lsym_yield() {}
int __lsym_thread_create(void (*)(void*), void*) { printf("threads need the threaded replayer\n"); quit(DIVERGED); }
void __lsym_thread_join(int) {}
}
static void mh(const volatile void*, size_t) { live++; }
static void fh(const volatile void* p) { if (p) live--; }
static std::string message;
static void load(const char* f)
{
    std::ifstream in(f); std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "message") message = line.substr(8);
        else if (k == "v") { int w; uint64_t x; s >> w >> x; vals.push_back({w, x}); }
        else if (k == "uf") { uint64_t id, n; s >> id >> n; std::vector<uint64_t> key{id, n}; for (uint64_t i = 0; i < n; i++) { uint64_t a; s >> a; key.push_back(a); } uint64_t r; s >> r; ufs[key] = r; }
        else if (k == "o") { uint64_t x; s >> x; expect.push_back(x); }
    }
}
int main(int argc, char** argv)
{
    void* h = dlopen(nullptr, RTLD_NOW);
    auto fn = (void (*)()) dlsym(h, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    bool st = getenv("LSYM_STRICT") != nullptr; int lim = 20;
    for (int i = 2; i < argc; i++) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl{(rlim_t) lim, (rlim_t) lim}; setrlimit(RLIMIT_CPU, &rl); struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
            strict = st; load(argv[i]);
            if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh, fh);
            fn();
            if (strict && opos != expect.size()) { printf("fewer observations than expected\n"); quit(MISMATCH); }
            quit(0);
        }
        int s; waitpid(p, &s, 0);
        int code = WIFEXITED(s) ? WEXITSTATUS(s) : 128 + WTERMSIG(s);
        printf("RESULT %s %d\n", argv[i], code);
    }
}
