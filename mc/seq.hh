// Exhaustive sequential exploration of real code.
//
// A scenario is a deterministic system with a finite menu of operations.  Everything it allocates lives in
// one arena (and in regions it registers), so a state is saved and restored by copying memory: the search
// visits every operation sequence up to a depth, executing each prefix once.  With ASan the arena's shadow
// is saved and restored too, so out-of-bounds and use-after-free accesses stop the run.
//
// A scenario may also be a plain enumeration: run() loops over inputs itself, calling begin_case().
#ifndef SEQ_HH
#define SEQ_HH
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <new>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define SEQ_HAS_ASAN 1
#  include <sanitizer/asan_interface.h>
# endif
#endif
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
}
namespace seq {
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

enum { K_RESULT = 1, K_CRASH = 2, K_HANG = 4, K_MEMORY = 8, K_LEAK = 16 };
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SIZE = 1ull << 30;

struct Slot { int state; int kind; char scen[200]; char path[800]; char msg[1500]; };
struct Shared {
    volatile u32 next, nviol;
    volatile u64 states, transitions, executions, cases, checks, dedup;
    volatile u32 done, skipped, capped;
    Slot slot[64];
    char sample[8][600]; volatile u32 nsample;
};
static Shared* sh;
static Slot* my;                        // this worker's slot
static uintptr_t brk_ = ARENA;
static bool in_ = false;                // allocations go to the arena
static bool arena_mapped = false;
static double deadline = 0;
static u64 case_no;
static int seq_shard, seq_nshards = 1;    // for enumerations split over workers
struct Region { void* p; size_t n; };
static std::vector<Region>* regions;

static inline double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static inline bool in_arena(const void* p) { return (uintptr_t) p - ARENA < ARENA_SIZE; }
__attribute__((no_sanitize("address"))) static inline void rawcopy(void* d, const void* s, size_t n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
__attribute__((no_sanitize("address"))) static inline void rawset(void* d, int v, size_t n) {
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}
#if SEQ_HAS_ASAN
static inline u8* shadow_of(uintptr_t a) { return (u8*) ((a >> 3) + 0x7fff8000ull); }
#endif
static void map_arena() {
    void* p = mmap((void*) ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("seq: mmap"); _exit(3); }
    arena_mapped = true;
#if SEQ_HAS_ASAN
    __asan_poison_memory_region((void*) ARENA, 64 << 20);
#endif
}
static void* alloc(size_t n, size_t al) {
    if (al < 16) al = 16;
    uintptr_t a = (brk_ + 32 + al - 1) & ~(uintptr_t) (al - 1);
    if (a + n + 64 > ARENA + (64 << 20)) { fprintf(stderr, "seq: arena exhausted\n"); _exit(3); }
#if SEQ_HAS_ASAN
    __asan_unpoison_memory_region((void*) (a - 16), 8);
#endif
    *(u64*) (a - 16) = n;
#if SEQ_HAS_ASAN
    __asan_poison_memory_region((void*) (a - 16), 8);
    __asan_unpoison_memory_region((void*) a, n);
#endif
    brk_ = (a + n + 15) & ~(uintptr_t) 15;
    return (void*) a;
}
__attribute__((no_sanitize("address"))) static size_t size_of(void* p) { return *(volatile u64*) ((char*) p - 16) & ~(1ull << 63); }
[[noreturn]] static void die(int kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
__attribute__((no_sanitize("address"))) static void dealloc(void* p) {
    volatile u64* h = (volatile u64*) ((char*) p - 16);
    if (*h >> 63) die(K_MEMORY, "double free");
    *h |= 1ull << 63;
#if SEQ_HAS_ASAN
    __asan_poison_memory_region(p, *h & ~(1ull << 63));
#endif
}
// ---- failures ------------------------------------------------------------------------------------
static std::function<std::string()>* describe;      // describes the current operation path
static const char* msg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static const char* msg(const char* fmt, ...) {
    static char b[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    return b;
}
static void record(int kind, const char* m) {
    my->kind = kind;
    snprintf(my->msg, sizeof my->msg, "%s", m);
    my->state = 3;
}
[[noreturn]] static void die(int kind, const char* fmt, ...) {
    char b[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    record(kind, b);
    _exit(9);
}
static inline void path(const std::string& s) { snprintf(my->path, sizeof my->path, "%s", s.c_str()); }
[[noreturn]] static void fail(const char* m) { die(K_RESULT, "%s", m); }
#define SEQ_FAIL(...) seq::die(seq::K_RESULT, __VA_ARGS__)
static inline void sample(const std::string& s) {
    u32 i = __sync_fetch_and_add(&sh->nsample, 1);
    if (i < 8) snprintf(sh->sample[i], sizeof sh->sample[i], "%s", s.c_str());
}

// ---- operation-sequence systems ------------------------------------------------------------------
struct System {
    virtual ~System() {}
    virtual void setup() = 0;                       // build the start state (in the arena)
    virtual int nops() const = 0;
    virtual bool enabled(int) { return true; }
    virtual const char* step(int op) = 0;           // perform and check; nullptr: fine
    virtual const char* check() { return nullptr; } // in every new state; must not change the state
    virtual bool recurse(int op) { (void) op; return true; }  // false: op did not change the state
    virtual u64 key() { return 0; }                 // canonical state, 0: do not merge states
    virtual const char* finish() { return nullptr; }  // at the end of every maximal sequence; may change the state
    virtual std::string opname(int op) const = 0;
};
struct Scenario {
    std::string name;
    std::function<System*()> make;                  // either a system ...
    int depth;
    std::function<void()> run;                      // ... or an enumeration
    int shards = 1;                                 // enumeration: run() is called for each shard
    int shard = 0;
};
struct Scope { bool o; Scope() : o(in_) { in_ = true; } ~Scope() { in_ = o; } };
struct Saved { uintptr_t brk; std::vector<char> mem, shadow; std::vector<std::vector<char>> reg; };

static void save(Saved& s) {
    s.brk = brk_;
    size_t n = brk_ - ARENA;
    if (s.mem.size() < n) s.mem.resize(n * 2);
    rawcopy(s.mem.data(), (void*) ARENA, n);
#if SEQ_HAS_ASAN
    if (s.shadow.size() < n / 8 + 8) s.shadow.resize(n / 4 + 16);
    rawcopy(s.shadow.data(), shadow_of(ARENA), n / 8);
#endif
    s.reg.resize(regions->size());
    for (size_t i = 0; i < regions->size(); ++i) {
        s.reg[i].resize((*regions)[i].n);
        rawcopy(s.reg[i].data(), (*regions)[i].p, (*regions)[i].n);
    }
}
static void restore(const Saved& s) {
    size_t n = s.brk - ARENA;
    rawcopy((void*) ARENA, s.mem.data(), n);
    if (brk_ > s.brk) rawset((void*) s.brk, 0, brk_ - s.brk);
#if SEQ_HAS_ASAN
    rawcopy(shadow_of(ARENA), s.shadow.data(), n / 8);
    if (brk_ > s.brk) rawset(shadow_of(s.brk), 0xf7, (brk_ - s.brk) / 8);
#endif
    brk_ = s.brk;
    for (size_t i = 0; i < regions->size(); ++i) rawcopy((*regions)[i].p, s.reg[i].data(), s.reg[i].size());
}
// number of 8-byte words in which the arena differs from the saved copy, or a large number
__attribute__((no_sanitize("address"))) static size_t diff_words(const Saved& s, size_t stop = 2) {
    if (brk_ != s.brk) return 1 << 30;
    size_t n = (brk_ - ARENA) / 8, d = 0;
    const volatile u64* a = (const volatile u64*) ARENA; const u64* b = (const u64*) s.mem.data();
    for (size_t i = 0; i < n; ++i) if (a[i] != b[i] && ++d >= stop) break;
    return d;
}
struct HashSet {
    std::vector<u64> t; size_t n = 0;
    HashSet() : t(1 << 16) {}
    bool insert(u64 x) {
        if (!x) x = 1;
        if (n * 2 >= t.size()) { std::vector<u64> o; o.swap(t); t.resize(o.size() * 2); n = 0; for (u64 y : o) if (y) insert(y); }
        size_t i = (x * 0x9E3779B97F4A7C15ull) >> 20 & (t.size() - 1);
        while (t[i]) { if (t[i] == x) return false; i = (i + 1) & (t.size() - 1); }
        t[i] = x; ++n; return true;
    }
};
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; return h ^ h >> 32; }
static inline u64 mixs(u64 h, const void* p, size_t n) { for (size_t i = 0; i < n; ++i) h = mix(h, ((const u8*) p)[i]); return mix(h, n); }

struct Search {
    System* sys; int depth; std::vector<int> ops; std::vector<Saved> stack; std::vector<HashSet> seen; bool stop = false;
    u64 ns = 0, nt = 0, ne = 0, nd = 0;
    void flush() {
        __sync_fetch_and_add(&sh->states, ns); __sync_fetch_and_add(&sh->transitions, nt); __sync_fetch_and_add(&sh->executions, ne); __sync_fetch_and_add(&sh->dedup, nd);
        ns = nt = ne = nd = 0;
    }
    std::string describe_path() const {
        std::string s;
        for (int o : ops) s += (s.empty() ? "" : " ") + sys->opname(o);
        return s;
    }
    void bad(const char* m) { record(K_RESULT, m); _exit(9); }
    void visit(int d) {
        ++ns;
        { Scope in; alarm(30); if (const char* m = sys->check()) bad(m); }
        if (d >= depth) { end(); return; }
        save(stack[d]);
        bool any = false;
        for (int o = 0; o < sys->nops(); ++o) {
            { Scope in; if (!sys->enabled(o)) continue; }
            ops.push_back(o);
            trace();
            const char* m; bool rec; u64 k = 0;
            { Scope in; m = sys->step(o); ++nt; if (m) bad(m); rec = sys->recurse(o); if (rec) k = sys->key(); }
            if (rec) {
                any = true;
                if (k && !seen[d].insert(k)) ++nd;
                else visit(d + 1);
            } else if (m = nullptr, true) {
                Scope in; if ((m = sys->check())) bad(m);
            }
            restore(stack[d]);
            ops.pop_back();
            if (stop) return;
        }
        if (!any) end();
        if (d <= depth - 3 || depth < 3) { if (deadline && now_s() > deadline) stop = true; flush(); }
    }
    void end() {
        ++ne;
        Scope in;
        if (const char* m = sys->finish()) bad(m);
    }
    // keep the path readable for the parent in case this process dies
    void trace() {
        size_t n = 0; char* p = my->path;
        n = snprintf(p, sizeof my->path, "#");
        for (int o : ops) n += snprintf(p + n, n < sizeof my->path ? sizeof my->path - n : 0, " %d", o);
    }
};
static Search* cur;
static void on_signal(int sg) {
    in_ = false;
    char b[100];
    snprintf(b, sizeof b, sg == SIGALRM ? "an operation did not finish within 30 s" : "signal %d", sg);
    record(sg == SIGALRM ? K_HANG : K_CRASH, b);
    _exit(9);
}
static void run_system(const Scenario& sc) {
    Search s;
    brk_ = ARENA;
#if SEQ_HAS_ASAN
    __asan_poison_memory_region((void*) ARENA, 64 << 20);
#endif
    rawset((void*) ARENA, 0, 1 << 20);
    static std::vector<Region> regs; regs.clear(); regions = &regs;
    { Scope in; s.sys = sc.make(); alarm(60); s.sys->setup(); }
    s.depth = sc.depth;
    s.stack.resize(sc.depth + 1); s.seen.resize(sc.depth + 1);
    cur = &s;
    s.visit(0);
    s.flush();
    if (s.stop) __sync_fetch_and_add(&sh->capped, 1);
    alarm(0);
    cur = nullptr;
}
static inline void region(void* p, size_t n) { bool o = in_; in_ = false; regions->push_back({p, n}); in_ = o; }
// enumeration scenarios: count one case; `what` is reported if the case fails or the process dies
static u64 lcases;
static inline void begin_case() { if (!(++lcases & 0x3fff)) { alarm(60); __sync_fetch_and_add(&sh->cases, lcases); __sync_fetch_and_add(&sh->states, lcases); lcases = 0; } }
static inline void flush_cases() { __sync_fetch_and_add(&sh->cases, lcases); __sync_fetch_and_add(&sh->states, lcases); lcases = 0; }
static inline bool out_of_time() { if (deadline && now_s() > deadline) { __sync_fetch_and_add(&sh->capped, 1); return true; } return false; }

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char) c < 32 || (unsigned char) c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char) c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static inline std::string hex(const std::string& s) {
    std::string r;
    for (unsigned char c : s) { char b[4]; if (c > 32 && c < 127 && c != '\\') r += c; else { snprintf(b, sizeof b, "\\%02x", c); r += b; } }
    return r;
}
static int drive(int argc, char** argv, std::vector<Scenario>& in) {
    int jobs = 8; const char* out = nullptr; const char* only = nullptr; double maxs = 600;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
        else if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--max-seconds" && i + 1 < argc) maxs = atof(argv[++i]);
        else if (a == "--list") { for (auto& s : in) printf("%s\n", s.name.c_str()); return 0; }
    }
    std::vector<Scenario> sc;
    for (auto& s : in) if (!only || s.name == only)
        for (int k = 0; k < s.shards; ++k) { sc.push_back(s); sc.back().shard = k; }
    sh = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now_s();
    deadline = t0 + maxs;
    map_arena();
    std::vector<pid_t> pids(jobs, 0);
    fflush(stdout); fflush(stderr);
    auto spawn = [&](int j) {
        pid_t p = fork();
        if (p) { pids[j] = p; return; }
        my = &sh->slot[j];
        for (int sg : {SIGALRM, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) if (sg == SIGALRM || sg == SIGABRT || !getenv("SEQ_NOCATCH")) signal(sg, on_signal);
        while (true) {
            u32 i = __sync_fetch_and_add(&sh->next, 1);
            if (i >= sc.size()) break;
            if (now_s() > deadline || sh->nviol >= 4) { __sync_fetch_and_add(&sh->skipped, 1); continue; }
            snprintf(my->scen, sizeof my->scen, "%s", sc[i].name.c_str());
            my->path[0] = 0; my->msg[0] = 0; my->state = 1;
            if (sc[i].make) run_system(sc[i]);
            else { static std::vector<Region> regs; regions = &regs; alarm(120); case_no = 0; seq_shard = sc[i].shard; seq_nshards = sc[i].shards; sc[i].run(); flush_cases(); alarm(0); }
            my->state = 2;
            __sync_fetch_and_add(&sh->done, 1);
        }
        my->state = 2;
        fflush(stdout); _exit(0);
    };
    for (int j = 0; j < jobs; ++j) spawn(j);
    struct V { std::string scen, path, msg; int kind; };
    std::vector<V> viols;
    int left = jobs;
    while (left) {
        int st; pid_t p = wait(&st);
        if (p < 0) break;
        int j = -1;
        for (int k = 0; k < jobs; ++k) if (pids[k] == p) j = k;
        if (j < 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --left; continue; }
        Slot& s = sh->slot[j];
        V v; v.scen = s.scen; v.path = s.path;
        if (s.state == 3) { v.kind = s.kind; v.msg = s.msg; }
        else {
            v.kind = K_CRASH;
            v.msg = WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st))
                : std::string("exited with status ") + std::to_string(WEXITSTATUS(st)) + (WEXITSTATUS(st) == 77 ? " (AddressSanitizer report, see stderr)" : "");
        }
        // make a numeric path readable
        if (v.path.size() > 1 && v.path[0] == '#')
            for (auto& x : sc) if (x.name == v.scen && x.make) {
                static std::vector<Region> regs; regions = &regs;
                my = &sh->slot[63];
                brk_ = ARENA;
                System* sys; { Scope in; sys = x.make(); }
                std::string r; const char* q = v.path.c_str() + 1; char* e;
                while (*q) { long o = strtol(q, &e, 10); if (e == q) break; q = e; r += (r.empty() ? "" : " ") + sys->opname(o); }
                v.path = r;
                break;
            }
        viols.push_back(v);
        ++sh->nviol;
        s.state = 0;
        spawn(j);
    }
    std::string js = "{";
    char b[1024];
    snprintf(b, sizeof b, "\"scenarios\":%zu,\"ok\":%u,\"violations\":%zu,\"skipped\":%u,\"capped\":%u,\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"complete_executions\":%llu,\"merged_states\":%llu,\"cases\":%llu,\"wall_s\":%.2f,",
             sc.size(), sh->done, viols.size(), sh->skipped, sh->capped, (unsigned long long) sh->states, (unsigned long long) (sh->transitions + sh->cases), (unsigned long long) (sh->executions + sh->cases),
             (unsigned long long) (sh->executions + sh->cases), (unsigned long long) sh->dedup, (unsigned long long) sh->cases, now_s() - t0);
    js += b;
    js += "\"viol\":[";
    for (size_t i = 0; i < viols.size() && i < 8; ++i)
        js += std::string(i ? "," : "") + "{\"scenario\":" + jstr(viols[i].scen) + ",\"kind\":" + std::to_string(viols[i].kind) + ",\"message\":" + jstr(viols[i].msg + (viols[i].path.empty() ? "" : " [" + viols[i].path + "]")) + ",\"schedule\":" + jstr(viols[i].path) + "}";
    js += "],\"samples\":[";
    bool first = true;
    for (u32 i = 0; i < 8 && i < sh->nsample; ++i) { js += std::string(first ? "" : ",") + "{\"case\":" + jstr(sh->sample[i]) + "}"; first = false; }
    for (size_t i = 0; i < sc.size(); i += sc.size() > 3 ? sc.size() / 3 : 1) { js += std::string(first ? "" : ",") + "{\"scenario\":" + jstr(sc[i].name) + ",\"depth\":" + std::to_string(sc[i].depth) + "}"; first = false; }
    js += "]}";
    if (out) { FILE* f = fopen(out, "w"); fprintf(f, "%s\n", js.c_str()); fclose(f); } else printf("%s\n", js.c_str());
    return viols.empty() ? 0 : 1;
}
}
extern "C" {
#ifndef SEQ_NO_WRAP
void* __wrap_malloc(size_t n) { return seq::in_ ? seq::alloc(n, 64) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!seq::in_) return __real_calloc(a, b); void* p = seq::alloc(a * b, 64); memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { if (!p) return; if (seq::in_arena(p)) seq::dealloc(p); else __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!seq::in_arena(p) && (p || !seq::in_)) return __real_realloc(p, n);
    void* q = seq::alloc(n, 64);
    if (p) { memcpy(q, p, std::min(n, seq::size_of(p))); seq::dealloc(p); }
    return q;
}
int __wrap_posix_memalign(void** r, size_t al, size_t n) { if (!seq::in_) return __real_posix_memalign(r, al, n); *r = seq::alloc(n, al); return 0; }
#endif
}
#ifndef SEQ_NO_WRAP
void* operator new(size_t n) { void* p = __wrap_malloc(n); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
#endif
#endif
