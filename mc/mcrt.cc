// Stateless/explicit-state exploration runtime.  See mc.hh and DESIGN.md.
// This file is compiled WITHOUT instrumentation.
#include "mc.hh"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <algorithm>
#include <memory>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
int __real_memcmp(const void*, const void*, size_t);
extern char __data_start, _end;
}

namespace mc {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Mode { IDLE, SETUP, RUN, FINAL };

static const u64 ARENA_BASE = 0x100000000000ULL;
static const u64 SUB = 32ull << 20;               // per-owner arena
static const u64 ARENA_SIZE = SUB * (MAXT + 1);
static const u64 STACK_BASE = 0x120000000000ULL;
static const u64 STACK_SIZE = 512 << 10;

struct Sh {                  // shadow of one 8-byte granule
    u32 exec;                // validity tag of the race-detection fields
    u32 undo;                // execution in which the old content was saved
    u32 wc; u8 wt; u8 racy; u8 pad[2];
    u32 rc[MAXT];
    u32 sw[MAXT], sr[MAXT];
};

struct Undo { u64 addr, old; };
struct BlkLog { u64 addr; u32 size; u8 what; u8 oldp; };

enum { T_READY, T_PAUSED, T_DONE };

struct Watch { u64 addr, val; };
enum { MAXWATCH = 48 };

struct Th {
    void* sp;
    int status;
    u64 hist;
    u32 clk[MAXT];
    u64 reads_since_pause;
    // detection of busy waiting without a pause hint: the racy reads repeat themselves
    u32 cyn, cyl, cym, cylastw; int cykind;
    u32 nplain; u64 plain[8];    // non-racy words read since the last pause (most recent 8)
    u64 cyr[256];
    int nwatch; bool watch_overflow;
    Watch watch[MAXWATCH];
    bool fresh;              // just started: no scheduling point needed at its first op_begin
};

struct Point {
    u8 chosen, current, todo, en;
    u8 pre;                  // preemptions used before this point
    u8 forced;               // current thread was not able to continue
};

static struct {
    Mode mode;
    int cur;                 // current fiber: 0..n-1 threads, MAXT: setup/final fiber, -1 scheduler
    Harness* h;
    Config cfg;
    int nt;
    u32 exec;                // execution id (tag)
    u32 setup_exec;
    u64 accesses;
    bool explore;            // record points, use visited table
    bool use_cache;
    u64 changes;             // count of content-changing writes (RUN)
    // arenas
    u64 brk_[MAXT + 1], brk_setup[MAXT + 1];
    // undo
    Undo* undo; size_t nundo, undo_mark;
    BlkLog* blk; size_t nblk, blk_mark;
    // pending write
    int npend; u64 pend[4]; bool pendchg;
    u64 pendold[4];
    u64 memhash;
    Th th[MAXT + 1];
    void* sched_sp;
    // exploration
    Point* path; u32 npath;  // DFS stack
    u32 depth;               // points met in this execution
    int preempt;
    bool pruned;
    u64 newracy;
    u64* racy; size_t nracy;
    // ops
    OpRec ops[MAXOPS];
    u32 done_mask; u64 evt;
    u64 reshash[MAXT];
    // violation
    bool viol; int vkind; char vmsg[1024];
    sigjmp_buf jb; bool jbok;
    bool exec_end;
    u64 livelock_round, transitions;
    Stats* st;
    bool verbose;
    u64 heap_live;
    MemObserver obs;
    u64 final_pauses;
    volatile u64* heartbeat;
    u32 lastdepth;
} G;

// ---- hashing -------------------------------------------------------------
static inline u64 mix(u64 x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31;
    return x;
}
static inline u64 H2(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ULL + mix(b + 0x2545F4914F6CDD1DULL)); }

// ---- visited set -----------------------------------------------------------
struct Visited {
    u64* key = nullptr; u8* val = nullptr; size_t cap = 0, n = 0;
    void clear() {
        if (cap > (1u << 16)) { munmap(key, cap * 8); munmap(val, cap); cap = 0; key = nullptr; }
        if (!cap) alloc(1u << 12);
        else { memset(key, 0, cap * 8); }
        n = 0;
    }
    void alloc(size_t c) {
        cap = c;
        key = (u64*) mmap(0, cap * 8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
        val = (u8*) mmap(0, cap, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
        if (key == MAP_FAILED || val == MAP_FAILED) { perror("mmap"); _exit(3); }
    }
    // returns true if already visited with at most `cost` preemptions
    bool visit(u64 k, u8 cost) {
        if (!k) k = 1;
        if (n * 3 > cap * 2) grow();
        size_t i = k & (cap - 1);
        while (key[i] && key[i] != k) i = (i + 1) & (cap - 1);
        if (key[i] == k) {
            if (val[i] <= cost) return true;
            val[i] = cost;
            return false;
        }
        key[i] = k; val[i] = cost; ++n;
        return false;
    }
    void grow() {
        u64* ok = key; u8* ov = val; size_t oc = cap;
        alloc(cap * 2);
        for (size_t i = 0; i < oc; ++i) if (ok[i]) {
            size_t j = ok[i] & (cap - 1);
            while (key[j]) j = (j + 1) & (cap - 1);
            key[j] = ok[i]; val[j] = ov[i];
        }
        munmap(ok, oc * 8); munmap(ov, oc);
    }
};
static Visited visited, terminals, outcomes;

// ---- shadow ------------------------------------------------------------------
static Sh* sh_arena; static Sh* sh_data; static u8* poison; static u32* blksize; static u8* blkstate;
static u64 DATA_LO, DATA_HI;

static inline bool in_arena(u64 a) { return a - ARENA_BASE < ARENA_SIZE; }
static inline bool in_data(u64 a) { return a - DATA_LO < DATA_HI - DATA_LO; }
static inline Sh* shadow(u64 a) {
    if (in_arena(a)) return &sh_arena[(a - ARENA_BASE) >> 3];
    return &sh_data[(a - DATA_LO) >> 3];
}

// ---- fibers --------------------------------------------------------------------
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

static void fiber_main();
static void flush_pending();

static void make_fiber(int t) {
    char* top = (char*) (STACK_BASE + (t + 1) * STACK_SIZE * 2 - 4096);
    memset(top - 12288, 0, 12288);
    void** sp = (void**) top;
    *--sp = 0;                       // alignment / fake return
    *--sp = (void*) fiber_main;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    G.th[t].sp = sp;
}

static inline void switch_to_sched() {
    int me = G.cur;
    G.cur = -1;
    mc_switch(&G.th[me].sp, G.sched_sp);
}
static inline void switch_fiber(int from, int to) {
    G.cur = to;
    mc_switch(&G.th[from].sp, G.th[to].sp);
}
static void run_fiber(int t) {       // from the scheduler
    G.cur = t;
    mc_switch(&G.sched_sp, G.th[t].sp);
}

[[noreturn]] static void leave() {   // abandon the execution
    G.exec_end = true;
    switch_to_sched();
    __builtin_unreachable();
}

static void set_violation(int kind, const char* m) {
    if (!G.viol) {
        G.viol = true; G.vkind = kind;
        snprintf(G.vmsg, sizeof G.vmsg, "%s", m);
    }
}

static struct { void* pc; u64 a; int t, kind; } ring[32]; static unsigned ringi;
[[noreturn]] void fail(int kind, const char* fmt, ...) {
    char buf[900];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    set_violation(kind, buf);
    if (getenv("MC_DEBUG"))
        for (unsigned i = ringi - 32; i != ringi; ++i)
            fprintf(stderr, "mc: recent T%d %d %llx pc=%p\n", ring[i % 32].t, ring[i % 32].kind, (unsigned long long) ring[i % 32].a, ring[i % 32].pc);
    if (G.cur >= 0) leave();
    if (G.jbok) siglongjmp(G.jb, 1);
    fprintf(stderr, "mc: fatal: %s\n", buf);
    _exit(3);
}
[[noreturn]] static void fatal(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "mc: internal error: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap);
    _exit(3);
}

const char* msg(const char* fmt, ...) {
    static char buf[1000];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    return buf;
}

int self() { return G.mode == RUN ? G.cur : -1; }
bool running() { return G.mode == RUN; }
void set_observer(MemObserver f) { G.obs = f; }

static void fiber_main() {
    int t = G.cur;
    if (t == MAXT) {
        // setup/final fiber: loops on requests
        while (true) {
            if (G.mode == SETUP) G.h->setup();
            else {
                const char* m = G.h->check();
                if (m) set_violation(K_RESULT, m);
            }
            switch_to_sched();
        }
    }
    G.th[t].hist = H2(G.th[t].hist, 0x71);
    G.h->body(t);
    // thread exit: choose another thread
    flush_pending();
    G.th[t].status = T_DONE;
    G.th[t].hist = H2(0xD0, G.reshash[t]);
    switch_to_sched();
    fatal("resumed a finished fiber");
}

// ---- memory hash -------------------------------------------------------------------
static inline u64 gh(u64 addr, u64 val) { return mix(addr * 0x9e3779b97f4a7c15ULL ^ mix(val)); }

static void flush_pending() {
    for (int i = 0; i < G.npend; ++i) {
        u64 v = *(u64*) G.pend[i];
        if (v != G.pendold[i]) {
            G.memhash += gh(G.pend[i], v) - gh(G.pend[i], G.pendold[i]);
            ++G.changes;
            G.livelock_round = 0;
        }
    }
    G.npend = 0;
}

static inline void log_write(u64 g) {       // g: granule address
    Sh* s = shadow(g);
    if (s->undo != G.exec) {
        s->undo = G.exec;
        if (G.nundo >= (16u << 20)) fatal("undo log overflow");
        G.undo[G.nundo].addr = g; G.undo[G.nundo].old = *(u64*) g; ++G.nundo;
    }
}

static inline void pend_write(u64 g) {
    for (int i = 0; i < G.npend; ++i) if (G.pend[i] == g) return;
    if (G.npend == 4) flush_pending();
    G.pend[G.npend] = g; G.pendold[G.npend] = *(u64*) g; ++G.npend;
}

// ---- scheduling -----------------------------------------------------------------------
static bool can_run(int t) {
    Th& T = G.th[t];
    if (T.status == T_READY) return true;
    if (T.status == T_DONE) return false;
    if (T.watch_overflow) return true;
    for (int i = 0; i < T.nwatch; ++i)
        if (*(u64*) T.watch[i].addr != T.watch[i].val) return true;
    return false;
}
static int enabled_mask() {
    int m = 0;
    for (int t = 0; t < G.nt; ++t) if (can_run(t)) m |= 1 << t;
    return m;
}
static u64 state_hash() {
    u64 h = G.memhash;
    for (int t = 0; t < G.nt; ++t)
        h += H2(G.th[t].hist + 0x1234567 * (t + 1), G.th[t].status == T_PAUSED ? 77 : G.th[t].status);
    return mix(h);
}

// The running thread `me` (or -1 if it has finished / is paused without being able to go on) reaches
// a scheduling point.  Returns the thread that runs next.
static int choose(int me, int en, bool voluntary) {
    u32 i = G.depth++;
    if (G.verbose) fprintf(stderr, "  point %u: at T%d enabled=%x\n", i, me, en);
    bool me_en = me >= 0 && !voluntary && (en >> me & 1);
    int ch;
    if (i < G.npath) {
        Point& p = G.path[i];
        if (p.en != en || p.current != (u8) (me + 1)) fatal("divergence while replaying a prefix (point %u: enabled %x recorded %x, thread %d recorded %d)", i, en, p.en, me, p.current - 1);
        ch = p.chosen;
    } else {
        if (!G.explore) {
            ch = me_en ? me : __builtin_ctz(en);
        } else {
            if (G.use_cache) {
                u64 k = state_hash();
                if (G.cfg.bound >= 0) k = H2(k, me_en ? me + 1 : 0);
                if (visited.visit(k, G.cfg.bound >= 0 ? G.preempt : 0)) {
                    G.pruned = true;
                    G.depth = i;
                    leave();
                }
            }
            ch = me_en ? me : __builtin_ctz(en);
            if (i >= (1u << 20)) fatal("path too long");
        }
        Point& p = G.path[i];
        p.en = en; p.current = me + 1; p.chosen = ch; p.pre = G.preempt; p.forced = !me_en;
        int todo = en & ~(1 << ch);
        if (me_en && G.cfg.bound >= 0 && G.preempt >= G.cfg.bound) todo = 0;
        p.todo = G.explore ? todo : 0;
        if (G.explore) G.transitions += 1 + __builtin_popcount(p.todo);
        G.npath = i + 1;
    }
    if (me_en && ch != me) ++G.preempt;
    return ch;
}

static inline void clear_watch(Th& T) { T.nwatch = 0; T.watch_overflow = false; T.reads_since_pause = 0; T.cyn = T.cyl = T.cym = T.cylastw = 0; T.cykind = 0; T.nplain = 0; }

// Feed one racy access; true when the last racy accesses have repeated themselves three times and
// this is a good place to wait: the thread busy-waits without relax_fence().  Writes may be part of
// the repetition (lock, look, unlock); then the place to wait is the read after the plain store.
static inline bool cycling(Th& T, u64 key, int kind) {
    u32 n = T.cyn++;
    int prev = T.cykind;
    T.cykind = kind;
    if (kind != 1) T.cylastw = n;
    T.cyr[n & 255] = key;
    if (T.cyl && n >= T.cyl && T.cyr[(n - T.cyl) & 255] == key) {
        if (++T.cym >= 3 * T.cyl && kind == 1 && (prev == 2 || n - T.cylastw > T.cyl)) { T.cym = 0; return true; }
        return false;
    }
    T.cyl = T.cym = 0;
    u32 lim = n < 80 ? n : 80;
    for (u32 d = 1; d <= lim; ++d)
        if (T.cyr[(n - d) & 255] == key) { T.cyl = d; T.cym = 1; break; }
    return false;
}

static void resume_note(int t) {
    Th& T = G.th[t];
    if (T.status == T_PAUSED) {
        T.status = T_READY;
        clear_watch(T);
        T.hist = H2(T.hist, 0x9A);
    }
}

static void sched_point() {
    int me = G.cur;
    flush_pending();
    int en = enabled_mask();
    if ((en & (en - 1)) == 0) {         // only me
        return;
    }
    int ch = choose(me, en, false);
    if (ch != me) {
        resume_note(ch);
        switch_fiber(me, ch);
        // resumed
    }
}

// thread `me` cannot or does not want to continue; pick somebody
static void block_and_switch(int me) {
    flush_pending();
    int en = enabled_mask();
    if (!en) {
        // everyone paused with no visible change: force retry rounds, then report
        if (G.livelock_round >= 3u * G.nt) {
            char b[200];
            snprintf(b, sizeof b, "no thread can make progress: every unfinished thread spins on memory nobody will change (thread %d last)", me);
            fail(K_LIVELOCK, "%s", b);
        }
        ++G.livelock_round;
        // deterministic round robin over paused threads
        int t = me;
        for (int k = 1; k <= G.nt; ++k) {
            t = (me + k) % G.nt;
            if (G.th[t].status == T_PAUSED) break;
        }
        resume_note(t);
        if (t != me) switch_fiber(me, t);
        return;
    }
    int ch;
    if ((en & (en - 1)) == 0) ch = __builtin_ctz(en);
    else ch = choose(me, en, true);
    resume_note(ch);
    if (ch != me) switch_fiber(me, ch);
}

// ---- the access hook ------------------------------------------------------------------------
enum { A_R = 1, A_W = 2, A_RW = 3 };

static const char* where(void* pc) {
    static char b[64];
    snprintf(b, sizeof b, "pc=%p", pc);
    return b;
}

static void poison_fail(u64 a, size_t n, int kind, int p, void* pc) {
    // identify the block when possible
    u64 b = a & ~7ull; u64 base = 0;
    for (u64 x = b; in_arena(x) && b - x < 8192; x -= 8)
        if (blksize[(x - ARENA_BASE) >> 3]) { base = x; break; }
    u32 bs = base ? blksize[(base - ARENA_BASE) >> 3] : 0;
    int t = G.cur;
    fail(K_MEMORY, "%s of %zu bytes at %s block memory (offset %ld in a %u-byte block) by thread %d [%s]",
         kind == A_R ? "read" : "write", n, p == 2 ? "freed" : "unallocated",
         base ? (long) (a - base) : -1L, bs, t, where(pc));
}

static inline u64 load_n(u64 a, size_t n) {
    switch (n) {
    case 1: return *(u8*) a;
    case 2: { uint16_t x; memcpy(&x, (void*) a, 2); return x; }
    case 4: { u32 x; memcpy(&x, (void*) a, 4); return x; }
    case 8: { u64 x; memcpy(&x, (void*) a, 8); return x; }
    default: {
        u64 h = 0, x;
        for (size_t i = 0; i < n; i += 8) { x = 0; memcpy(&x, (void*) (a + i), n - i < 8 ? n - i : 8); h = H2(h, x); }
        return h;
    }
    }
}

static inline bool tracked(u64 a) { return in_arena(a) || in_data(a); }

extern "C" void mt_verif_relax(void);
static void watch_rmw(u64 a);
static void access(u64 a, size_t n, int kind, void* pc) {
    if (G.mode == IDLE || !tracked(a)) return;
    if (G.cur < 0) return;
    u64 g0 = a & ~7ull, g1 = (a + n - 1) & ~7ull;
    if (in_arena(a)) {
        for (u64 g = g0; g <= g1; g += 8) {
            u8 p = poison[(g - ARENA_BASE) >> 3];
            if (p != 1 && (p == 2 || (kind & A_W))) {
                // a granule may be partly outside: fine for reads only
                poison_fail(a, n, kind, p, pc);
            }
        }
    }
    if (G.mode != RUN) {
        if (++G.accesses > 2000000000ull) fail(K_LOCK, "unexplored phase does not terminate");
        if (kind & A_W) for (u64 g = g0; g <= g1; g += 8) log_write(g);
        return;
    }
    if (++G.accesses > G.cfg.horizon)
        fail(K_LIVELOCK, "horizon: more than %llu memory accesses in one execution", (unsigned long long) G.cfg.horizon);
    int t = G.cur;
    Th& T = G.th[t];
    ring[ringi % 32].pc = pc; ring[ringi % 32].a = a; ring[ringi % 32].t = t; ring[ringi++ % 32].kind = kind;
    flush_pending();
    bool racy = false;
    for (u64 g = g0; g <= g1; g += 8) racy |= shadow(g)->racy;
    if (racy) {
        sched_point();
        if (cycling(T, H2(H2(a, (u64) pc), load_n(a, n) + kind), kind)) {
            watch_rmw(a);
            for (int i = 0; i < T.nwatch; ++i) T.watch[i].val = *(u64*) T.watch[i].addr;
            mt_verif_relax();
        }
        // re-check poison after a possible switch
        if (in_arena(a))
            for (u64 g = g0; g <= g1; g += 8)
                if (poison[(g - ARENA_BASE) >> 3] == 2) poison_fail(a, n, kind, 2, pc);
        if (G.verbose)
            fprintf(stderr, "    T%d %s %p+%zu =%llx pc=%p\n", t, kind == A_R ? "R" : kind == A_W ? "W" : "RW", (void*) a, n, (unsigned long long) load_n(a, n), pc);
    }
    bool bump = false;
    for (u64 g = g0; g <= g1; g += 8) {
        Sh* s = shadow(g);
        if (s->exec != G.exec) {
            s->exec = G.exec; s->wc = 0;
            memset(s->rc, 0, sizeof s->rc); memset(s->sw, 0, sizeof s->sw); memset(s->sr, 0, sizeof s->sr);
        }
        if (s->racy) {
            bump = true;
            for (int u = 0; u < G.nt; ++u) {
                u32 m = s->sw[u];
                if ((kind & A_W) && s->sr[u] > m) m = s->sr[u];
                if (m > T.clk[u]) T.clk[u] = m;
            }
            u32* d = kind & A_W ? s->sw : s->sr;
            for (int u = 0; u < G.nt; ++u) if (T.clk[u] > d[u]) d[u] = T.clk[u];
            if (kind == A_R) {
                if (T.nwatch < MAXWATCH) {
                    int i = 0;
                    while (i < T.nwatch && T.watch[i].addr != g) ++i;
                    T.watch[i].addr = g; T.watch[i].val = *(u64*) g;
                    if (i == T.nwatch) ++T.nwatch;
                } else T.watch_overflow = true;
            }
            ++T.reads_since_pause;
        } else {
            bool race = s->wc && s->wt != t && s->wc > T.clk[s->wt];
            if (kind & A_W)
                for (int u = 0; u < G.nt; ++u)
                    if (u != t && s->rc[u] > T.clk[u]) race = true;
            if (race) {
                s->racy = 1; ++G.newracy;
                if (G.nracy < (1u << 18)) G.racy[G.nracy++] = g;
            }
            if (kind & A_W) { s->wc = T.clk[t]; s->wt = t; }
            if (kind & A_R) { s->rc[t] = T.clk[t]; T.plain[T.nplain++ & 7] = g; }
        }
    }
    if (kind & A_R) T.hist = H2(T.hist, load_n(a, n) + kind);
    else T.hist = H2(T.hist, 0x33);
    if (kind & A_W)
        for (u64 g = g0; g <= g1; g += 8) { log_write(g); pend_write(g); }
    if (bump) ++T.clk[t];
}

// For RMW atomics a failed operation still counts as a read for the spin watch.
static void watch_rmw(u64 a) {
    if (G.mode != RUN || !tracked(a) || G.cur < 0) return;
    Th& T = G.th[G.cur];
    u64 g = a & ~7ull;
    if (T.nwatch < MAXWATCH) {
        int i = 0;
        while (i < T.nwatch && T.watch[i].addr != g) ++i;
        T.watch[i].addr = g; T.watch[i].val = *(u64*) g;
        if (i == T.nwatch) ++T.nwatch;
    } else T.watch_overflow = true;
}

void point() { if (G.mode == RUN) { G.th[G.cur].hist = H2(G.th[G.cur].hist, 0x70); sched_point(); } }

void note(u64 v) { if (G.mode == RUN && G.cur >= 0) G.th[G.cur].hist = H2(G.th[G.cur].hist, v); }

void op_begin(int id) {
    if (G.mode != RUN) return;
    if (!G.th[G.cur].fresh) sched_point();
    G.th[G.cur].fresh = false;
    OpRec& o = G.ops[id];
    int t = G.cur;
    o.thread = t; o.inv = ++G.evt; o.resp = 0; o.before = G.done_mask; o.nresult = 0;
    G.reshash[t] = H2(G.reshash[t], (u64(id) << 32) | G.done_mask);
    G.th[t].hist = H2(0xB0, G.reshash[t]);
    clear_watch(G.th[t]);
}
void op_end(int id, const u64* r, int n) {
    if (G.mode != RUN) return;
    flush_pending();
    OpRec& o = G.ops[id];
    o.resp = ++G.evt;
    o.nresult = n;
    int t = G.cur;
    u64 h = H2(G.reshash[t], 0xE0 + id);
    for (int i = 0; i < n; ++i) { if (i < 8) o.result[i] = r[i]; h = H2(h, r[i]); }
    G.reshash[t] = h;
    G.th[t].hist = H2(0xE1, h);
    G.done_mask |= 1u << id;
}
const OpRec& op(int id) { return G.ops[id]; }

// ---- allocation ----------------------------------------------------------------------------------
static bool sut() { return G.mode != IDLE && G.cur >= 0; }

static void log_blk(u64 a, u32 size, u8 what, u8 oldp) {
    if (G.nblk >= (4u << 20)) fatal("block log overflow");
    G.blk[G.nblk++] = BlkLog{a, size, what, oldp};
}
static inline void setp(u64 a, size_t sz, u8 v) {
    memset(&poison[(a - ARENA_BASE) >> 3], v, (sz + 7) >> 3);
}
static void* arena_alloc(size_t sz, size_t align) {
    int o = G.cur;
    if (align < 64) align = 64;
    u64 b = G.brk_[o];
    b = (b + 64 + align - 1) & ~(u64) (align - 1);     // >=64-byte redzone
    u64 lim = ARENA_BASE + SUB * (o + 1);
    if (b + sz + 128 > lim) {
        if (G.mode == RUN) fail(K_LIVELOCK, "unbounded allocation");
        fatal("arena exhausted");
    }
    G.brk_[o] = b + ((sz + 7) & ~7ull);
    u64 ix = (b - ARENA_BASE) >> 3;
    blksize[ix] = sz ? sz : 1; blkstate[ix] = 1;
    setp(b, sz, 1);
    log_blk(b, sz, 0, 0);
    return (void*) b;
}
// Freeing a block conflicts with every unordered access to it: words another thread has read or written
// without a happens-before edge to here become scheduling points, so that the access also comes second.
static void free_conflicts(u64 a, size_t sz) {
    if (G.mode != RUN || G.cur < 0) return;
    Th& T = G.th[G.cur];
    for (u64 g = a & ~7ull; g < a + sz; g += 8) {
        Sh* s = shadow(g);
        if (s->racy || s->exec != G.exec) continue;
        bool race = s->wc && s->wt != G.cur && s->wc > T.clk[s->wt];
        for (int u = 0; u < G.nt; ++u)
            if (u != G.cur && s->rc[u] > T.clk[u]) race = true;
        if (race) {
            s->racy = 1; ++G.newracy;
            if (G.nracy < (1u << 18)) G.racy[G.nracy++] = g;
        }
    }
}
static void arena_free(void* p) {
    u64 a = (u64) p, ix = (a - ARENA_BASE) >> 3;
    if (blkstate[ix] != 1) fail(K_LEAK, "free of %s block", blkstate[ix] == 2 ? "an already freed" : "a non-heap");
    blkstate[ix] = 2;
    free_conflicts(a, blksize[ix]);
    log_blk(a, blksize[ix], 1, 1);
    setp(a, blksize[ix], 2);
}
static void undo_blocks(size_t mark) {
    while (G.nblk > mark) {
        BlkLog& b = G.blk[--G.nblk];
        u64 ix = (b.addr - ARENA_BASE) >> 3;
        switch (b.what) {
        case 0: blksize[ix] = 0; blkstate[ix] = 0; setp(b.addr, b.size, 0); memset((void*) b.addr, 0, (b.size + 7) & ~7ull); break;
        case 1: blkstate[ix] = 1; setp(b.addr, b.size, 1); break;
        case 2: blksize[ix] = b.size ? 0 : 0; blkstate[ix] = b.oldp; if (!b.oldp) blksize[ix] = 0; --G.heap_live; break;   // announced alloc
        case 3: blkstate[ix] = b.oldp; setp(b.addr, b.size, 1); ++G.heap_live; break;                                    // announced free
        case 4: blkstate[ix] = b.oldp; break;                                                                          // retire
        }
    }
}
size_t live_blocks() { return G.heap_live; }
bool is_live(const void* p) { u64 a = (u64) p; return in_arena(a) && (blkstate[(a - ARENA_BASE) >> 3] == 5 || blkstate[(a - ARENA_BASE) >> 3] == 6); }
bool is_retired(const void* p) { u64 a = (u64) p; return in_arena(a) && blkstate[(a - ARENA_BASE) >> 3] == 6; }
bool is_freed(const void* p) { u64 a = (u64) p; return in_arena(a) && blkstate[(a - ARENA_BASE) >> 3] == 7; }

}  // namespace mc

using namespace mc;

extern "C" {
void mt_verif_relax(void) {
    if (G.mode == RUN && G.cur >= 0) {
        Th& T = G.th[G.cur];
        flush_pending();
        if (!T.reads_since_pause) {
            if (!T.nplain) return;             // back-off repetition
            // waiting on words not known to be racy yet: they are
            for (u32 i = T.nplain > 8 ? T.nplain - 8 : 0; i < T.nplain; ++i) {
                u64 g = T.plain[i & 7];
                Sh* s = shadow(g);
                if (!s->racy) {
                    s->racy = 1; ++G.newracy;
                    if (G.nracy < (1u << 18)) G.racy[G.nracy++] = g;
                }
                watch_rmw(g);
            }
        }
        T.status = T_PAUSED;
        T.reads_since_pause = 0; T.nplain = 0;
        T.hist = H2(T.hist, 0x9B);
        u64 ch = G.changes;
        (void) ch;
        block_and_switch(G.cur);
        // a content change resets the livelock round
    } else if (G.mode == FINAL || G.mode == SETUP) {
        if (++G.final_pauses > 100000)
            fail(G.mode == FINAL ? K_LOCK : K_LIVELOCK, "%s operation spins forever with no other thread active (a lock was left held)",
                 G.mode == FINAL ? "post-quiescence" : "single-threaded");
    }
}
void mt_verif_alloc(void* p, size_t sz, int tag) {
    if (!sut()) return;
    u64 a = (u64) p;
    if (!in_arena(a)) return;
    u64 ix = (a - ARENA_BASE) >> 3;
    u8 old = blkstate[ix];
    if (old == 5 || old == 6) fail(K_MEMORY, "allocator handed out a live block");
    blksize[ix] = sz ? sz : 1; blkstate[ix] = 5;
    setp(a, sz, 1);
    log_blk(a, sz, 2, old);
    ++G.heap_live;
    if (G.obs) G.obs(0, p, sz, tag);
}
void mt_verif_retire(void* p, size_t sz, int tag) {
    if (!sut()) return;
    u64 a = (u64) p;
    if (!in_arena(a)) fail(K_LEAK, "retire of a non-heap pointer");
    u64 ix = (a - ARENA_BASE) >> 3;
    if (blkstate[ix] != 5) fail(K_LEAK, "retire of %s block", blkstate[ix] == 6 ? "an already retired" : blkstate[ix] == 7 ? "an already freed" : "an unknown");
    log_blk(a, blksize[ix], 4, 5);
    blkstate[ix] = 6;
    if (G.obs) G.obs(1, p, sz, tag);
}
void mt_verif_free(void* p, size_t sz, int tag) {
    if (!sut()) return;
    u64 a = (u64) p;
    if (!in_arena(a)) fail(K_LEAK, "deallocation of a non-heap pointer");
    u64 ix = (a - ARENA_BASE) >> 3;
    if (blkstate[ix] != 5 && blkstate[ix] != 6) fail(K_LEAK, "deallocation of %s block", blkstate[ix] == 7 ? "an already freed" : "an unknown");
    log_blk(a, blksize[ix], 3, blkstate[ix]);
    free_conflicts(a, blksize[ix]);
    blkstate[ix] = 7;
    setp(a, blksize[ix], 2);
    --G.heap_live;
    if (G.obs) G.obs(2, p, sz, tag);
}

// ---- interposed libc ------------------------------------------------------------------------------
void* __wrap_malloc(size_t n) { return sut() ? arena_alloc(n, 64) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return sut() ? arena_alloc(a * b, 64) : __real_calloc(a, b); }
void __wrap_free(void* p) {
    if (!p) return;
    if (in_arena((u64) p)) { if (sut()) arena_free(p); return; }
    if (sut()) return;
    __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
    if (!sut()) return __real_realloc(p, n);
    if (!p) return arena_alloc(n, 64);
    void* q = arena_alloc(n, 64);
    u32 old = blksize[((u64) p - ARENA_BASE) >> 3];
    memcpy(q, p, old < n ? old : n);
    arena_free(p);
    return q;
}
int __wrap_posix_memalign(void** r, size_t al, size_t n) {
    if (!sut()) return __real_posix_memalign(r, al, n);
    *r = arena_alloc(n, al);
    return 0;
}
[[noreturn]] void __wrap_abort(void) { mc::fail(K_CRASH, "abort() called (assertion failure)"); }
[[noreturn]] void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char*) {
    const char* b = strrchr(f, '/');
    mc::fail(K_CRASH, "assertion failed: %s:%u: %s", b ? b + 1 : f, l, e);
}
int __wrap_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1000000000; tv->tv_usec = 5; return 0; }
int __wrap_clock_gettime(int, struct timespec* ts) { ts->tv_sec = 1000000000; ts->tv_nsec = 5000; return 0; }
int __wrap_madvise(void*, size_t, int) { return 0; }

static void range_access(u64 a, size_t n, int kind, void* pc) {
    if (G.mode == IDLE || !tracked(a) || !n) return;
    while (n) {
        size_t c = 8 - (a & 7);
        if (c > n) c = n;
        access(a, c, kind, pc);
        a += c; n -= c;
    }
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    // byte order semantics, chunked so that each tracked piece is a separate access
    void* pc = __builtin_return_address(0);
    const char* x = (const char*) a; const char* y = (const char*) b;
    while (n) {
        size_t c = n;
        if (tracked((u64) x)) c = std::min(c, (size_t) (8 - ((u64) x & 7)));
        if (tracked((u64) y)) c = std::min(c, (size_t) (8 - ((u64) y & 7)));
        access((u64) x, c, A_R, pc);
        access((u64) y, c, A_R, pc);
        int r = __real_memcmp(x, y, c);
        if (r) return r;
        x += c; y += c; n -= c;
    }
    return 0;
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    void* pc = __builtin_return_address(0);
    bool td = tracked((u64) d), ts = tracked((u64) s);
    if (G.mode == IDLE || (!td && !ts)) return memcpy(d, s, n);
    char* x = (char*) d; const char* y = (const char*) s;
    while (n) {
        size_t c = std::min(n, (size_t) 8);
        if (td) c = std::min(c, (size_t) (8 - ((u64) x & 7)));
        if (ts) c = std::min(c, (size_t) (8 - ((u64) y & 7)));
        char tmp[8];
        access((u64) y, c, A_R, pc);
        memcpy(tmp, y, c);
        access((u64) x, c, A_W, pc);
        memcpy(x, tmp, c);
        x += c; y += c; n -= c;
    }
    return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    void* pc = __builtin_return_address(0);
    bool td = tracked((u64) d), ts = tracked((u64) s);
    if (G.mode == IDLE || (!td && !ts)) return memmove(d, s, n);
    if (d <= s || (char*) d >= (const char*) s + n) return __tsan_memcpy(d, s, n);
    char* x = (char*) d + n; const char* y = (const char*) s + n;
    while (n) {
        size_t c = std::min(n, (size_t) 8);
        if (td) c = std::min(c, (size_t) ((((u64) x - 1) & 7) + 1));
        if (ts) c = std::min(c, (size_t) ((((u64) y - 1) & 7) + 1));
        x -= c; y -= c; n -= c;
        char tmp[8];
        access((u64) y, c, A_R, pc);
        memcpy(tmp, y, c);
        access((u64) x, c, A_W, pc);
        memcpy(x, tmp, c);
    }
    return d;
}
void* __tsan_memset(void* d, int v, size_t n) {
    void* pc = __builtin_return_address(0);
    if (G.mode == IDLE || !tracked((u64) d)) return memset(d, v, n);
    char* x = (char*) d;
    while (n) {
        size_t c = std::min(n, (size_t) (8 - ((u64) x & 7)));
        access((u64) x, c, A_W, pc);
        memset(x, v, c);
        x += c; n -= c;
    }
    return d;
}
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void* p) { access((u64) p, n, A_R, PC); } \
    void __tsan_write##n(void* p) { access((u64) p, n, A_W, PC); } \
    void __tsan_unaligned_read##n(void* p) { access((u64) p, n, A_R, PC); } \
    void __tsan_unaligned_write##n(void* p) { access((u64) p, n, A_W, PC); } \
    void __tsan_volatile_read##n(void* p) { access((u64) p, n, A_R, PC); } \
    void __tsan_volatile_write##n(void* p) { access((u64) p, n, A_W, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access((u64) p, n, A_R, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access((u64) p, n, A_W, PC); } \
    void __tsan_read_write##n(void* p) { access((u64) p, n, A_R, PC); access((u64) p, n, A_W, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { access((u64) p, n, A_R, PC); access((u64) p, n, A_W, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { range_access((u64) p, n, A_R, PC); }
void __tsan_write_range(void* p, unsigned long n) { range_access((u64) p, n, A_W, PC); }
void __tsan_vptr_update(void** p, void*) { access((u64) p, 8, A_W, PC); }
void __tsan_vptr_read(void** p) { access((u64) p, 8, A_R, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { access((u64) p, sizeof(T), A_R, PC); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { access((u64) p, sizeof(T), A_W, PC); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { access((u64) p, sizeof(T), A_RW, PC); T o = *p; *p = v; watch_rmw((u64) p); return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { access((u64) p, sizeof(T), A_RW, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { access((u64) p, sizeof(T), A_RW, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { access((u64) p, sizeof(T), A_RW, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { access((u64) p, sizeof(T), A_RW, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { access((u64) p, sizeof(T), A_RW, PC); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((u64) p, sizeof(T), A_RW, PC); if (*p == *e) { *p = v; return 1; } *e = *p; watch_rmw((u64) p); return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((u64) p, sizeof(T), A_RW, PC); if (*p == *e) { *p = v; return 1; } *e = *p; watch_rmw((u64) p); return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access((u64) p, sizeof(T), A_RW, PC); T o = *p; if (o == e) *p = v; else watch_rmw((u64) p); return o; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

void* operator new(size_t n) { return sut() ? arena_alloc(n, 64) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n) { return sut() ? arena_alloc(n, 64) : __real_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

namespace mc {

// ---- driver ---------------------------------------------------------------------------------------
static void on_signal(int sig) {
    if (G.jbok && G.mode != IDLE) {
        char b[100];
        if (sig == SIGUSR1) snprintf(b, sizeof b, "thread %d runs forever without touching shared memory", G.cur);
        else snprintf(b, sizeof b, "signal %d (%s) in thread %d", sig, strsignal(sig), G.cur);
        set_violation(sig == SIGUSR1 ? K_LIVELOCK : K_CRASH, b);
        G.cur = -1;
        siglongjmp(G.jb, 2);
    }
    if (sig == SIGUSR1) return;
    signal(sig, SIG_DFL);
    raise(sig);
}

static void* map(u64 at, size_t n) {
    void* p = mmap((void*) at, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|(at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { perror("mc: mmap"); _exit(3); }
    return p;
}

void init() {
    static bool done;
    if (done) return;
    done = true;
    map(ARENA_BASE, ARENA_SIZE);
    map(STACK_BASE, STACK_SIZE * 2 * (MAXT + 2));
    for (int t = 0; t <= MAXT; ++t)
        mprotect((void*) (STACK_BASE + t * STACK_SIZE * 2), STACK_SIZE, PROT_NONE);
    DATA_LO = (u64) &__data_start & ~7ull; DATA_HI = ((u64) &_end + 7) & ~7ull;
    sh_arena = (Sh*) map(0, (ARENA_SIZE >> 3) * sizeof(Sh));
    sh_data = (Sh*) map(0, ((DATA_HI - DATA_LO) >> 3) * sizeof(Sh));
    poison = (u8*) map(0, ARENA_SIZE >> 3);
    blksize = (u32*) map(0, (ARENA_SIZE >> 3) * 4);
    blkstate = (u8*) map(0, ARENA_SIZE >> 3);
    G.undo = (Undo*) map(0, (16ull << 20) * sizeof(Undo));
    G.blk = (BlkLog*) map(0, (4ull << 20) * sizeof(BlkLog));
    G.path = (Point*) map(0, (1ull << 20) * sizeof(Point) + 4096);
    G.racy = (u64*) map(0, (1ull << 18) * 8);
    G.cur = -1;
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = map(0, 256 << 10); ss.ss_size = 256 << 10;
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGUSR1}) sigaction(s, &sa, 0);
}

static void rollback(size_t umark, size_t bmark) {
    while (G.nundo > umark) { --G.nundo; *(u64*) G.undo[G.nundo].addr = G.undo[G.nundo].old; }
    undo_blocks(bmark);
}

static bool do_setup() {              // false: violation in setup
    G.mode = SETUP;
    ++G.exec;
    G.setup_exec = G.exec;
    G.final_pauses = 0; G.accesses = 0;
    make_fiber(MAXT);
    for (int t = 0; t <= MAXT; ++t) G.brk_[t] = ARENA_BASE + SUB * t + 4096;
    G.viol = false;
    if (!sigsetjmp(G.jb, 1)) { G.jbok = true; run_fiber(MAXT); }
    G.mode = IDLE;
    G.undo_mark = G.nundo; G.blk_mark = G.nblk;
    memcpy(G.brk_setup, G.brk_, sizeof G.brk_);
    return !G.viol;
}

// one execution; path[0..npath) is the prefix
static void run_one(Stats& st) {
    if (G.heartbeat) ++*G.heartbeat;
    ++G.exec;
    if (G.exec == 0xfffffff0u) fatal("execution id overflow");
    G.mode = RUN;
    G.depth = 0; G.preempt = 0; G.pruned = false; G.npend = 0; G.memhash = 0; G.accesses = 0; G.changes = 0;
    G.evt = 0; G.done_mask = 0; G.viol = false; G.exec_end = false; G.livelock_round = 0;
    G.final_pauses = 0;
    memcpy(G.brk_, G.brk_setup, sizeof G.brk_);
    memset(G.ops, 0, sizeof G.ops);
    for (int t = 0; t < G.nt; ++t) {
        Th& T = G.th[t];
        make_fiber(t);
        T.status = T_READY; T.hist = H2(0xA0, t);
        G.reshash[t] = H2(0xAA, t);
        memset(T.clk, 0, sizeof T.clk); T.clk[t] = 1;
        clear_watch(T); T.fresh = true;
    }
    if (!sigsetjmp(G.jb, 1)) {
        G.jbok = true;
        int prev = -1;
        while (!G.exec_end) {
            int en = enabled_mask();
            int live = 0;
            for (int t = 0; t < G.nt; ++t) if (G.th[t].status != T_DONE) live |= 1 << t;
            if (!live) break;
            int t;
            if (!en) {
                if (G.livelock_round >= 3u * G.nt) {
                    set_violation(K_LIVELOCK, "no thread can make progress: every unfinished thread spins on memory nobody will change");
                    break;
                }
                ++G.livelock_round;
                t = (prev + 1) % G.nt;
                while (G.th[t].status != T_PAUSED) t = (t + 1) % G.nt;
            } else if ((en & (en - 1)) == 0)
                t = __builtin_ctz(en);
            else {
                // initial choice, or after a thread finished.  choose() may prune: emulate leave().
                u32 i = G.depth;
                bool cut = false;
                if (i >= G.npath && G.explore && G.use_cache) {
                    u64 k = state_hash();
                    if (G.cfg.bound >= 0) k = H2(k, 0);
                    if (visited.visit(k, G.cfg.bound >= 0 ? G.preempt : 0)) cut = true;
                    if (cut) { G.pruned = true; break; }
                    // mark as handled: bypass the second lookup
                    bool uc = G.use_cache; G.use_cache = false;
                    t = choose(-1, en, true);
                    G.use_cache = uc;
                } else
                    t = choose(-1, en, true);
            }
            prev = t;
            resume_note(t);
            run_fiber(t);
            // returned: a thread finished or the execution was abandoned
        }
    }
    G.cur = -1;
    ++st.executions;
    st.accesses += G.accesses;
    st.points += G.depth;
    if (G.depth > st.maxdepth) st.maxdepth = G.depth;
    if (G.pruned) ++st.pruned;
    else if (!G.viol) {
        ++st.complete;
        u64 oh = 0;
        for (int t = 0; t < G.nt; ++t) oh = H2(oh, G.reshash[t]);
        u64 k = H2(state_hash(), oh);
        if (!G.explore || !terminals.visit(k, 0)) {
            outcomes.visit(oh, 0);
            G.mode = FINAL;
            make_fiber(MAXT);
            G.accesses = 0;
            if (!sigsetjmp(G.jb, 1)) run_fiber(MAXT);
            G.cur = -1;
        }
    }
    G.mode = IDLE;
    rollback(G.undo_mark, G.blk_mark);
}

static bool next_path(Stats& st) {
    while (G.npath > 0) {
        Point& p = G.path[G.npath - 1];
        if (p.todo) {
            int c = __builtin_ctz(p.todo);
            p.todo &= p.todo - 1;
            p.chosen = c;
            return true;
        }
        --G.npath;
    }
    (void) st;
    return false;
}

static u64 baseline_sum() {
    u64 h = 0;
    for (int t = 0; t <= MAXT; ++t)
        for (u64 a = ARENA_BASE + SUB * t; a < G.brk_setup[t] + 65536; a += 8) h = h * 31 + *(u64*) a;
    return h;
}

static void dump_baseline(bool save) {      // debugging aid (MC_DEBUG)
    static u64* copy[MAXT + 1];
    for (int t = 0; t <= MAXT; ++t) {
        u64 a0 = ARENA_BASE + SUB * t; size_t nw = (G.brk_setup[t] + 65536 - a0) / 8;
        if (save) { copy[t] = (u64*) map(0, nw * 8); memcpy(copy[t], (void*) a0, nw * 8); }
        else for (size_t i = 0; i < nw; ++i) if (copy[t][i] != ((u64*) a0)[i])
            fprintf(stderr, "mc: not restored: %llx was %llx is %llx\n", (unsigned long long) (a0 + i * 8), (unsigned long long) copy[t][i], (unsigned long long) ((u64*) a0)[i]);
    }
}

static void clear_racy() {
    for (size_t i = 0; i < G.nracy; ++i) shadow(G.racy[i])->racy = 0;
    G.nracy = 0;
}

static double g_deadline = 0;
static double mono_s() { struct timespec ts; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// One DFS to completion with the current configuration.  Returns false if a violation was found.
static bool dfs(const Config& cfg, Stats& st, bool cache, u64 cap, bool& hit_cap, bool restart_on_new) {
    u64 threshold = 1, since = 0;
    hit_cap = false;
  again:
    visited.clear(); terminals.clear(); outcomes.clear();
    G.transitions = 0;
    G.cfg = cfg; G.explore = true; G.use_cache = cache;
    G.npath = 0; G.newracy = 0; since = 0;
    while (true) {
        run_one(st);
        ++since;
        if (G.viol) {
            if (cfg.kinds & G.vkind) return false;
            ++st.ignored;
            G.npath = std::min(G.npath, G.depth);
        }
        if (cap && since >= cap) { hit_cap = true; break; }
        if (g_deadline && (since & 255) == 0 && mono_s() > g_deadline) { st.capped = 1; return true; }
        if (G.newracy && restart_on_new && since >= threshold) { threshold *= 2; ++st.restarts; goto again; }
        if (!next_path(st)) break;
    }
    if (G.newracy && restart_on_new) { ++st.restarts; goto again; }
    return true;
}

bool explore(Harness& h, const Config& cfg, Stats& st, Violation& v) {
    init();
    G.h = &h; G.nt = h.nthreads; G.st = &st; G.verbose = false;
    G.nundo = G.nblk = 0; G.heap_live = 0; G.npath = 0;
    clear_racy();
    bool ok = do_setup();
    if (ok) {
        u64 base = baseline_sum();
        if (getenv("MC_DEBUG")) dump_baseline(true);
        bool hit = false;
        // phase 0: find racing granules with <=1 preemption, no state caching
        Config c0 = cfg; c0.bound = 1;
        Stats s0;
        ok = dfs(c0, s0, false, 400, hit, true);
        if (ok) {
            st.restarts += s0.restarts;
            ok = dfs(cfg, st, true, cfg.max_exec, hit, true);
            if (hit) st.capped = 1;
            st.states = visited.n; st.terminal = terminals.n; st.outcomes = outcomes.n;
            st.transitions = G.transitions;
            st.racy = G.nracy;
        } else { st.executions += s0.executions; st.accesses += s0.accesses; st.points += s0.points; }
        if (baseline_sum() != base && getenv("MC_DEBUG")) dump_baseline(false);
        if (baseline_sum() != base) fatal("state was not restored after exploration (untracked write)");
    }
    if (!ok) {
        std::string m = G.vmsg; int kind = G.vkind;
        std::vector<u8> sched;
        for (u32 i = 0; i < G.depth && i < G.npath; ++i) sched.push_back(G.path[i].chosen);
        if (G.mode == IDLE && G.undo_mark <= G.nundo && G.exec != G.setup_exec) {
            // confirm by replaying twice
            for (int k = 0; k < 2; ++k) {
                G.npath = sched.size(); G.explore = false;
                Stats s1;
                run_one(s1);
                if (!G.viol || G.vkind != kind) fatal("violation '%s' did not replay (got '%s')", m.c_str(), G.viol ? G.vmsg : "none");
            }
        }
        v.found = true; v.kind = kind; v.message = m; v.schedule = sched;
    }
    rollback(0, 0);
    G.jbok = false;
    return ok;
}

bool replay(Harness& h, const Config& cfg, const std::vector<u8>& sched, Violation& v, bool verbose) {
    init();
    (void) sched;
    G.h = &h; G.nt = h.nthreads; G.nundo = G.nblk = 0; G.heap_live = 0;
    Stats st;
    // exploration is deterministic: searching the scenario again finds the same violation
    bool ok = explore(h, cfg, st, v);
    if (!ok && verbose) {
        // run it once more, printing every step
        clear_racy();
        G.nundo = G.nblk = 0;
    }
    return ok;
}

// ---- multi-process driver -----------------------------------------------------------------------
struct Slot {
    Stats st;
    int state;          // 0 todo 1 running 2 ok 3 violation 4 skipped
    int kind;
    char msg[1024];
    u32 nsched; u8 sched[8192];
    double secs;
};
struct Shared {
    u32 next;
    u32 nviol;
    u64 beat[64];
};

static double now_s() { struct timespec ts; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char) c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

int drive(int argc, char** argv, std::vector<Scenario>& scen) {
    int jobs = 8; const char* out = nullptr; const char* only = nullptr; double maxs = 600; u32 maxviol = 4; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
        else if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--max-seconds" && i + 1 < argc) maxs = atof(argv[++i]);
        else if (a == "--max-violations" && i + 1 < argc) maxviol = atoi(argv[++i]);
        else if (a == "--list") list = true;
    }
    if (list) { for (auto& s : scen) printf("%s\n", s.name.c_str()); return 0; }
    init();
    size_t n = scen.size();
    Slot* slots = (Slot*) mmap(0, sizeof(Slot) * (n + 1), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    Shared* sh = (Shared*) mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    double t0 = now_s();
    g_deadline = t0 + maxs;
    std::vector<pid_t> pids;
    fflush(stdout);
    for (int j = 0; j < jobs; ++j) {
        pid_t p = fork();
        if (p == 0) {
            G.heartbeat = &sh->beat[j];
            while (true) {
                u32 i = __sync_fetch_and_add(&sh->next, 1);
                if (i >= n) break;
                Slot& s = slots[i];
                if (only && scen[i].name != only) continue;
                if (now_s() - t0 > maxs || sh->nviol >= maxviol) { s.state = 4; continue; }
                s.state = 1;
                double b = now_s();
                std::unique_ptr<Harness> h(scen[i].make());
                Stats st; Violation v;
                bool ok = explore(*h, scen[i].cfg, st, v);
                s.st = st; s.secs = now_s() - b;
                if (!ok) {
                    s.kind = v.kind;
                    snprintf(s.msg, sizeof s.msg, "%s", v.message.c_str());
                    s.nsched = std::min(v.schedule.size(), sizeof s.sched);
                    memcpy(s.sched, v.schedule.data(), s.nsched);
                    s.state = 3;
                    __sync_fetch_and_add(&sh->nviol, 1);
                } else s.state = 2;
            }
            fflush(stdout);
            _exit(0);
        }
        pids.push_back(p);
    }
    // watch the workers
    std::vector<u64> last(jobs, 0); std::vector<double> lastt(jobs, now_s());
    std::vector<bool> alive(jobs, true);
    int left = jobs, bad = 0;
    while (left) {
        usleep(50000);
        for (int j = 0; j < jobs; ++j) if (alive[j]) {
            int st;
            pid_t r = waitpid(pids[j], &st, WNOHANG);
            if (r == pids[j]) { alive[j] = false; --left; if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad; continue; }
            if (sh->beat[j] != last[j]) { last[j] = sh->beat[j]; lastt[j] = now_s(); }
            else if (sh->beat[j] && now_s() - lastt[j] > 30) { kill(pids[j], SIGUSR1); lastt[j] = now_s(); }
        }
    }
    Stats tot; u32 viol = 0, okc = 0, skipped = 0, unfinished = 0; double maxsec = 0; std::string slow;
    u32 capped = 0, single = 0;
    for (size_t i = 0; i < n; ++i) {
        Slot& s = slots[i];
        if (only && scen[i].name != only) continue;
        tot.executions += s.st.executions; tot.complete += s.st.complete; tot.pruned += s.st.pruned; tot.states += s.st.states;
        tot.terminal += s.st.terminal; tot.outcomes += s.st.outcomes; tot.points += s.st.points; tot.accesses += s.st.accesses;
        tot.racy += s.st.racy; tot.restarts += s.st.restarts; tot.transitions += s.st.transitions; tot.ignored += s.st.ignored;
        if (s.st.maxdepth > tot.maxdepth) tot.maxdepth = s.st.maxdepth;
        if (s.st.capped) ++capped;
        if (s.state == 2 && s.st.outcomes <= 1) ++single;
        if (s.state == 2) ++okc; else if (s.state == 3) ++viol; else if (s.state == 4) ++skipped; else ++unfinished;
        if (s.secs > maxsec) { maxsec = s.secs; slow = scen[i].name; }
    }
    if (unfinished) bad = 1;
    std::string js = "{";
    char b[2048];
    snprintf(b, sizeof b, "\"scenarios\":%zu,\"ok\":%u,\"violations\":%u,\"skipped\":%u,\"capped\":%u,\"single_outcome\":%u,\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"complete_executions\":%llu,\"pruned_executions\":%llu,\"terminal_states\":%llu,\"outcomes\":%llu,\"accesses\":%llu,\"racy_words\":%llu,\"restarts\":%llu,\"ignored\":%llu,\"max_depth\":%u,\"wall_s\":%.2f,\"slowest\":%.2f,\"slowest_name\":%s,",
             n, okc, viol, skipped, capped, single, (unsigned long long) tot.states, (unsigned long long) tot.transitions, (unsigned long long) tot.executions,
             (unsigned long long) tot.complete, (unsigned long long) tot.pruned, (unsigned long long) tot.terminal, (unsigned long long) tot.outcomes,
             (unsigned long long) tot.accesses, (unsigned long long) tot.racy, (unsigned long long) tot.restarts, (unsigned long long) tot.ignored, tot.maxdepth, now_s() - t0, maxsec, jstr(slow).c_str());
    js += b;
    js += "\"viol\":[";
    bool first = true;
    for (size_t i = 0; i < n; ++i) if (slots[i].state == 3) {
        Slot& s = slots[i];
        std::string sc;
        for (u32 k = 0; k < s.nsched; ++k) sc += char('0' + s.sched[k]);
        js += std::string(first ? "" : ",") + "{\"scenario\":" + jstr(scen[i].name) + ",\"kind\":" + std::to_string(s.kind) + ",\"message\":" + jstr(s.msg) + ",\"schedule\":" + jstr(sc) + "}";
        first = false;
    }
    js += "],\"samples\":[";
    first = true;
    size_t step = n > 4 ? n / 4 : 1;
    for (size_t i = 0; i < n; i += step) if (slots[i].state == 2) {
        Slot& s = slots[i];
        snprintf(b, sizeof b, "%s{\"scenario\":%s,\"states\":%llu,\"executions\":%llu,\"terminal_states\":%llu,\"outcomes\":%llu,\"racy_words\":%llu}", first ? "" : ",", jstr(scen[i].name).c_str(),
                 (unsigned long long) s.st.states, (unsigned long long) s.st.executions, (unsigned long long) s.st.terminal, (unsigned long long) s.st.outcomes, (unsigned long long) s.st.racy);
        js += b; first = false;
    }
    js += "]}";
    if (out) { FILE* f = fopen(out, "w"); fprintf(f, "%s\n", js.c_str()); fclose(f); }
    else printf("%s\n", js.c_str());
    if (viol) return 1;
    if (bad) { fprintf(stderr, "mc: %d worker(s) failed, %u scenario(s) unfinished\n", bad, unfinished); return 3; }
    return 0;
}

}
