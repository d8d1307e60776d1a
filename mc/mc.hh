// Interface between a harness and the model-checking runtime (mcrt.cc).
//
// A harness translation unit and the masstree sources it needs are compiled with
// clang's -fsanitize=thread instrumentation, but linked with mcrt.cc in place of
// the ThreadSanitizer runtime.  Every load, store and atomic of the code under
// test therefore calls into the explorer.
#ifndef MC_HH
#define MC_HH
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace mc {

enum { MAXT = 4, MAXOPS = 16 };

// kinds of violation, as a bit mask
enum Kind {
    K_RESULT = 1,     // oracle rejected the outcome of a complete execution
    K_CRASH = 2,      // assertion failure, abort, signal
    K_LIVELOCK = 4,   // no thread can make progress / horizon
    K_MEMORY = 8,     // access to freed memory, write outside any block
    K_LEAK = 16,      // double free, leak (raised by harness)
    K_LOCK = 32       // lock left behind: single-thread operation spins after quiescence
};

struct OpRec {
    int thread;
    uint64_t inv, resp;     // global event counters; resp==0: not complete
    uint64_t result[8];
    int nresult;
    uint32_t before;        // mask of ops that completed before this one began
};

struct Harness {
    int nthreads = 2;
    int nops = 0;                        // number of op ids used
    virtual ~Harness() {}
    virtual void setup() = 0;            // runs unexplored, in the SUT context
    virtual void body(int t) = 0;        // one thread
    virtual const char* check() = 0;     // after all threads finished; nullptr if ok
};

struct Config {
    int bound = -1;                      // preemption bound; -1: none (all interleavings)
    uint64_t max_exec = 0;               // 0: no cap
    uint64_t horizon = 400000;           // accesses per execution
    int kinds = ~0;                      // violation kinds to report
};

struct Stats {
    uint64_t executions = 0, complete = 0, pruned = 0, states = 0, transitions = 0,
        terminal = 0, outcomes = 0, points = 0, accesses = 0, racy = 0, restarts = 0, ignored = 0;
    uint32_t maxdepth = 0;
    int capped = 0;
};

struct Violation {
    bool found = false;
    int kind = 0;
    std::string message;
    std::vector<uint8_t> schedule;
};

// harness side -----------------------------------------------------------
void op_begin(int id);
void op_end(int id, const uint64_t* result, int n);
void point();                            // an extra scheduling point
const OpRec& op(int id);
[[noreturn]] void fail(int kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
const char* msg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // static buffer
int self();                              // current thread, -1 outside
bool running();                          // in an explored execution
// memory accounting (mt_verif_* announcements)
size_t live_blocks();                    // announced allocations not yet freed
bool is_live(const void* p);
bool is_retired(const void* p);
bool is_freed(const void* p);
void note(uint64_t v);                   // mix a harness-observable value in the thread history
typedef void (*MemObserver)(int what, void* ptr, size_t sz, int tag);  // 0 alloc 1 retire 2 free
void set_observer(MemObserver f);
// raw (uninstrumented) scratch, undone between executions: use for harness globals
// (harness globals written from instrumented code are undone automatically)

// driver side --------------------------------------------------------------
void init();
bool explore(Harness& h, const Config& cfg, Stats& st, Violation& v);
bool replay(Harness& h, const Config& cfg, const std::vector<uint8_t>& sched, Violation& v, bool verbose);

struct Scenario {
    std::string name;
    std::function<Harness*()> make;
    Config cfg;
};
// Runs all scenarios over worker processes; prints stats JSON to --out; handles --replay.
int drive(int argc, char** argv, std::vector<Scenario>& scen);

}
#endif
