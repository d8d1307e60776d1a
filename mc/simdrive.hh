// Explores a graph of jobs over worker processes.  A job runs in a fork of a pristine process; inside it,
// choose(n) forks once per alternative, so every alternative is explored; emit() hands new jobs (states
// reached, e.g. disks after a crash) back to the worker.  Jobs are deduplicated by a shared table.
#ifndef SIMDRIVE_HH
#define SIMDRIVE_HH
#include "sim.hh"
#include <sys/prctl.h>
#include <poll.h>
namespace drv {
using sim::u64; using sim::u32; using sim::u8; using sim::fmt;
struct Scen { std::string name; std::string blob; };
static const u64 TABLE = 1ull << 25;
struct Viol { char scen[200]; char msg[6000]; };
struct Shared {
    volatile u32 next, nviol, nok, nskip, ncapped, nsample;
    volatile u64 jobs, states, transitions, executions, checks, dedup, outcomes;
    volatile u32 stop;
    Viol viol[16]; char sample[6][1500]; char samplename[6][200];
};
static Shared* sh; static volatile u64* table;
static int out_fd = -1; static double deadline;
static std::function<void(const std::string&)> run_job;
static std::string trace;               // what happened so far, for reports
static int max_viol = 3;

static double now_s() { timespec ts; asm volatile("" ::: "memory"); syscall(228 /* clock_gettime */, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static u64 mix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
static u64 hash(const std::string& s, u64 h = 0x9e3779b97f4a7c15ull) {
    size_t i = 0; for (; i + 8 <= s.size(); i += 8) { u64 w; memcpy(&w, s.data() + i, 8); h = mix(h ^ w) + 0x9e3779b97f4a7c15ull; }
    u64 w = 0; memcpy(&w, s.data() + i, s.size() - i); return mix(h ^ w ^ (u64) s.size() << 56);
}
static bool seen(u64 h) {               // first time: false
    if (!h) h = 1;
    for (u64 i = h % TABLE, n = 0; n < 4096; ++n, i = (i + 1) % TABLE) {
        u64 v = table[i];
        if (v == h) return true;
        if (!v) { u64 z = 0; if (__atomic_compare_exchange_n(&table[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return false; if (z == h) return true; }
    }
    return false;
}
template <typename T> static void add(T& x, u64 n = 1) { __atomic_fetch_add((u64*) &x, n, __ATOMIC_RELAXED); }
static void wr(const void* p, size_t n) { while (n) { ssize_t k = __real_write(out_fd, p, n); if (k <= 0) _exit(8); p = (const char*) p + k; n -= k; } }
static void send(char type, const std::string& b) { u32 h[2] = {(u32) type, (u32) b.size()}; std::string m((char*) h, 8); m += b; wr(m.data(), m.size()); }
static void emit(const std::string& blob) { send('J', blob); }
[[noreturn]] static void violation(const std::string& m) { send('V', m + " | " + trace); _exit(0); }
static bool out_of_time() { return deadline && now_s() > deadline; }

// Every alternative is taken: all but the last in a forked copy.
static int choose(int n) {
    for (int i = 0; i < n - 1; ++i) {
        if (sh->stop || out_of_time()) return n - 1;
        pid_t p = fork();
        if (p < 0) { perror("fork"); _exit(9); }
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); sim::cpu_limit(20); return i; }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) { send('V', std::string("explorer child killed by signal ") + fmt("%d", WTERMSIG(st)) + " | " + trace); _exit(0); }
    }
    return n - 1;
}

// One of several scenarios that together take every alternative.
static int choose_shard(int n, int shard, int of) { int k = 0; for (int i = shard; i < n; i += of) ++k; if (!k) _exit(0); return shard + of * choose(k); }

static void worker(const std::vector<Scen>& sc, const std::string& only) {
    for (;;) {
        u32 i = __atomic_fetch_add(&sh->next, 1, __ATOMIC_RELAXED);
        if (i >= sc.size()) return;
        if (!only.empty() && sc[i].name.find(only) == std::string::npos) continue;
        if (out_of_time() || sh->nviol >= (u32) max_viol) { __atomic_fetch_add(&sh->nskip, 1, __ATOMIC_RELAXED); continue; }
        std::vector<std::string> stack(1, sc[i].blob); bool bad = false, capped = false;
        while (!stack.empty() && !bad) {
            if (out_of_time()) { capped = true; break; }
            std::string job = std::move(stack.back()); stack.pop_back();
            int pp[2]; { int* q = pp; long r = syscall(293 /* pipe2 */, q, 0); if (r) _exit(9); }
            pid_t pid = fork();
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL); __real_close(pp[0]); out_fd = pp[1];
                int nul = __real_open("/dev/null", O_RDWR); dup2(nul, 1); if (!getenv("SIM_STDERR")) dup2(nul, 2);
                sim::install_signals(); sim::cpu_limit(20);
                run_job(job); _exit(0);
            }
            __real_close(pp[1]); add(sh->jobs);
            std::string buf; char tmp[65536]; ssize_t k;
            while ((k = __real_read(pp[0], tmp, sizeof tmp)) > 0 || (k < 0 && errno == EINTR)) {
                if (k < 0) continue;
                buf.append(tmp, k);
                size_t p = 0;
                while (buf.size() - p >= 8) {
                    u32 h[2]; memcpy(h, &buf[p], 8); if (buf.size() - p - 8 < h[1]) break;
                    std::string b = buf.substr(p + 8, h[1]); p += 8 + h[1];
                    if (h[0] == 'J') stack.push_back(b);
                    else if (h[0] == 'S') { u32 n = __atomic_fetch_add(&sh->nsample, 1, __ATOMIC_RELAXED); if (n < 6) { snprintf(sh->sample[n], 1500, "%s", b.c_str()); snprintf(sh->samplename[n], 200, "%s", sc[i].name.c_str()); } }
                    else if (h[0] == 'V') {
                        if (!bad) { u32 n = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_RELAXED); if (n < 16) { snprintf(sh->viol[n].scen, 200, "%s", sc[i].name.c_str()); snprintf(sh->viol[n].msg, 6000, "%s", b.c_str()); } }
                        bad = true;
                    }
                }
                buf.erase(0, p);
            }
            __real_close(pp[0]);
            int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (!bad && (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0))) {
                u32 n = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_RELAXED); bad = true;
                if (n < 16) { snprintf(sh->viol[n].scen, 200, "%s", sc[i].name.c_str()); snprintf(sh->viol[n].msg, 6000, "job process ended with status 0x%x", st); }
            }
        }
        if (capped) __atomic_fetch_add(&sh->ncapped, 1, __ATOMIC_RELAXED);
        else if (!bad) __atomic_fetch_add(&sh->nok, 1, __ATOMIC_RELAXED);
    }
}
static std::string jq(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

static int drive(int argc, char** argv, std::vector<Scen> sc) {
    std::string out, only; double maxs = 0; int nw = 8; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--max-seconds") maxs = atof(argv[++i]);
        else if (a == "-j") nw = atoi(argv[++i]); else if (a == "--list") list = true; else if (a == "--max-viol") max_viol = atoi(argv[++i]);
    }
    if (list) { for (auto& s : sc) printf("%s\n", s.name.c_str()); printf("%zu scenarios\n", sc.size()); return 0; }
    if (getenv("VERIF_JOBS")) nw = atoi(getenv("VERIF_JOBS"));
    setenv("_", "valgrind", 1);         // plain malloc instead of huge pools
    sh = (Shared*) __real_mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    table = (volatile u64*) __real_mmap(0, TABLE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = now_s(); if (maxs) deadline = t0 + maxs;
    std::vector<pid_t> pids;
    for (int w = 0; w < nw; ++w) { pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(sc, only); _exit(0); } pids.push_back(p); }
    int rc = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (st) rc = 3; }
    u64 n = sc.size();
    std::string j = fmt("{\"scenarios\":%llu,\"ok\":%u,\"violations\":%u,\"skipped\":%u,\"capped\":%u,\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"complete_executions\":%llu,\"terminal_states\":%llu,\"outcomes\":%llu,",
        (unsigned long long) n, sh->nok, sh->nviol, sh->nskip, sh->ncapped, (unsigned long long) sh->states, (unsigned long long) sh->transitions, (unsigned long long) sh->executions, (unsigned long long) sh->checks, (unsigned long long) sh->states, (unsigned long long) sh->outcomes);
    j += fmt("\"extra\":{\"jobs\":%llu,\"dedup\":%llu},\"samples\":[", (unsigned long long) sh->jobs, (unsigned long long) sh->dedup);
    for (u32 i = 0; i < sh->nsample && i < 3; ++i) { if (i) j += ","; j += "{\"scenario\":" + jq(sh->samplename[i]) + ",\"history\":" + jq(sh->sample[i]) + "}"; }
    j += "],\"viol\":[";
    for (u32 i = 0; i < sh->nviol && i < 16; ++i) { if (i) j += ","; j += "{\"scenario\":" + jq(sh->viol[i].scen) + ",\"kind\":1,\"message\":" + jq(sh->viol[i].msg) + ",\"schedule\":\"\"}"; }
    j += "]}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); fwrite(j.data(), 1, j.size(), f); fclose(f); }
    fprintf(stderr, "%llu scenarios, %u ok, %u violations, %u skipped, %u capped; %llu jobs, %llu states, %llu executions, %llu checks; %.1fs\n", (unsigned long long) n, sh->nok, sh->nviol, sh->nskip, sh->ncapped, (unsigned long long) sh->jobs, (unsigned long long) sh->states, (unsigned long long) sh->executions, (unsigned long long) sh->checks, now_s() - t0);
    for (u32 i = 0; i < sh->nviol && i < 16; ++i) fprintf(stderr, "VIOL %s: %s\n", sh->viol[i].scen, sh->viol[i].msg);
    if (rc) return rc;
    return sh->nviol ? 1 : 0;
}
}
#endif
