// A simulated operating system for the real server.
//
// mtd's sources are compiled as shipped (main renamed to mtd_main) and linked with --wrap for every system
// call they make.  Threads become fibers, the clock is virtual, files live in memory with a log of every
// change, and sockets are queues.  The controller (the harness) decides which fiber runs next and where the
// machine stops, so every schedule and every crash point of a run can be enumerated.
#ifndef SIM_HH
#define SIM_HH
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <netinet/in.h>
#include <ucontext.h>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <set>
#include <functional>
#include <algorithm>

extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
int __real_fstat(int, struct stat*); int __real_stat(const char*, struct stat*); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
off_t __real_lseek(int, off_t, int); int __real_ftruncate(int, off_t); int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
void __real_exit(int) __attribute__((noreturn)); void __real_abort(void) __attribute__((noreturn));

}

int mtd_main(int argc, char** argv);
namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
typedef std::map<std::string, std::string> Image;

enum { RUN, SLEEP, COND, LOCK, JOIN, RECV, READ, ACCEPT, EPOLLW, FSP, DONE };
enum { K_OTHER, K_MAIN, K_LOG, K_CKP, K_UDP, K_TCP };
static const u64 NEVER = ~0ull;

struct Fiber {
    int id; int st = RUN; int kind = K_OTHER, idx = -1;
    ucontext_t ctx; void* stack = nullptr;
    void* (*fn)(void*) = nullptr; void* arg = nullptr;
    u64 wake = NEVER; void* cond = nullptr; bool timedout = false; int fd = -1;
    std::deque<std::string> inbox; std::string outbox; bool replied = false;
    u64 naps = 0;                       // times it went to sleep
    u64 fsops = 0;                      // file-system operations done since last sleep
    const char* at = "";                // for FSP: the operation it is about to do
};
static std::vector<Fiber*> fibers;
static Fiber* cur = nullptr;            // running fiber; null: the controller
static ucontext_t sched_ctx;
static u64 now_us = 1700000000ull * 1000000;
static int fs_stops = 1;                // stop before mutating file-system operations
static std::function<void()> on_fs;     // called after each file-system event
static std::function<void(const char*)> on_death;   // the server died (assertion, exit, signal)
static int server_port = 2117;
static size_t udp_max = ~(size_t) 0;     // largest datagram; the real limit is 65507 bytes, harnesses that use datagrams to look inside lift it

// ---- failure ------------------------------------------------------------------------------------
[[noreturn]] static void death(const char* what) {
    static int once; if (once++) _exit(7);
    if (on_death) on_death(what);
    _exit(7);
}
static const char* fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static const char* fmt(const char* f, ...) { static char b[4][2000]; static int i; i = (i + 1) % 4; va_list ap; va_start(ap, f); vsnprintf(b[i], sizeof b[i], f, ap); va_end(ap); return b[i]; }

// ---- fibers -------------------------------------------------------------------------------------
static void fiber_main(unsigned lo, unsigned hi) {
    Fiber* f = (Fiber*) (((u64) hi << 32) | lo);
    f->fn(f->arg);
    f->st = DONE; cur = nullptr;
    swapcontext(&f->ctx, &sched_ctx);
}
static Fiber* spawn(void* (*fn)(void*), void* arg) {
    Fiber* f = new Fiber; f->id = fibers.size(); f->fn = fn; f->arg = arg;
    size_t sz = 512 << 10;
    f->stack = __real_mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = sz; f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, (void (*)()) fiber_main, 2, (unsigned) (u64) f, (unsigned) ((u64) f >> 32));
    fibers.push_back(f);
    return f;
}
static void block(int st) {             // in a fiber: give control back
    Fiber* f = cur; f->st = st; cur = nullptr;
    swapcontext(&f->ctx, &sched_ctx);
}
static void resume(Fiber* f) { f->st = RUN; cur = f; swapcontext(&sched_ctx, &f->ctx); }

// ---- file system --------------------------------------------------------------------------------
enum { E_CREAT, E_RENAME, E_UNLINK, E_TRUNC, E_WRITE, E_FSYNC };
struct Event { int type; int ino; std::string path, path2; u64 off; std::string data; };
struct Inode { std::string data; };
static std::vector<Inode*> inodes;
static std::map<std::string, int> names;
static Image base_image;                // what was on disk at boot: all of it durable
static std::map<std::string, int> base_names;
static std::vector<Event> events;
static bool meta(const Event& e) { return e.type <= E_TRUNC; }
static std::string describe(const Event& e) {
    static const char* n[] = {"creat", "rename", "unlink", "truncate", "write", "fsync"};
    std::string s = n[e.type]; s += " " + e.path; if (e.type == E_RENAME) s += " -> " + e.path2;
    if (e.type == E_WRITE) s += fmt(" [%llu,+%zu)", (unsigned long long) e.off, e.data.size());
    if (e.type == E_TRUNC) s += fmt(" %llu", (unsigned long long) e.off);
    return s;
}
static std::string path_of(int ino) { for (auto& p : names) if (p.second == ino) return p.first; return fmt("#%d", ino); }
static void mount(const Image& im) {
    base_image = im;
    for (auto& p : im) { Inode* n = new Inode; n->data = p.second; names[p.first] = base_names[p.first] = inodes.size(); inodes.push_back(n); }
}
static void event(Event e) { events.push_back(std::move(e)); if (cur) cur->fsops++; if (on_fs) on_fs(); }
static void fs_point(const char* what) { if (cur && fs_stops) { cur->at = what; block(FSP); } }
// The disk after a crash now.  Metadata operations persist in order, up to and including event number `mcut`;
// an fsync makes every earlier metadata operation durable.  Data written but not fsynced survives as
// keep(ino, bytes) says: number of bytes of the unsynced tail kept; zero(ino): the tail reads as zeros.
struct CrashPolicy { size_t mcut; std::map<int, u64> keep; std::set<int> zero; u64 dflt; };
static Image crash_image(const CrashPolicy& c) {
    std::map<std::string, int> nm = base_names;
    std::vector<std::string> data(inodes.size());
    for (auto& p : base_names) data[p.second] = base_image[p.first];
    std::vector<long> lastsync(inodes.size(), -1);
    for (size_t i = 0; i < events.size(); ++i) if (events[i].type == E_FSYNC) lastsync[events[i].ino] = i;
    std::vector<u64> used(inodes.size(), 0);
    for (size_t i = 0; i < events.size(); ++i) {
        const Event& e = events[i];
        if (meta(e) && i > c.mcut) continue;
        switch (e.type) {
        case E_CREAT: nm[e.path] = e.ino; break;
        case E_RENAME: nm.erase(e.path); nm[e.path2] = e.ino; break;
        case E_UNLINK: nm.erase(e.path); break;
        case E_TRUNC: data[e.ino].resize(e.off); break;
        case E_WRITE: {
            std::string d = e.data; bool z = false;
            if ((long) i > lastsync[e.ino]) {
                u64 k = c.keep.count(e.ino) ? c.keep.at(e.ino) : c.dflt;
                u64 room = k > used[e.ino] ? k - used[e.ino] : 0;
                used[e.ino] += d.size();
                z = c.zero.count(e.ino);
                if (z && room < d.size()) { for (size_t j = room; j < d.size(); ++j) d[j] = 0; }
                else if (room < d.size()) d.resize(room);
            }
            if (d.empty()) break;
            std::string& f = data[e.ino];
            if (f.size() < e.off) f.resize(e.off);
            if (f.size() < e.off + d.size()) f.resize(e.off + d.size());
            f.replace(e.off, d.size(), d);
            break;
        }
        }
    }
    Image im; for (auto& p : nm) im[p.first] = data[p.second];
    return im;
}
static size_t meta_min() { size_t m = 0; for (size_t i = 0; i < events.size(); ++i) if (events[i].type == E_FSYNC) m = i; return m; }
static std::map<int, u64> unsynced() {
    std::map<int, u64> u;
    for (auto& e : events) { if (e.type == E_WRITE) u[e.ino] += e.data.size(); else if (e.type == E_FSYNC) u.erase(e.ino); }
    return u;
}

// ---- descriptors --------------------------------------------------------------------------------
enum { F_FILE, F_DGRAM, F_STREAM, F_CONN, F_PIPER, F_PIPEW, F_EPOLL };
struct Desc { int type; int ino = -1; u64 pos = 0; int flags = 0; int peer = -1; std::deque<std::string> in; bool eof = false; std::string out; std::vector<std::pair<int, epoll_event>> set; int port = 0; bool closed = false; bool reset = false; int pair = -1; };   // reset: the other end has torn the connection down; pair: the other end, when it is in this machine too
static std::vector<Desc*> descs;        // fd - 1000
static const int FD0 = 500;
static Desc* D(int fd) { return fd >= FD0 && fd - FD0 < (int) descs.size() ? descs[fd - FD0] : nullptr; }
static int newfd(int type) { Desc* d = new Desc; d->type = type; descs.push_back(d); return FD0 + descs.size() - 1; }
static std::deque<int> accept_queue; static std::function<ssize_t(Desc*, const char*, size_t)> on_conn_write;
static bool readable(int fd) { Desc* d = D(fd); return d && (!d->in.empty() || d->eof || d->reset); }
static std::map<int, void (*)(int)> handlers;   // what the server asked for with signal()
static bool virt(const char* path) { return strncmp(path, "/vfs/", 5) == 0; }

// Is the fiber able to go on without time passing?
static bool ready(Fiber* f) {
    switch (f->st) {
    case RUN: case FSP: return true;
    case SLEEP: return f->wake <= now_us;
    case COND: return f->wake <= now_us;
    case LOCK: return true;
    case RECV: return !f->inbox.empty();
    case READ: return readable(f->fd);
    case ACCEPT: return !accept_queue.empty();
    case EPOLLW: { for (auto& p : D(f->fd)->set) if (readable(p.first)) return true; return false; }
    default: return false;
    }
}
static std::map<void*, Fiber*> mutex_owner;
}

using namespace sim;
extern "C" {
// ---- files
static int vopen(const char* path, int flags) {
    auto it = names.find(path);
    if (it == names.end() && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (it == names.end()) {
        fs_point("creat");
        Inode* n = new Inode; int ino = inodes.size(); inodes.push_back(n); names[path] = ino;
        event({E_CREAT, ino, path, "", 0, ""});
    } else if ((flags & O_TRUNC) && !inodes[it->second]->data.empty()) {
        fs_point("truncate");
        inodes[it->second]->data.clear();
        event({E_TRUNC, it->second, path, "", 0, ""});
    }
    int fd = newfd(F_FILE); Desc* d = D(fd); d->ino = names[path]; d->flags = flags;
    if (cur && cur->kind == K_OTHER) {
        const char* b = strrchr(path, '/'); int n;
        if (b && sscanf(b, "/kvd-log-%d", &n) == 1) { cur->kind = K_LOG; cur->idx = n; }
    }
    return fd;
}
int __wrap_open(const char* path, int flags, ...) {
    if (!virt(path)) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return __real_open(path, flags, m); }
    return vopen(path, flags);
}
int __wrap_creat(const char* path, mode_t) { return vopen(path, O_WRONLY | O_CREAT | O_TRUNC); }
int __wrap_close(int fd) { Desc* d = D(fd); if (!d) return __real_close(fd); d->closed = true; if (d->pair >= 0) D(d->pair)->eof = true; for (auto* e : descs) if (e->type == F_EPOLL) for (size_t i = 0; i < e->set.size(); ) if (e->set[i].first == fd) e->set.erase(e->set.begin() + i); else ++i; return 0; }
ssize_t __wrap_read(int fd, void* buf, size_t n) {
    Desc* d = D(fd); if (!d) return __real_read(fd, buf, n);
    if (d->type == F_FILE) {
        std::string& s = inodes[d->ino]->data; if (d->pos >= s.size()) return 0;
        size_t k = std::min(n, s.size() - d->pos); memcpy(buf, s.data() + d->pos, k); d->pos += k; return k;
    }
    while (d->in.empty() && !d->eof && !d->reset) { cur->fd = fd; block(READ); }
    if (d->reset) { errno = ECONNRESET; return -1; }
    if (d->in.empty()) return 0;
    std::string& c = d->in.front(); size_t k = std::min(n, c.size()); memcpy(buf, c.data(), k);
    if (k == c.size()) d->in.pop_front(); else c.erase(0, k);
    return k;
}
ssize_t __wrap_write(int fd, const void* buf, size_t n) {
    Desc* d = D(fd); if (!d) return __real_write(fd, buf, n);
    if (d->type == F_PIPEW) { D(d->peer)->in.push_back(std::string((const char*) buf, n)); return n; }
    if (d->type == F_CONN) {
        ssize_t k = on_conn_write ? on_conn_write(d, (const char*) buf, n) : n;
        if (d->reset) { if (handlers[SIGPIPE] != SIG_IGN) death("killed by SIGPIPE while writing to a connection its client had closed"); errno = EPIPE; return -1; }
        d->out.append((const char*) buf, k); if (d->pair >= 0 && k) D(d->pair)->in.push_back(std::string((const char*) buf, k)); return k;
    }
    if (d->type != F_FILE) { errno = EBADF; return -1; }
    fs_point("write");
    std::string& s = inodes[d->ino]->data; u64 off = d->flags & O_APPEND ? s.size() : d->pos;
    if (s.size() < off + n) s.resize(off + n);
    s.replace(off, n, (const char*) buf, n); d->pos = off + n;
    event({E_WRITE, d->ino, path_of(d->ino), "", off, std::string((const char*) buf, n)});
    return n;
}
int __wrap_fsync(int fd) { Desc* d = D(fd); if (!d || d->type != F_FILE) { errno = EINVAL; return -1; } fs_point("fsync"); event({E_FSYNC, d->ino, path_of(d->ino), "", 0, ""}); return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t len) {
    Desc* d = D(fd); if (!d) return __real_ftruncate(fd, len);
    fs_point("truncate"); inodes[d->ino]->data.resize(len); event({E_TRUNC, d->ino, path_of(d->ino), "", (u64) len, ""}); return 0;
}
off_t __wrap_lseek(int fd, off_t off, int wh) {
    Desc* d = D(fd); if (!d) return __real_lseek(fd, off, wh);
    d->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? d->pos + off : inodes[d->ino]->data.size() + off; return d->pos;
}
int __wrap_rename(const char* a, const char* b) {
    auto it = names.find(a); if (it == names.end()) { errno = ENOENT; return -1; }
    fs_point("rename"); int ino = names[a]; names.erase(a); names[b] = ino; event({E_RENAME, ino, a, b, 0, ""}); return 0;
}
int __wrap_unlink(const char* a) {
    auto it = names.find(a); if (it == names.end()) { errno = ENOENT; return -1; }
    fs_point("unlink"); int ino = names[a]; names.erase(a); event({E_UNLINK, ino, a, "", 0, ""}); return 0;
}
int __wrap_mkdir(const char* a, mode_t) { (void) a; return 0; }
int __wrap_stat(const char* a, struct stat* sb) {
    if (!virt(a)) return __real_stat(a, sb);
    memset(sb, 0, sizeof *sb); auto it = names.find(a);
    if (it != names.end()) { sb->st_mode = S_IFREG | 0666; sb->st_size = inodes[it->second]->data.size(); } else sb->st_mode = S_IFDIR | 0777;
    return 0;
}
int __wrap_fstat(int fd, struct stat* sb) { Desc* d = D(fd); if (!d) return __real_fstat(fd, sb); memset(sb, 0, sizeof *sb); sb->st_mode = S_IFREG | 0666; sb->st_size = inodes[d->ino]->data.size(); return 0; }
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
    Desc* d = fd >= 0 ? D(fd) : nullptr; if (!d) return __real_mmap(a, n, prot, flags, fd, off);
    if (n == 0) { errno = EINVAL; return MAP_FAILED; }
    size_t pg = (n + 4095) & ~(size_t) 4095;    // the bytes after the end of the file read as zeros; the next page faults
    char* p = (char*) __real_mmap(0, pg + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    std::string& s = inodes[d->ino]->data; if ((size_t) off < s.size()) memcpy(p, s.data() + off, std::min(n, s.size() - off));
    mprotect(p + pg, 4096, PROT_NONE);
    if (!(prot & PROT_WRITE)) mprotect(p, pg, PROT_READ);
    return p;
}
int __wrap_munmap(void* p, size_t n) { return __real_munmap(p, n); }
// ---- time
int __wrap_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = now_us / 1000000; ts->tv_nsec = (now_us % 1000000) * 1000; return 0; }
static void vsleep(u64 us) { if (!cur) { now_us += us; return; } cur->wake = now_us + us; cur->naps++; cur->fsops = 0; block(SLEEP); cur->wake = NEVER; }
static const u64 OVERSHOOT = 5000;      // timers fire late
int __wrap_nanosleep(const struct timespec* r, struct timespec*) { vsleep(r->tv_sec * 1000000ull + r->tv_nsec / 1000 + OVERSHOOT); return 0; }
int __wrap_usleep(useconds_t us) { vsleep(us + 50); return 0; }
unsigned __wrap_sleep(unsigned s) { vsleep(s * 1000000ull + OVERSHOOT); return 0; }
int __wrap_setitimer(int, const struct itimerval*, struct itimerval*) { return 0; }
typedef void (*sigh)(int);
sigh __wrap_signal(int s, sigh h) { sigh o = handlers[s]; handlers[s] = h; return o; }
int __wrap_sigaction(int s, const struct sigaction* a, struct sigaction* o) { if (o) { memset(o, 0, sizeof *o); o->sa_handler = handlers[s]; } if (a) handlers[s] = a->sa_handler; return 0; }
extern int __real_sigaction(int, const struct sigaction*, struct sigaction*);
// ---- threads
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { Fiber* f = spawn(fn, arg); if (t) *t = (pthread_t) (u64) (f->id + 1); return 0; }
pthread_t __wrap_pthread_self() { return (pthread_t) (u64) (cur ? cur->id + 1 : 0); }
int __wrap_pthread_join(pthread_t, void**) { block(JOIN); return 0; }
int __wrap_pthread_cancel(pthread_t) { return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { while (mutex_owner.count(m)) { if (!cur || mutex_owner[m] == cur) death("self-deadlock on a mutex"); cur->cond = m; block(LOCK); } mutex_owner[m] = cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { mutex_owner.erase(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
static int vcond(pthread_cond_t* c, pthread_mutex_t* m, u64 until) {
    mutex_owner.erase(m); cur->cond = c; cur->wake = until; cur->timedout = true;
    block(COND);
    bool to = cur->timedout; cur->cond = nullptr; cur->wake = NEVER; __wrap_pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return vcond(c, m, NEVER); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return vcond(c, m, ts->tv_sec * 1000000ull + ts->tv_nsec / 1000); }
static void vsignal(pthread_cond_t* c, bool all) { for (auto* f : fibers) if (f->st == COND && f->cond == c) { f->wake = 0; f->timedout = false; f->cond = nullptr; if (!all) break; } }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { vsignal(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { vsignal(c, true); return 0; }
// ---- sockets
int __wrap_socket(int, int type, int) { return newfd(type == SOCK_DGRAM ? F_DGRAM : F_STREAM); }
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_bind(int fd, const struct sockaddr* sa, socklen_t) {
    Desc* d = D(fd); d->port = ntohs(((const sockaddr_in*) sa)->sin_port);
    if (d->type == F_DGRAM && cur) { cur->kind = K_UDP; cur->idx = d->port - server_port; }
    return 0;
}
int __wrap_listen(int, int) { return 0; }
int __wrap_accept(int, struct sockaddr*, socklen_t*) { if (cur) cur->kind = K_MAIN; while (accept_queue.empty()) block(ACCEPT); int fd = accept_queue.front(); accept_queue.pop_front(); return fd; }
ssize_t __wrap_recvfrom(int fd, void* buf, size_t n, int, struct sockaddr*, socklen_t*) {
    while (cur->inbox.empty()) { cur->fd = fd; block(RECV); }
    std::string s = cur->inbox.front(); cur->inbox.pop_front(); cur->replied = false; cur->outbox.clear();
    size_t k = std::min(n, s.size()); memcpy(buf, s.data(), k); return k;
}
ssize_t __wrap_sendto(int, const void* buf, size_t n, int, const struct sockaddr*, socklen_t) { if (n > udp_max) { errno = EMSGSIZE; return -1; } cur->outbox.assign((const char*) buf, n); cur->replied = true; return n; }
int __wrap_pipe(int* p) { int r = newfd(F_PIPER), w = newfd(F_PIPEW); D(w)->peer = r; p[0] = r; p[1] = w; return 0; }
int __wrap_epoll_create(int) { int fd = newfd(F_EPOLL); if (cur) cur->kind = K_TCP; return fd; }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
    Desc* d = D(ep);
    if (op == EPOLL_CTL_ADD) d->set.push_back({fd, *ev});
    else if (op == EPOLL_CTL_DEL) { for (size_t i = 0; i < d->set.size(); ++i) if (d->set[i].first == fd) { d->set.erase(d->set.begin() + i); return 0; } errno = ENOENT; return -1; }
    return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event* evs, int max, int) {
    for (;;) {
        int n = 0; for (auto& p : D(ep)->set) if (n < max && readable(p.first)) evs[n++] = p.second;
        if (n) return n;
        cur->fd = ep; block(EPOLLW);
    }
}
int __wrap_select(int nfds, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
    if (nfds == 0 && tv) { vsleep(tv->tv_sec * 1000000ull + tv->tv_usec); return 0; }
    int n = 0;
    if (r) for (int i = 0; i < nfds; ++i) if (FD_ISSET(i, r)) { if (readable(i)) ++n; else FD_CLR(i, r); }
    return n;
}
// ---- process
[[noreturn]] void __wrap_exit(int c) { death(fmt("the server called exit(%d)", c)); }
[[noreturn]] void __wrap_abort() { death("the server aborted"); }
[[noreturn]] void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char*) { const char* b = strrchr(f, '/'); death(fmt("assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l)); }
long __real_sysconf(int); 
void mt_verif_relax(void) { static thread_local u64 n; if (++n > 50000000) death("spinning forever"); }
void mt_verif_alloc(void*, size_t, int) {} void mt_verif_retire(void*, size_t, int) {} void mt_verif_free(void*, size_t, int) {}
}

namespace sim {
static void on_signal(int sig, siginfo_t* si, void*) { death(sig == SIGPROF ? "no progress: the server loops" : fmt("the server got signal %d (address %p)", sig, si->si_addr)); }
static void install_signals() {
    static char alt[64 << 10]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa = {}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF}) __real_sigaction(s, &sa, 0);
}
extern "C" int __real_setitimer(int, const struct itimerval*, struct itimerval*);
static void cpu_limit(int sec) { struct itimerval it = {}; it.it_value.tv_sec = sec; __real_setitimer(ITIMER_PROF, &it, 0); }

static std::vector<std::string> argv_store; static std::vector<char*> argv_ptrs;
static void* main_fiber(void*) { mtd_main((int) argv_ptrs.size() - 1, argv_ptrs.data()); death("main returned"); }
static Fiber* boot(const std::vector<std::string>& args) {
    argv_store = args; argv_ptrs.clear();
    for (auto& a : argv_store) argv_ptrs.push_back(&a[0]);
    argv_ptrs.push_back(nullptr);
    Fiber* f = spawn(main_fiber, nullptr); f->kind = K_MAIN; return f;
}
static Fiber* find(int kind, int idx) { for (auto* f : fibers) if (f->kind == kind && f->idx == idx) return f; return nullptr; }
// run one fiber until it blocks on something other than a file-system operation
static void run_to_block(Fiber* f) { do resume(f); while (f->st == FSP || (f->st == LOCK && !mutex_owner.count(f->cond))); }
// ---- little msgpack, independent of the code under test
struct Pack {
    std::string s;
    Pack& arr(size_t n) { if (n < 16) s += char(0x90 | n); else { s += '\xdc'; s += char(n >> 8); s += char(n); } return *this; }
    Pack& i(int64_t v) { if (v >= 0 && v < 128) s += char(v); else if (v < 0 && v >= -32) s += char(v); else { s += '\xd3'; for (int k = 56; k >= 0; k -= 8) s += char(v >> k); } return *this; }
    Pack& str(const std::string& v) { size_t n = v.size(); if (n < 32) s += char(0xa0 | n); else if (n < 256) { s += '\xd9'; s += char(n); } else if (n < 65536) { s += '\xda'; s += char(n >> 8); s += char(n); } else { s += '\xdb'; for (int k = 24; k >= 0; k -= 8) s += char(n >> k); } s += v; return *this; }
    Pack& map0() { s += '\x80'; return *this; }
    Pack& nil() { s += '\xc0'; return *this; }
    Pack& boolean(bool b) { s += b ? '\xc3' : '\xc2'; return *this; }
};
struct Val { int t = 0; int64_t i = 0; std::string s; std::vector<Val> a; bool ok = false;   // t: 'n' nil 'b' bool 'i' int 'd' double 's' str 'a' array 'm' map (flat)
    bool is(int64_t v) const { return t == 'i' && i == v; } };
static size_t unpack(const std::string& s, size_t p, Val& v, int depth = 0) {   // returns the new position, or npos
    const size_t bad = std::string::npos; if (p >= s.size() || depth > 20) return bad;
    auto be = [&](size_t q, int n) { u64 x = 0; for (int k = 0; k < n; ++k) x = x << 8 | (u8) s[q + k]; return x; };
    u8 c = s[p++]; size_t n = 0; int kind = 0; v = Val(); v.ok = true;
    auto need = [&](size_t k) { return p + k <= s.size(); };
    if (c < 0x80) { v.t = 'i'; v.i = c; return p; }
    if (c >= 0xe0) { v.t = 'i'; v.i = (int8_t) c; return p; }
    if (c < 0x90) { kind = 'm'; n = c & 15; } else if (c < 0xa0) { kind = 'a'; n = c & 15; } else if (c < 0xc0) { kind = 's'; n = c & 31; }
    else switch (c) {
    case 0xc0: v.t = 'n'; return p; case 0xc2: case 0xc3: v.t = 'b'; v.i = c & 1; return p;
    case 0xca: case 0xcb: { int w = c == 0xca ? 4 : 8; if (!need(w)) return bad; v.t = 'd'; v.i = be(p, w); return p + w; }
    case 0xcc: case 0xcd: case 0xce: case 0xcf: { int w = 1 << (c - 0xcc); if (!need(w)) return bad; v.t = 'i'; v.i = be(p, w); return p + w; }
    case 0xd0: case 0xd1: case 0xd2: case 0xd3: { int w = 1 << (c - 0xd0); if (!need(w)) return bad; v.t = 'i'; u64 x = be(p, w); v.i = (int64_t) (x << (64 - 8 * w)) >> (64 - 8 * w); return p + w; }
    case 0xc4: case 0xd9: if (!need(1)) return bad; n = be(p, 1); p += 1; kind = 's'; break;
    case 0xc5: case 0xda: if (!need(2)) return bad; n = be(p, 2); p += 2; kind = 's'; break;
    case 0xc6: case 0xdb: if (!need(4)) return bad; n = be(p, 4); p += 4; kind = 's'; break;
    case 0xdc: case 0xde: if (!need(2)) return bad; n = be(p, 2); p += 2; kind = c == 0xdc ? 'a' : 'm'; break;
    case 0xdd: case 0xdf: if (!need(4)) return bad; n = be(p, 4); p += 4; kind = c == 0xdd ? 'a' : 'm'; break;
    default: return bad;
    }
    v.t = kind;
    if (kind == 's') { if (!need(n)) return bad; v.s = s.substr(p, n); return p + n; }
    if (kind == 'm') n *= 2;
    for (size_t k = 0; k < n; ++k) { Val x; p = unpack(s, p, x, depth + 1); if (p == bad) return bad; v.a.push_back(x); }
    return p;
}
}
#endif
