// C20: the per-thread allocator and reclamation lists.  Two threads' worth of state driven one operation at a time
// through every sequence up to a depth, from starting points around the lists' capacities; and every size class
// allocated until its pool is refilled.
#include "kvthread.hh"
#include "seq.hh"
#include <set>
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
typedef std::string S;
static const int SIZES[] = {40, 64, 150, 1280};          // pool objects' sizes; 1, 1, 3 and 20 lines
static const size_t MALLOCED = 100;
struct Pools;
static Pools* P;
struct Cb : threadinfo::mrcu_callback { int fired = 0, want = 0, mask = 0, more = 0; void operator()(threadinfo& ti) override; };
struct Obj { char* p; int sz, kind, mask, by; unsigned char stamp; };     // kind 0 live, 1 retired from a pool, 2 retired from malloc
struct Pools : seq::System {
    threadinfo* ti[2]; bool on[2]; std::vector<Obj> obj; std::vector<Cb*> cbs; int stamp, fill, skew; bool both; const char* err;
    std::vector<std::pair<char*, int>> handed[2][21];              // what each thread's pools were given back, by lines
    std::vector<std::pair<S, std::function<bool(bool)>>> ops; bool loose;
    static int lines(int sz) { return (sz + CACHE_LINE_SIZE - 1) / CACHE_LINE_SIZE; }
    int active() const { return on[0] | on[1] << 1; }
    bool intact(const Obj& o) const { for (int i = 0; i < o.sz; ++i) if ((unsigned char) o.p[i] != o.stamp) return false; return true; }
    const char* look() {
        if (err) return err;
        for (auto& o : obj) if ((o.kind == 0 || o.mask) && !intact(o)) return seq::msg("%s object of %d bytes changed", o.kind ? "a retired" : "a live", o.sz);
        return nullptr;
    }
    char* alloc(int t, int sz) {
        char* p = (char*) ti[t]->pool_allocate(sz, memtag_value);
        if (!p || (uintptr_t) p % CACHE_LINE_SIZE) { err = "an allocation is not aligned"; return nullptr; }
        for (size_t i = 0; i < obj.size(); ) { Obj& o = obj[i]; if (p < o.p + o.sz && o.p < p + sz) { if (o.kind == 0) { err = "an allocation overlaps a live object"; return nullptr; } if (o.mask) { err = "an object was reused while a reader from before its retirement is active"; return nullptr; } obj.erase(obj.begin() + i); } else ++i; }
        Obj o; o.p = p; o.sz = sz; o.kind = 0; o.mask = 0; o.by = t; o.stamp = ++stamp; memset(p, o.stamp, sz); obj.push_back(o); return p;
    }
    int live(int nth = 0) const { for (int i = obj.size() - 1; i >= 0; --i) if (obj[i].kind == 0 && !nth--) return i; return -1; }
    void back(int t, const Obj& o) { for (int u = 0; u < 2; ++u) { auto& h = handed[u][lines(o.sz)]; for (size_t i = 0; i < h.size(); ++i) if (h[i].first == o.p) h.erase(h.begin() + i--); } handed[t][lines(o.sz)].push_back({o.p, o.sz}); }
    void retire(int t, int i) { Obj& o = obj[i]; o.kind = 1; o.mask = active(); o.by = t; back(t, o); ti[t]->pool_deallocate_rcu(o.p, o.sz, memtag_value); }
    void over(int t) { for (auto& o : obj) o.mask &= ~(1 << t); for (auto c : cbs) c->mask &= ~(1 << t); }
    void adv() { globalepoch.store(globalepoch.load() + 1); active_epoch.store(threadinfo::min_active_epoch()); }
    void many(int t, int n) { Cb* c = new Cb; c->mask = active(); c->want = n; cbs.push_back(c); for (int i = 0; i < n; ++i) ti[t]->rcu_register(c); }
    Pools(int f, int s, bool l, bool b) : fill(f), skew(s), both(b), loose(l) {
        auto add = [&](const S& n, std::function<bool(bool)> fn) { ops.push_back({n, fn}); };
        for (int t = 0; t < 2; ++t) {
            S T = "t" + std::to_string(t) + ".";
            add(T + "start", [=](bool go) { if (on[t]) return false; if (go) { ti[t]->rcu_start(); on[t] = true; } return true; });
            add(T + "stop", [=](bool go) { if (!on[t]) return false; if (go) { over(t); on[t] = false; ti[t]->rcu_stop(); } return true; });
            add(T + "quiesce", [=](bool go) { if (!on[t]) return false; if (go) { over(t); ti[t]->rcu_quiesce(); } return true; });
            for (int k = 0; k < (loose ? 4 : 2); ++k) add(T + "alloc " + std::to_string(SIZES[loose ? k : 2 * k]), [=](bool go) { int n = 0; for (auto& o : obj) n += !o.kind; if (n >= 3) return false; if (go) alloc(t, SIZES[loose ? k : 2 * k]); return true; });
            add(T + "retire newest", [=](bool go) { if (!on[t] || live() < 0) return false; if (go) retire(t, live()); return true; });
            add(T + "free newest", [=](bool go) { if (!on[t] || live() < 0) return false; if (go) { int i = live(); back(t, obj[i]); ti[t]->pool_deallocate(obj[i].p, obj[i].sz, memtag_value); obj.erase(obj.begin() + i); } return true; });
            if (loose) add(T + "retire second", [=](bool go) { if (!on[t] || live(1) < 0) return false; if (go) retire(t, live(1)); return true; });
            add(T + "retire malloced", [=](bool go) { if (!on[t]) return false; if (go) { Obj o; o.p = (char*) ti[t]->allocate(MALLOCED, memtag_value); o.sz = MALLOCED; o.kind = 2; o.mask = active(); o.by = t; o.stamp = ++stamp; memset(o.p, o.stamp, o.sz); obj.push_back(o); ti[t]->deallocate_rcu(o.p, o.sz, memtag_value); } return true; });
            add(T + "callback", [=](bool go) { if (!on[t]) return false; if (go) { Cb* c = new Cb; c->want = 1; c->mask = active(); c->more = cbs.size() % 2 ? 0 : 1; cbs.push_back(c); ti[t]->rcu_register(c); } return true; });
            for (int n : {127, 251}) if (!loose || n == 127) add(T + std::to_string(n) + " callbacks", [=](bool go) { if (!on[t]) return false; if (go) many(t, n); return true; });
        }
        add("advance", [=](bool go) { if (go) adv(); return true; });
        add("advance, both quiesce", [=](bool go) { if (go) { adv(); for (int t = 0; t < 2; ++t) if (on[t]) { over(t); ti[t]->rcu_quiesce(); } } return true; });
    }
    void setup() override {
        P = this; stamp = 0; err = nullptr; on[0] = on[1] = false; globalepoch.store(1); active_epoch.store(1); threadinfo::allthreads = nullptr;
        for (int t = 0; t < 2; ++t) {
            ti[t] = threadinfo::make(threadinfo::TI_PROCESS, t);
            for (int sz : SIZES) {       // fill the pools from memory that is not saved with the state, but for the objects first in line
                bool o = seq::in_; seq::in_ = false; void* p = ti[t]->pool_allocate(sz, memtag_value); seq::in_ = o; ti[t]->pool_deallocate(p, sz, memtag_value);
                if (sz != 64) seq::region(p, lines(sz) * CACHE_LINE_SIZE * 12);
            }
        }
        seq::region(&threadinfo::allthreads, sizeof threadinfo::allthreads); seq::region(&globalepoch, sizeof globalepoch); seq::region(&active_epoch, sizeof active_epoch);
        ti[0]->rcu_start(); on[0] = true; if (both) { ti[1]->rcu_start(); on[1] = true; } many(0, fill);
        if (skew) { adv(); for (int i = 0; i < skew; ++i) { adv(); over(0); ti[0]->rcu_quiesce(); } many(0, skew * 20); }     // part of the list is behind
    }
    int nops() const override { return ops.size(); }
    bool enabled(int o) override { return ops[o].second(false); }
    const char* step(int o) override { ops[o].second(true); return look(); }
    const char* check() override { return look(); }
    const char* finish() override {
        for (int t = 0; t < 2; ++t) if (on[t]) { over(t); on[t] = false; ti[t]->rcu_stop(); }
        for (int r = 0; r < 40; ++r) { adv(); for (int t = 0; t < 2; ++t) { ti[t]->rcu_start(); ti[t]->rcu_stop(); } }
        if (err) return err;
        for (auto c : cbs) if (c->fired != c->want) return seq::msg("a callback registered %d times ran %d times", c->want, c->fired);
#if SEQ_HAS_ASAN
        for (auto& o : obj) if (o.kind == 2 && !__asan_address_is_poisoned(o.p)) return "a retired malloced object was never freed";
#endif
        std::set<char*> alive; for (auto& o : obj) if (!o.kind) { alive.insert(o.p); if (!intact(o)) return "a live object changed while others were reclaimed"; }
        for (int t = 0; t < 2; ++t) for (int nl = 1; nl <= 20; ++nl) {      // each thing given back is there to be allocated, once
            std::set<char*> want; for (auto& h : handed[t][nl]) if (!alive.count(h.first)) want.insert(h.first);
            std::set<char*> got; for (size_t i = 0; i < want.size(); ++i) { char* p = (char*) ti[t]->pool_allocate(nl * CACHE_LINE_SIZE, memtag_value); if (alive.count(p)) return "a live object was handed out"; if (!got.insert(p).second) return seq::msg("an object of %d lines was handed out twice", nl); }
            for (char* p : want) if (!got.count(p)) return seq::msg("an object of %d lines given back was lost", nl);
        }
        return nullptr;
    }
    S opname(int o) const override { return ops[o].first; }
};
void Cb::operator()(threadinfo& t) {
    ++fired; if (fired > want) P->err = "a callback ran too often"; if (mask) P->err = "a callback ran while a reader from before its registration is active";
    if (more) { more = 0; int w = &t == P->ti[1]; Cb* c = new Cb; c->want = 1; c->mask = P->active(); P->cbs.push_back(c); t.rcu_register(c); if (char* p = P->alloc(w, 40)) { (void) p; P->retire(w, P->live()); } }
}
static void size_classes(int shard, int n, bool thorough) {
    threadinfo* ti = threadinfo::make(threadinfo::TI_PROCESS, 0);
    for (int nl = 1; nl <= 20; ++nl) {
        if (nl % n != shard) continue;
        // until the pool must be refilled, and then until it must be again
        std::vector<char*> a; std::set<char*> seen; int unit = nl * CACHE_LINE_SIZE; size_t many = (2 << 20) / unit + 3;
        for (size_t i = 0; i < many * (thorough ? 3 : 1); ++i) { seq::begin_case(); char* p = (char*) ti->pool_allocate(unit - (i % CACHE_LINE_SIZE), memtag_value); if (!p || (uintptr_t) p % CACHE_LINE_SIZE) SEQ_FAIL("an allocation of %d lines is not aligned", nl); memset(p, int(i % 251 + 1), unit); a.push_back(p); seen.insert(p); }
        if (seen.size() != a.size()) SEQ_FAIL("an object of %d lines was handed out twice", nl);
        { char* q = nullptr; for (char* p : seen) { if (q && p - q < unit) SEQ_FAIL("two objects of %d lines overlap", nl); q = p; } }
        for (size_t i = 0; i < a.size(); ++i) for (int k : {0, 1, 7, 8, unit / 2, unit - 1}) if (a[i][k] != char(i % 251 + 1)) SEQ_FAIL("an object of %d lines changed", nl);
        // given back in three orders, they come again, each once
        for (int order = 0; order < 3; ++order) {
            for (size_t i = 0; i < a.size(); ++i) { size_t k = order == 0 ? i : order == 1 ? a.size() - 1 - i : (i * 7 + 3) % a.size(); if (order == 2 && a.size() % 7 == 0) k = i; ti->pool_deallocate(a[k], unit - (k % CACHE_LINE_SIZE), memtag_value); }
            std::set<char*> again; for (size_t i = 0; i < a.size(); ++i) { seq::begin_case(); again.insert((char*) ti->pool_allocate(unit, memtag_value)); } if (again != seen) SEQ_FAIL("of %zu objects of %d lines given back, %zu others were handed out", a.size(), nl, again.size());
        }
    }
    // every size: a whole object to itself, whatever is allocated beside it
    if (shard == 0) for (int sz = 1; sz <= 1280; ++sz) for (int other : {1, 63, 64, 65, 128, 129, 640, 1279, 1280}) {
        seq::begin_case(); char* x = (char*) ti->pool_allocate(sz, memtag_value); memset(x, 1, sz); char* y = (char*) ti->pool_allocate(other, memtag_value); memset(y, 2, other); char* z = (char*) ti->pool_allocate(sz, memtag_value); memset(z, 3, sz);
        for (int i = 0; i < sz; ++i) if (x[i] != 1 || z[i] != 3) SEQ_FAIL("objects of %d and %d bytes overlap", sz, other); for (int i = 0; i < other; ++i) if (y[i] != 2) SEQ_FAIL("objects of %d and %d bytes overlap", other, sz);
        ti->pool_deallocate(x, sz, memtag_value); ti->pool_deallocate(y, other, memtag_value); ti->pool_deallocate(z, sz, memtag_value);
    }
}
int main(int argc, char** argv) {
    bool thorough = false; for (int i = 1; i < argc; ++i) if (S(argv[i]) == "--thorough") thorough = true;
    unsetenv("_");                    // a path naming valgrind would switch the pools off
    std::vector<seq::Scenario> sc;
    auto add = [&](const S& n, int depth, int fill, int skew, bool loose, bool both = false) { seq::Scenario s; s.name = n; s.depth = depth; s.make = [=] { return new Pools(fill, skew, loose, both); }; sc.push_back(s); };
    const int cap = limbo_group::capacity; int d = thorough ? 6 : 5;
    add("empty", d, 0, 0, true); add("both active", d, 0, 0, true, true); add("both active, nearly one group", d, cap - 3, 0, false, true);
    for (int k = 4; k >= 0; --k) add("one group less " + std::to_string(k), d, cap - 1 - k, 0, false);
    for (int k = 2; k >= -1; --k) add("two groups less " + std::to_string(k), d, 2 * (cap - 1) - k, 0, false);
    for (int k : {1, 2, 3}) for (int f : {120, 126, 127, 128, 129, 250, cap - 1}) if (thorough || k == 1) add(std::to_string(f) + " entries, " + std::to_string(k) + " behind", d, f, k, false);
    seq::Scenario s; s.name = "size classes"; s.depth = 0; s.shards = 20; s.run = [=] { size_classes(seq::seq_shard, seq::seq_nshards, thorough); }; sc.push_back(s);
    return seq::drive(argc, argv, sc);
}
