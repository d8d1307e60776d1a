// C03/C05/C06...: explored concurrent programs on a small-node tree.
#include "treelib.hh"
#include "mc.hh"
#include <string.h>
#include <stdio.h>

relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvtimestamp_t initial_timestamp = 0;

using Masstree::Str;
#ifndef LEAFW
#define LEAFW 4
#endif
#ifndef INTW
#define INTW LEAFW
#endif
typedef tparams<LEAFW, INTW> P;
typedef Tab<P> T;

enum OpKind { GET, PUT, REM, SCAN, RSCAN, TICK, NOP };
struct Op { OpKind k; int key; int n; };   // SCAN/RSCAN: n = how many entries to visit
// Records a scan: each entry is (key index << 32 | value).
// C08: the leaf versions a lookup or scan recorded
struct Seen { int n = 0; struct { T::leaf_type* l; uint64_t v; } e[32]; };
struct ScanRec {
    const std::vector<std::string>* keys;
    int limit, n = 0;
    uint64_t r[7];
    Seen* seen = nullptr;
    template <typename SS, typename K> void visit_leaf(const SS& ss, const K&, threadinfo&) {
        if (seen && seen->n < 32) { seen->e[seen->n].l = ss.node(); seen->e[seen->n++].v = ss.full_version_value(); }
    }
    bool visit_value(Str key, uint64_t v, threadinfo&) {
        uint64_t idx = 0xFF;
        for (size_t i = 0; i < keys->size(); ++i)
            if ((int) (*keys)[i].size() == key.len && !memcmp((*keys)[i].data(), key.s, key.len)) idx = i;
        r[n++] = idx << 32 | (uint32_t) v;
        return n < limit;
    }
};
typedef std::vector<Op> Prog;

struct TreeH : mc::Harness {
    std::vector<std::string> keys;         // alphabet, any order
    std::vector<int> pre;                  // >=0: insert key i; <0: remove key ~i
    std::vector<Prog> prog;
    std::vector<int> firstop;
    T* tab;
    int* ticking;
    bool ver = false; Seen* seen = nullptr;    // C08: one record per operation
    int leakcheck = 0;                     // 1: drain, destroy, drain; 2: destroy, drain
    size_t live0;
    threadinfo* ti[mc::MAXT + 1];
    std::vector<std::pair<int,int>> flat;  // op id -> (thread, index)

    void finalize() {
        nthreads = prog.size(); nops = 0;
        for (auto& p : prog) { firstop.push_back(nops); for (size_t i = 0; i < p.size(); ++i) { flat.push_back({(int) firstop.size() - 1, (int) i}); ++nops; } }
    }
    Str K(int i) const { return Str(keys[i].data(), keys[i].size()); }
    static uint64_t initval(int k) { return 100 + k; }
    static uint64_t opval(int id) { return 200 + id; }

    void setup() override {
        setenv("_", "valgrind", 1);
        globalepoch.store(1); active_epoch.store(1);
        ti[mc::MAXT] = threadinfo::make(threadinfo::TI_MAIN, -1);
        for (int t = 0; t < nthreads; ++t) ti[t] = threadinfo::make(threadinfo::TI_PROCESS, t);
        threadinfo& m = *ti[mc::MAXT];
        m.rcu_start();
        ticking = new int(0);
        if (ver) seen = new Seen[nops];
        live0 = mc::live_blocks();
        tab = new T;               // in the explored arena
        tab->t.initialize(m);
        uint64_t old;
        for (int x : pre) {
            if (x >= 0) tab->put(K(x), initval(x), old, m);
            else tab->remove(K(~x), old, m);
        }
        m.rcu_stop();
    }
    void body(int t) override {
        threadinfo& me = *ti[t];
        int id = firstop[t];
        for (const Op& o : prog[t]) {
            uint64_t r[2] = {0, 0};
            mc::op_begin(id);
            switch (o.k) {
            case GET: if (ver) {
                me.rcu_start();
                T::ucursor_type up(tab->t, K(o.key));
                r[0] = up.find_unlocked(me); r[1] = r[0] ? up.value() : 0;
                seen[id].n = 1; seen[id].e[0].l = up.node(); seen[id].e[0].v = up.full_version_value();
                me.rcu_stop();
                break;
            }
                me.rcu_start(); r[0] = tab->get(K(o.key), r[1], me); if (!r[0]) r[1] = 0; me.rcu_stop(); break;
            case PUT: me.rcu_start(); r[0] = tab->put(K(o.key), opval(id), r[1], me); me.rcu_stop(); break;
            case REM: me.rcu_start(); r[0] = tab->remove(K(o.key), r[1], me); me.rcu_stop(); break;
            case SCAN: case RSCAN: {
                ScanRec sr; sr.keys = &keys; sr.limit = o.n;
                if (ver) sr.seen = &seen[id];
                me.rcu_start();
                if (o.k == SCAN) tab->t.scan(K(o.key), true, sr, me);
                else tab->t.rscan(K(o.key), true, sr, me);
                me.rcu_stop();
                uint64_t rr[8]; rr[0] = sr.n;
                for (int i = 0; i < sr.n; ++i) rr[i + 1] = sr.r[i];
                mc::op_end(id, rr, sr.n + 1);
                ++id;
                continue;
            }
            case TICK:          // what the periodic epoch timer does; timers never overlap
                while (!bool_cmpxchg(ticking, 0, 1)) relax_fence();
                globalepoch.store(globalepoch.load() + 2);
                active_epoch.store(threadinfo::min_active_epoch());
                fence();
                *ticking = 0;
                break;
            case NOP: me.rcu_start(); me.rcu_stop(); break;
            }
            mc::op_end(id, r, 2);
            ++id;
        }
    }

    // ---- linearizability, decided per key (linearizability is local) ----------------
    // Every operation contributes at most one event per key: a point operation one on
    // its key, a scan one observation (found v / absent) for each key it must cover.
    struct M { bool in; uint64_t v; };
    struct Ev { int op; OpKind k; bool found; uint64_t v; };
    static bool lin(const std::vector<Ev>& e, uint32_t done, M cur, const M& fin) {
        if (done == (1u << e.size()) - 1) return cur.in == fin.in && (!cur.in || cur.v == fin.v);
        for (size_t i = 0; i < e.size(); ++i) {
            if (done >> i & 1) continue;
            bool ready = true;      // everything that finished before op i began is placed
            for (size_t j = 0; j < e.size(); ++j)
                if (!(done >> j & 1) && (mc::op(e[i].op).before >> e[j].op & 1)) ready = false;
            if (!ready || e[i].found != cur.in || (cur.in && e[i].v != cur.v)) continue;
            M nx = cur;
            if (e[i].k == PUT) nx = M{true, opval(e[i].op)};
            else if (e[i].k == REM) nx = M{false, 0};
            if (lin(e, done | 1u << i, nx, fin)) return true;
        }
        return false;
    }
    const char* check_history(const std::vector<M>& init, const std::vector<M>& fin) {
        std::vector<std::vector<Ev>> ev(keys.size());
        for (int i = 0; i < nops; ++i) {
            const mc::OpRec& r = mc::op(i);
            const Op& o = prog[flat[i].first][flat[i].second];
            if (o.k == GET || o.k == PUT || o.k == REM)
                ev[o.key].push_back(Ev{i, o.k, r.result[0] != 0, r.result[1]});
            else if (o.k == SCAN || o.k == RSCAN) {
                int n = r.result[0];
                std::string last = keys[o.key];
                std::vector<int> got(keys.size(), -1);
                for (int j = 0; j < n; ++j) {
                    unsigned k = r.result[j + 1] >> 32;
                    if (k >= keys.size()) return mc::msg("scan (op %d) returned a key that was never inserted", i);
                    int c = keys[k].compare(last);
                    if (o.k == RSCAN) c = -c;
                    if (c < 0 || (c == 0 && j > 0)) return mc::msg("scan (op %d) returned keys out of order:%s", i, hist().c_str());
                    last = keys[k]; got[k] = j;
                }
                for (size_t k = 0; k < keys.size(); ++k) {
                    bool inrange = o.k == SCAN ? keys[k] >= keys[o.key] : keys[k] <= keys[o.key];
                    if (n == o.n && got[k] < 0) inrange = inrange && (o.k == SCAN ? keys[k] <= last : keys[k] >= last);
                    if (inrange || got[k] >= 0) ev[k].push_back(Ev{i, o.k, got[k] >= 0, got[k] >= 0 ? (uint32_t) r.result[got[k] + 1] : 0});
                }
            }
        }
        for (size_t k = 0; k < keys.size(); ++k)
            if (!lin(ev[k], 0, init[k], fin[k])) return mc::msg("key k%zu: history not linearizable:%s; final %s", k, hist().c_str(), fin[k].in ? std::to_string(fin[k].v).c_str() : "absent");
        return nullptr;
    }
    // If a key's presence at the end differs from what a reader saw, one of the leaf versions the reader
    // recorded no longer validates.
    const char* check_versions(const std::vector<M>& fin) {
        for (int i = 0; i < nops; ++i) {
            const mc::OpRec& r = mc::op(i);
            const Op& o = prog[flat[i].first][flat[i].second];
            if (o.k != GET && o.k != SCAN && o.k != RSCAN) continue;
            bool changed = false;
            for (int j = 0; j < seen[i].n; ++j) changed = changed || seen[i].e[j].l->full_version_value() != seen[i].e[j].v;
            if (changed) continue;
            for (size_t k = 0; k < keys.size(); ++k) {
                bool in, found = false;
                if (o.k == GET) in = (int) k == o.key, found = r.result[0];
                else {
                    int n = r.result[0];
                    for (int j = 0; j < n; ++j) found = found || (r.result[j + 1] >> 32) == k;
                    in = o.k == SCAN ? keys[k] >= keys[o.key] : keys[k] <= keys[o.key];
                    if (n == o.n) { const std::string& last = keys[r.result[n] >> 32]; in = in && (o.k == SCAN ? keys[k] <= last : keys[k] >= last); }
                }
                if (in && found != fin[k].in) return mc::msg("k%zu was %s when op %d read it and is not now, yet every leaf version that op recorded still validates:%s", k, found ? "present" : "absent", i, hist().c_str());
            }
        }
        return nullptr;
    }
    std::string hist() const {
        std::string s;
        char b[100];
        for (int i = 0; i < nops; ++i) {
            const mc::OpRec& r = mc::op(i);
            const Op& o = prog[flat[i].first][flat[i].second];
            static const char* nm[] = {"get","put","rem","scan","rscan","tick","nop"};
            if (o.k == SCAN || o.k == RSCAN) {
                snprintf(b, sizeof b, " T%d:%s(k%d,%d)={", flat[i].first, nm[o.k], o.key, o.n); s += b;
                for (uint64_t j = 0; j < r.result[0] && j < 7; ++j) { snprintf(b, sizeof b, "%sk%d:%d", j ? "," : "", (int) (r.result[j + 1] >> 32), (int) r.result[j + 1]); s += b; }
                snprintf(b, sizeof b, "}after{%x}", r.before);
            } else if (o.k >= TICK) snprintf(b, sizeof b, " T%d:%s", flat[i].first, nm[o.k]);
            else snprintf(b, sizeof b, " T%d:%s(k%d)=%s:%d after{%x}", flat[i].first, nm[o.k], o.key, r.result[0] ? "found" : "absent", (int) r.result[1], r.before);
            s += b;
        }
        return s;
    }
    const char* check() override {
        threadinfo& m = *ti[mc::MAXT];
        m.rcu_start();
        std::vector<M> fin(keys.size()), init(keys.size(), M{false, 0});
        for (size_t k = 0; k < keys.size(); ++k) {
            uint64_t v = 0;
            fin[k].in = tab->get(K(k), v, m); fin[k].v = v;
        }
        for (int x : pre) { if (x >= 0) init[x] = M{true, initval(x)}; else init[~x].in = false; }
        if (const char* e = check_history(init, fin)) return e;
        if (ver) if (const char* e = check_versions(fin)) return e;
        // full scan agrees with the gets
        static Collect<P>::E store[64];
        Collect<P> c(store, 64);
        tab->t.scan(Str("", 0), true, c, m);
        std::map<std::string, uint64_t> want;
        for (size_t k = 0; k < keys.size(); ++k) if (fin[k].in) want[keys[k]] = fin[k].v;
        bool ok = (size_t) c.n == want.size();
        auto it = want.begin();
        for (int i = 0; ok && i < c.n; ++i, ++it)
            ok = std::string(store[i].k, store[i].len) == it->first && store[i].v == it->second;
        if (!ok) return mc::msg("final scan disagrees with point reads (%d of %zu keys):%s", c.n, want.size(), hist().c_str());
        // the structure is still usable: write and remove every key
        // (not before a leak check: point writes repair stale layer roots)
        for (size_t k = 0; k < keys.size() && !leakcheck; ++k) {
            uint64_t old, v;
            bool e = tab->put(K(k), 7, old, m);
            if (e != fin[k].in) return mc::msg("post-quiescence insert of k%zu wrong", k);
            if (!tab->get(K(k), v, m) || v != 7) return mc::msg("post-quiescence read of k%zu wrong", k);
        }
        for (size_t k = 0; k < keys.size() && !leakcheck; ++k) {
            uint64_t old, v;
            if (!tab->remove(K(k), old, m) || old != 7) return mc::msg("post-quiescence remove of k%zu wrong", k);
            if (tab->get(K(k), v, m)) return mc::msg("post-quiescence read of removed k%zu wrong", k);
        }
        m.rcu_stop();
        if (leakcheck) {
            if (leakcheck == 1) drain();
            m.rcu_start();
            tab->t.destroy(m);
            m.rcu_stop();
            drain();
            if (mc::live_blocks() != live0)
                mc::fail(mc::K_LEAK, "%ld block(s) never freed although the table was destroyed and every thread quiesced in %d later epochs:%s",
                         (long) (mc::live_blocks() - live0), DRAIN, hist().c_str());
        }
        return nullptr;
    }
    enum { DRAIN = 8 };
    // every thread passes through DRAIN more epochs
    void drain() {
        for (int i = 0; i < DRAIN; ++i) {
            globalepoch.store(globalepoch.load() + 2);
            active_epoch.store(threadinfo::min_active_epoch());
            for (int t = 0; t <= mc::MAXT; ++t)
                if (t < nthreads || t == mc::MAXT) { ti[t]->rcu_quiesce(); ti[t]->rcu_stop(); }
        }
    }
};

struct Shape { const char* name; std::vector<std::string> keys; std::vector<int> pre; std::vector<int> hot; };

// i-th filler key with prefix pre: fillers are two apart, so that F(pre, i, 1) lies between
static std::string F(const std::string& pre, int i, int off = 0) { return pre + char('0' + 2 * i + off); }

static std::vector<Shape> shapes() {
    std::vector<Shape> r;
    const int W = LEAFW, H = (LEAFW + 1) / 2;
    std::string p8 = "aaaaaaaa", q8 = "bbbbbbbb";
    r.push_back({"empty", {"a", "b"}, {}, {0, 1}});
    r.push_back({"one", {"a", "b", "c"}, {1}, {0, 1}});
    // n fillers inserted, then `del` removed; extra keys appended; hot = the listed indexes
    auto fill = [&](const char* name, const std::string& pre, int n, std::vector<int> del, std::vector<std::string> extra, std::vector<int> hot) {
        Shape s; s.name = name;
        for (int i = 0; i < n; ++i) { s.keys.push_back(F(pre, i)); s.pre.push_back(i); }
        for (int d : del) s.pre.push_back(~d);
        for (auto& x : extra) s.keys.push_back(x);
        s.hot = hot;
        r.push_back(s);
    };
    fill("full", "", W, {}, {F("", 0, -1), F("", 1, 1), F("", W, 0)}, {1, W - 1, W, W + 1, W + 2});
    fill("freed-slot", "", W, {1}, {F("", 1, 1)}, {0, 1, W});
    fill("almost-full", "", W - 1, {}, {F("", 0, 1), F("", W)}, {1, W - 1, W});
    fill("two-leaves", "", W + 1, {}, {F("", 0, -1)}, {0, H - 1, H, W});
    {   // right leaf of two holds a single key
        std::vector<int> d;
        for (int i = H; i < W; ++i) d.push_back(i);
        fill("lone-right", "", W + 1, d, {F("", W, 1)}, {H - 1, W, W + 1});
    }
    {   // middle leaf of three holds a single key; right leaf is nearly full
        std::vector<int> d;
        for (int i = H; i < W - 1; ++i) d.push_back(i);
        fill("lone-middle", "", 2 * W, d, {F("", W - 1, 1)}, {H - 1, W - 1, 2 * W - 1, 2 * W});
    }
    fill("three-level", "", 4 * W + 2, {}, {F("", 0, 1)}, {0, 2 * W, 4 * W + 1});
    {   // a leaf alone under its internode, holding one key: removing it collapses the path
        fill("lone-subtree", "", 4 * W + 2, {4 * W}, {F("", 4 * W, 1)}, {4 * W - 1, 4 * W + 1, 4 * W + 2});
    }
    {   // leftmost leaf of the second subtree holds one key: removing it rewrites an ancestor's bound
        std::vector<int> d;
        for (int i = 4 * W; i < 5 * W - 1; ++i) d.push_back(i);
        fill("redirect", "", 5 * W + 1, d, {F("", 5 * W - 1, 1)}, {4 * W - 1, 4 * W, 5 * W - 1, 5 * W + 1});
    }
    {   // same, and its only sibling holds one key too
        std::vector<int> d;
        for (int i = 4 * W; i < 5 * W - 1; ++i) d.push_back(i);
        for (int i = 5 * W + 1; i < 6 * W; ++i) d.push_back(i);
        fill("redirect2", "", 6 * W, d, {F("", 5 * W - 1, 1)}, {4 * W, 5 * W - 1, 5 * W, 6 * W});
    }
    {   // every leaf of a three-leaf tree holds one key
        std::vector<int> d;
        for (int i = 0; i < 3 * W; ++i) if (i % W) d.push_back(i);
        fill("sparse", "", 3 * W, d, {F("", W, -1), F("", W, 1)}, {0, W, 2 * W, 3 * W, 3 * W + 1});
    }
    r.push_back({"suffix", {p8 + "X", p8 + "Y", p8, p8 + "XX"}, {0}, {0, 1, 2}});
    r.push_back({"layer2", {p8 + "X", p8 + "Y", p8 + "Z"}, {0, 1}, {0, 1, 2}});
    r.push_back({"layer1", {p8 + "X", p8 + "Y", p8, "c"}, {0, 1, ~0}, {0, 1}});
    r.push_back({"deep", {p8 + q8 + "X", p8 + q8 + "Y", p8 + "c"}, {0}, {0, 1, 2}});
    fill("layer-full", p8, W, {}, {F(p8, W)}, {0, W - 1, W});
    {   // a two-leaf layer whose left and right leaves hold one key each
        std::vector<int> d;
        for (int i = 1; i < W; ++i) d.push_back(i);
        fill("layer-split", p8, W + 1, d, {F(p8, 0, 1)}, {0, W, W + 1});
    }
    {   // the leftmost leaf is empty, and stays
        std::vector<int> d;
        for (int i = 0; i < H; ++i) d.push_back(i);
        fill("left-empty", "", W + 1, d, {F("", 0, 1)}, {0, H, W + 1});
        fill("layer-left-empty", p8, W + 1, d, {F(p8, 0, 1), "c"}, {0, H, W + 2});
    }
    r.push_back({"bag", {p8 + "1", q8 + "22", "cccccccc333", "dddddddd4444"}, {0, 1}, {0, 1, 2}});
    auto L = [](char c, int n) { return std::string(8, c) + std::string(n, 'x'); };
    // suffix containers that have to grow: the live one is replaced under readers
    r.push_back({"bag-grow", {L('a', 60), L('b', 20), L('c', 120), L('d', 247)}, {0, 1}, {0, 2, 3}});
    {   // the right leaf owns an external suffix container and holds one key
        Shape s; s.name = "bag-right";
        for (int i = 0; i <= W; ++i) { s.keys.push_back(L('a' + 2 * i, 30)); s.pre.push_back(i); }
        s.keys.push_back(L('a' + 2 * W + 2, 150)); s.pre.push_back(W + 1);
        s.keys.push_back(L('a' + 2 * W + 1, 200));
        for (int i = H; i <= W; ++i) s.pre.push_back(~i);
        s.hot = {0, W + 1, W + 2};
        r.push_back(s);
    }
    return r;
}

static std::string opname(const Op& o) {
    static const char* nm[] = {"G","P","R","S","Z","T","N"};
    std::string s = nm[o.k];
    if (o.k < TICK) s += std::to_string(o.key);
    if (o.k == SCAN || o.k == RSCAN) s += "x" + std::to_string(o.n);
    return s;
}
static std::string progname(const std::vector<Prog>& p) {
    std::string s;
    for (auto& q : p) { s += s.empty() ? "" : "|"; for (auto& o : q) s += opname(o); }
    return s;
}

// Families of programs over the hot keys of a shape
static std::vector<std::vector<Prog>> family(const std::string& f, const Shape& s) {
    std::vector<Op> rd, wr, all, scans;
    for (int k : s.hot) { rd.push_back({GET, k, 0}); wr.push_back({PUT, k, 0}); wr.push_back({REM, k, 0}); }
    all = wr; all.insert(all.end(), rd.begin(), rd.end());
    std::vector<int> starts = s.hot;
    if (std::find(starts.begin(), starts.end(), 0) == starts.end()) starts.insert(starts.begin(), 0);
    for (int k : starts) for (int n : {7, 2}) { scans.push_back({SCAN, k, n}); scans.push_back({RSCAN, k, n}); }
    Op T{TICK, 0, 0}, N{NOP, 0, 0};
    std::vector<std::vector<Prog>> r;
    size_t nw = wr.size(), na = all.size();
    if (f == "1x1") { for (size_t i = 0; i < nw; ++i) for (size_t j = i; j < na; ++j) r.push_back({{wr[i]}, {all[j]}}); }
    else if (f == "1xg") { for (auto& a : wr) for (auto& b : rd) r.push_back({{a}, {b}}); }
    else if (f == "2xg") { for (auto& a : wr) for (auto& b : wr) for (auto& c : rd) r.push_back({{a, b}, {c}}); }
    else if (f == "1x1xg") { for (size_t i = 0; i < nw; ++i) for (size_t j = i; j < nw; ++j) for (auto& c : rd) r.push_back({{wr[i]}, {wr[j]}, {c}}); }
    else if (f == "2x1") { for (auto& a : wr) for (auto& b : wr) for (auto& c : all) r.push_back({{a, b}, {c}}); }
    else if (f == "1x1x1") { for (size_t i = 0; i < nw; ++i) for (size_t j = i; j < nw; ++j) for (size_t l = j; l < na; ++l) r.push_back({{wr[i]}, {wr[j]}, {all[l]}}); }
    // three writes, the first a removal: slots are freed and reused behind the reader's back
    else if (f == "3x1" || f == "3xs") { for (auto& a : wr) for (auto& b : wr) for (auto& c : wr) for (auto& d : f == "3x1" ? all : scans) if (a.k == REM && b.key != c.key && !(f == "3xs" && d.n == 2)) r.push_back({{a, b, c}, {d}}); }
    else if (f == "2x2") { for (auto& a : wr) for (auto& b : wr) for (auto& c : wr) for (auto& d : wr) r.push_back({{a, b}, {c, d}}); }
    else if (f == "1xgg") { for (auto& a : wr) for (auto& b : rd) for (auto& c : rd) r.push_back({{a}, {b, c}}); }
    else if (f == "2xgg") { for (auto& a : wr) for (auto& z : wr) for (auto& b : rd) for (auto& c : rd) r.push_back({{a, z}, {b, c}}); }
    else if (f == "1xs") { for (auto& a : wr) for (auto& c : scans) r.push_back({{a}, {c}}); }
    else if (f == "2xs") { for (auto& a : wr) for (auto& b : wr) for (auto& c : scans) r.push_back({{a, b}, {c}}); }
    else if (f == "1x1xs") { for (size_t i = 0; i < nw; ++i) for (size_t j = i; j < nw; ++j) for (auto& c : scans) r.push_back({{wr[i]}, {wr[j]}, {c}}); }
    // reclamation: a writer that later ticks and quiesces, a victim, and another tick
    else if (f == "rcu1") { for (auto& a : wr) for (auto& c : all) r.push_back({{a, T, N}, {c}, {T}}); }
    else if (f == "rcu1s") { for (auto& a : wr) for (auto& c : scans) r.push_back({{a, T, N}, {c}, {T}}); }
    else if (f == "rcu2") { for (auto& a : wr) for (auto& b : wr) for (auto& c : all) r.push_back({{a, b, T, N}, {c}, {T}}); }
    else if (f == "rcuseq") { for (auto& a : wr) for (auto& c : all) r.push_back({{a, T, T, N}, {c}}); }
    else if (f == "rcuseq2") { for (auto& a : wr) for (auto& b : wr) for (auto& c : all) r.push_back({{a, b, T, T, N}, {c}}); }
    else if (f == "rcuw") { for (auto& a : wr) for (auto& b : wr) for (auto& c : all) r.push_back({{a, T, T, N}, {b, T, T, c}}); }
    else { fprintf(stderr, "unknown family %s\n", f.c_str()); exit(2); }
    return r;
}
static std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> r; size_t a = 0;
    while (a <= s.size()) { size_t b = s.find(',', a); if (b == s.npos) b = s.size(); if (b > a) r.push_back(s.substr(a, b - a)); a = b + 1; }
    return r;
}

// --fam F[:bound],...   program families, each with an optional preemption bound
// --shape A,B           only these shapes        --kinds MASK
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    mc::Config cfg;
    std::string fam = "1x1", shape;
    int leak = 0; bool ver = false;
    for (int i = 1; i + 1 < argc; ++i) {
        if (!strcmp(argv[i], "--shape")) shape = "," + std::string(argv[i + 1]) + ",";
        if (!strcmp(argv[i], "--fam")) fam = argv[i + 1];
        if (!strcmp(argv[i], "--kinds")) cfg.kinds = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--ver")) ver = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--leak")) leak = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--max-exec")) cfg.max_exec = atoll(argv[i + 1]);
    }
    for (auto& f : split(fam)) {
        mc::Config c = cfg;
        std::string name = f;
        size_t colon = f.find(':');
        if (colon != f.npos) { name = f.substr(0, colon); c.bound = atoi(f.c_str() + colon + 1); }
        for (auto& s : shapes()) {
            if (!shape.empty() && shape.find("," + std::string(s.name) + ",") == shape.npos) continue;
            for (auto& p : family(name, s))
                sc.push_back({std::string(s.name) + ":" + progname(p), [s, p, leak, ver]() {
                    TreeH* h = new TreeH; h->leakcheck = leak; h->ver = ver; h->keys = s.keys; h->pre = s.pre; h->prog = p; h->finalize(); return h; }, c});
        }
    }
    return mc::drive(argc, argv, sc);
}
