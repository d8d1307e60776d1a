// C01/C02/C08: every operation sequence up to a depth over small key alphabets, on the real tree.
#include "treelib.hh"
#include "seq.hh"
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvtimestamp_t initial_timestamp = 0;
using Masstree::Str;
#ifndef LEAFW
#define LEAFW 3
#endif
#ifndef INTW
#define INTW LEAFW
#endif
#ifndef CONCUR
#define CONCUR true
#endif
#ifndef NVT
#define NVT uint32_t
#endif
#ifndef BOUNDM
#define BOUNDM bound_method_binary
#endif
struct P : public Masstree::nodeparams<LEAFW, INTW> {
    static constexpr bool concurrent = CONCUR;
    static constexpr int bound_method = BOUNDM;
    typedef NVT nodeversion_value_type;
    typedef uint64_t value_type;
    typedef Masstree::value_print<value_type> value_print_type;
    typedef threadinfo threadinfo_type;
};
typedef Tab<P> T;
typedef T::leaf_type leaf_t;
typedef std::string S;
enum { MAXK = 128, MAXD = 14, MAXL = 48 };

struct Alpha {                      // one alphabet
    S name;
    std::vector<S> keys;            // toggled keys
    std::vector<S> fixed;           // present throughout
    std::vector<S> probes;          // never present
    std::vector<int> pre;           // toggles performed during setup (after the fixed keys)
    bool abort_op = false, tick_op = false, same_op = true;
    int quick = 6, thorough = 7;
};
static int mode_scan = 0, mode_ver = 0;

struct Sys : seq::System {
    Alpha a; std::vector<int> prefix;
    std::vector<S> pad; std::vector<S> all;             // toggled, fixed, probes
    std::vector<int> order;         // indexes of `all` in key order
    int nt, n;
    struct St { bool in[MAXK]; uint64_t val[MAXK]; uint64_t next; int depth; int lasttoggle[MAXK]; bool observing; } st;
    struct Ob { leaf_t* l; T::nv_type v; };
    T* tab; threadinfo* ti;

    Str K(int i) const { return Str(pad[i].data(), all[i].size()); }   // masked comparisons may read up to 8 bytes further
    void setup() override {
        setenv("_", "valgrind", 1);
        globalepoch.store(1); active_epoch.store(1);
        threadinfo::allthreads = nullptr;
        ti = threadinfo::make(threadinfo::TI_MAIN, -1);
        seq::region(&globalepoch, sizeof globalepoch); seq::region(&active_epoch, sizeof active_epoch);
        seq::region(&threadinfo::allthreads, sizeof threadinfo::allthreads);
        all = a.keys; nt = all.size();
        for (auto& x : a.fixed) all.push_back(x);
        for (auto& x : a.probes) all.push_back(x);
        n = all.size();
        for (auto& x : all) pad.push_back(x + S(40, '\x5a'));
        if (n > MAXK) { fprintf(stderr, "alphabet too large\n"); _exit(3); }
        for (int i = 0; i < n; ++i) order.push_back(i);
        std::sort(order.begin(), order.end(), [this](int x, int y) { return all[x] < all[y]; });
        memset(&st, 0, sizeof st); st.next = 1000;
        ti->rcu_start();
        tab = new T; tab->t.initialize(*ti);
        ti->rcu_stop();
        for (size_t i = 0; i < a.fixed.size(); ++i) must(insert(nt + i));
        for (int x : a.pre) must(toggle(x));
        for (int o : prefix) { must(step(o)); if (!mode_ver) must(check()); }
        st.depth = 0; memset(st.lasttoggle, 0, sizeof st.lasttoggle);
        if (mode_ver) {
            st.observing = true;
            // records of a deeper step never outlive it, so they need not be saved and restored
            seq::in_ = false; seen = (Seen*) calloc(MAXD + 1, sizeof(Seen)); seq::in_ = true;
            observe(0);
        }
    }
    void must(const char* m) { if (m) SEQ_FAIL("while building the start state: %s", m); }
    int kinds() const { return 2 + a.abort_op; }
    int nops() const override { return a.keys.size() * kinds() + a.tick_op; }
    S opname(int o) const override {
        if (o == (int) a.keys.size() * kinds()) return "collect";
        static const char* nm[] = {"toggle:", "same:", "abort:"};
        return nm[o % kinds()] + seq::hex(a.keys[o / kinds()].size() > 24 ? a.keys[o / kinds()].substr(0, 10) + "~" + std::to_string(a.keys[o / kinds()].size()) : a.keys[o / kinds()]);
    }
    bool enabled(int o) override {
        if (o == (int) a.keys.size() * kinds()) return true;
        if (o % kinds() == 1) return a.same_op;
        if (o % kinds() == 2) return !st.in[o / kinds()];
        return true;
    }
    const char* insert(int k) {
        ti->rcu_start();
        const char* e = nullptr;
        uint64_t v = ++st.next;
        T::cursor_type lp(tab->t, K(k));
        // the version of the leaf that will be the original node
        T::ucursor_type up(tab->t, K(k));
        bool uf = up.find_unlocked(*ti);
        bool found = lp.find_insert(*ti);
        if (found != st.in[k] || uf != st.in[k]) e = seq::msg("insert of %s reports the key %s", seq::hex(all[k]).c_str(), found ? "present" : "absent");
        else if (found && lp.value() != st.val[k]) e = seq::msg("insert of %s sees value %d, not %d", seq::hex(all[k]).c_str(), (int) lp.value(), (int) st.val[k]);
        if (e) { lp.finish(0, *ti); return e; }
        if (!found) ti->observe_phantoms(lp.node());
        lp.value() = v;
        T::nv_type nv = lp.next_full_version_value(1);
        fence();
        lp.finish(1, *ti);
        if (mode_ver && !found) {
            if (lp.node()->full_version_value() != nv) e = seq::msg("next_full_version_value before an insert is not the version after it");
            // a reader that applies the cursor's report to what it observed must find it valid
            else if (up.node() == lp.original_node() && up.full_version_value() != lp.original_version_value()) e = seq::msg("the cursor's original version is not the one a reader saw just before");
            else if (lp.original_node()->full_version_value() != lp.updated_version_value()) e = seq::msg("the cursor's updated version is not the original node's current one");
            for (auto& x : lp.new_nodes()) if (!e && x.first->full_version_value() != x.second) e = seq::msg("the cursor's version of a new node is not its current one");
            if (!e) e = own_insert(lp);
        }
        st.in[k] = true; st.val[k] = v;
        ti->rcu_stop();
        return e;
    }
    const char* remove(int k) {
        ti->rcu_start();
        uint64_t old = 0;
        T::cursor_type lp(tab->t, K(k));
        bool found = lp.find_locked(*ti);
        if (found) old = lp.value();
        lp.finish(found ? -1 : 0, *ti);
        ti->rcu_stop();
        if (found != st.in[k]) return seq::msg("removal of %s reports the key %s", seq::hex(all[k]).c_str(), found ? "present" : "absent");
        if (found && old != st.val[k]) return seq::msg("removal of %s sees value %d, not %d", seq::hex(all[k]).c_str(), (int) old, (int) st.val[k]);
        st.in[k] = false;
        return nullptr;
    }
    const char* toggle(int k) { return st.in[k] ? remove(k) : insert(k); }
    const char* step(int o) override {
        ++st.depth;
        if (o == (int) a.keys.size() * kinds()) {
            for (int i = 0; i < 4; ++i) {
                globalepoch.store(globalepoch.load() + 2);
                active_epoch.store(threadinfo::min_active_epoch());
                ti->rcu_quiesce(); ti->rcu_stop();
            }
            return nullptr;
        }
        int k = o / kinds();
        const char* e;
        switch (o % kinds()) {
        case 0: --st.depth; e = toggle(k); ++st.depth; st.lasttoggle[k] = st.depth; return e;
        case 1: return st.in[k] ? insert(k) : remove(k);
        default: {          // find_insert, then give up
            ti->rcu_start();
            T::cursor_type lp(tab->t, K(k));
            bool found = lp.find_insert(*ti);
            lp.finish(0, *ti);
            ti->rcu_stop();
            return found != st.in[k] ? seq::msg("abandoned insert of %s reports the key %s", seq::hex(all[k]).c_str(), found ? "present" : "absent") : nullptr;
        }
        }
    }
    bool recurse(int o) override {
        if (o < (int) a.keys.size() * kinds() && o % kinds() == 1)
            return seq::diff_words(seq::cur->stack[seq::cur->ops.size() - 1], 6) > 5;  // value, model, counters
        return true;
    }
    // ---- observations of versions (C08) ----
    // One scan's record: the leaves it reported and the keys its answer covers.
    struct Range { int nl; bool covers[MAXK]; Ob leaf[MAXL]; };
    struct LeafRec {
        Sys* s; Range* g; int left, n = 0; int last = -1;
        template <typename SS, typename K> void visit_leaf(const SS& ss, const K&, threadinfo&) {
            Ob x = {ss.node(), ss.full_version_value()};
            for (int i = 0; i < g->nl; ++i) if (g->leaf[i].l == x.l && g->leaf[i].v == x.v) return;
            if (g->nl < MAXL) g->leaf[g->nl++] = x;
        }
        bool visit_value(Str key, uint64_t, threadinfo&) {
            for (int i = 0; i < s->n; ++i) if ((int) s->all[i].size() == key.len && !memcmp(s->all[i].data(), key.s, key.len)) last = i;
            return --left > 0;
        }
    };
    void range(Range& g, int start, bool rev, bool eq, int limit) {    // start < 0: everything
        g.nl = 0;
        LeafRec r; r.s = this; r.g = &g; r.left = limit;
        Str s0 = start < 0 ? (rev ? Str(endkey, sizeof endkey) : Str("", 0)) : K(start);
        if (rev) tab->t.rscan(s0, eq, r, *ti); else tab->t.scan(s0, eq, r, *ti);
        for (int j = 0; j < n; ++j) {
            bool in = true;
            if (start >= 0) { int c = all[j].compare(all[start]); in = c == 0 ? eq : rev ? c < 0 : c > 0; }
            if (r.left <= 0 && in) { int c = all[j].compare(all[r.last]); in = rev ? c >= 0 : c <= 0; }
            g.covers[j] = in;
        }
    }
    enum { MAXR = 2 * (2 * MAXK + 1) };
    struct Seen { Ob lookup[MAXK]; int nr; Range r[MAXR]; };
    Seen* seen;             // one per depth
    void observe(int d) {
        ti->rcu_start();
        Seen& o = seen[d];
        for (int k = 0; k < n; ++k) {
            T::ucursor_type up(tab->t, K(k));
            up.find_unlocked(*ti);
            o.lookup[k].l = up.node(); o.lookup[k].v = up.full_version_value();
        }
        o.nr = 0;
        for (int rev = 0; rev < 2; ++rev) {
            range(o.r[o.nr++], -1, rev, true, 1000);
            for (int k = 0; k < n; ++k)
                for (int limit : {1000, 1}) range(o.r[o.nr++], k, rev, limit == 1, limit);
        }
        ti->rcu_stop();
    }
    // With no one else writing, the cursor's report brings what the scan before the insert saw up to date:
    // a leaf seen both before and after either kept its version or is the original node.
    const char* own_insert(T::cursor_type& lp) {
        if (!st.observing) return nullptr;
        Range& b = seen[st.depth].r[0];
        static Range now; range(now, -1, false, true, 1000);
        for (int i = 0; i < now.nl; ++i) {
            bool known = false, ok = false;
            for (int j = 0; j < b.nl; ++j) if (b.leaf[j].l == now.leaf[i].l) {
                known = true;
                T::nv_type v = b.leaf[j].v;
                if (b.leaf[j].l == lp.original_node() && v == lp.original_version_value()) v = lp.updated_version_value();
                ok = ok || v == now.leaf[i].v;
            }
            for (auto& x : lp.new_nodes()) if (x.first == now.leaf[i].l) { known = true; ok = ok || x.second == now.leaf[i].v; }
            if (!known) return seq::msg("after an insert, a scan finds a leaf that was neither there before nor among the cursor's new nodes");
            if (!ok) return seq::msg("after an insert, a leaf's version is neither what a scan saw before nor what the cursor reports");
        }
        return nullptr;
    }
    const char* check_versions() {
        int e = st.depth;
        for (int d = 0; d < e; ++d) {
            Seen& o = seen[d];
            for (int k = 0; k < nt; ++k) if (st.lasttoggle[k] > d)
                if (o.lookup[k].l->full_version_value() == o.lookup[k].v)
                    return seq::msg("%s was inserted or removed since step %d, but the version a lookup of it recorded then still validates", seq::hex(all[k]).c_str(), d);
            for (int r = 0; r < o.nr; ++r) {
                int t = -1;
                for (int k = 0; k < nt && t < 0; ++k) if (st.lasttoggle[k] > d && o.r[r].covers[k]) t = k;
                if (t < 0) continue;
                bool changed = false;
                for (int j = 0; j < o.r[r].nl && !changed; ++j) changed = o.r[r].leaf[j].l->full_version_value() != o.r[r].leaf[j].v;
                if (!changed) return seq::msg("%s was inserted or removed since step %d, but every leaf version that a %s scan covering it recorded then still validates", seq::hex(all[t]).c_str(), d, r < o.nr / 2 ? "forward" : "reverse");
            }
        }
        observe(e);
        return nullptr;
    }
    // ---- oracle ----
    const char* check() override {
        if (mode_ver) return st.depth > 0 ? check_versions() : nullptr;
        ti->rcu_start();
        for (int k = 0; k < n; ++k) {
            uint64_t v = 0;
            bool f = tab->get(K(k), v, *ti);
            if (f != st.in[k]) return seq::msg("lookup of %s says %s", seq::hex(all[k]).c_str(), f ? "present" : "absent");
            if (f && v != st.val[k]) return seq::msg("lookup of %s gives %d, not %d", seq::hex(all[k]).c_str(), (int) v, (int) st.val[k]);
        }
        const char* e = nullptr;
        if (mode_scan) e = scans();
        else {          // one full scan in each direction
            for (int rev = 0; rev < 2 && !e; ++rev) e = scan1(rev ? Str(endkey, sizeof endkey) : Str("", 0), rev, true, 1000);
        }
        ti->rcu_stop();
        return e;
    }
    static const char endkey[16];
    struct Rec {
        Sys* s; int limit, n = 0; bool bad = false; int got[MAXK + 1]; uint64_t v[MAXK + 1];
        template <typename SS, typename K> void visit_leaf(const SS&, const K&, threadinfo&) {}
        bool visit_value(Str key, uint64_t x, threadinfo&) {
            int idx = -1;
            for (int i = 0; i < s->n; ++i) if ((int) s->all[i].size() == key.len && !memcmp(s->all[i].data(), key.s, key.len)) { idx = i; break; }
            if (n > MAXK - 1) { bad = true; return false; }
            got[n] = idx; v[n] = x; ++n;
            return n < limit;
        }
    };
    const char* scan1(Str start, bool rev, bool eq, int limit) {
        Rec r; r.s = this; r.limit = limit;
        int ret = rev ? tab->t.rscan(start, eq, r, *ti) : tab->t.scan(start, eq, r, *ti);
        S s0(start.s, start.len);
        int w = 0;
        const char* what = nullptr;
        for (int j = 0; j < n; ++j) {
            int k = order[rev ? n - 1 - j : j];
            if (!st.in[k]) continue;
            int c = all[k].compare(s0);
            if (rev) c = -c;
            if (c < 0 || (c == 0 && !eq)) continue;
            if (w >= limit) break;
            if (w >= r.n) { what = "missed a key"; break; }
            if (r.got[w] != k) { what = "returned the wrong key"; break; }
            if (r.v[w] != st.val[k]) { what = "returned the wrong value"; break; }
            ++w;
        }
        if (!what && (r.n != w || r.bad)) what = "returned too many keys";
        if (!what && ret != r.n) what = "returned the wrong count";
        if (what) {
            S g;
            for (int i = 0; i < r.n; ++i) g += (i ? "," : "") + (r.got[i] < 0 ? S("?") : seq::hex(all[r.got[i]].substr(0, 20)));
            return seq::msg("%s scan from '%s' (%s, limit %d) %s: got %s", rev ? "reverse" : "forward", seq::hex(s0).c_str(), eq ? "inclusive" : "exclusive", limit, what, g.c_str());
        }
        return nullptr;
    }
    const char* scans() {
        for (int k = 0; k < n; ++k)
            for (int rev = 0; rev < 2; ++rev)
                for (int eq = 0; eq < 2; ++eq)
                    for (int limit : {1000, 1, 2})
                        if (const char* e = scan1(K(k), rev, eq, limit)) return e;
        for (int rev = 0; rev < 2; ++rev)
            if (const char* e = scan1(rev ? Str(endkey, sizeof endkey) : Str("", 0), rev, true, 1000)) return e;
        return nullptr;
    }
};
const char Sys::endkey[16] = {'\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff','\xff'};

static S rep(char c, int n) { return S(n, c); }
static std::vector<Alpha> alphas() {
    std::vector<Alpha> r;
    const int W = LEAFW;
    const S p = rep('a', 8), q = rep('b', 8);
    auto add = [&](const char* name, std::vector<S> keys, std::vector<S> fixed, std::vector<S> probes, int quick, int thorough, bool ab = false, bool tick = false, std::vector<int> pre = {}) {
        Alpha a; a.name = name; a.keys = keys; a.fixed = fixed; a.probes = probes; a.quick = quick; a.thorough = thorough; a.abort_op = ab; a.tick_op = tick; a.pre = pre;
        std::vector<S> u = keys; u.insert(u.end(), fixed.begin(), fixed.end()); u.insert(u.end(), probes.begin(), probes.end());
        std::sort(u.begin(), u.end());
        if (std::unique(u.begin(), u.end()) != u.end()) { fprintf(stderr, "alphabet %s repeats a key\n", name); _exit(3); }
        if ((int) a.keys.size() + (int) fixed.size() + (int) probes.size() <= MAXK) r.push_back(a);
    };
    auto nums = [&](const S& pre, int lo, int hi, int st = 1, const S& post = "") { std::vector<S> v; for (int i = lo; i < hi; i += st) v.push_back(pre + char('0' + i) + post); return v; };
    // plain ordered keys: splits, removals, re-insertion
    if (W <= 4) {
        add("flat7", nums("", 1, 8), {}, {"", "0", "35", "9"}, 6, 7);
        add("flat-dense", nums("", 2, 16, 2), nums("", 1, 16, 2), {"0", "@", "35"}, 6, 7);
        add("flat-pre", nums("", 1, 13), {}, {"0"}, 4, 5, false, false, {0,1,2,3,4,5,6,7,8,9,10,11});
        add("flat-pre-sparse", nums("", 1, 13), {}, {"0"}, 4, 5, false, false, {0,1,2,3,4,5,6,7,8,9,10,11,1,2,4,5,7,8,10});
        add("flat-rev", nums("", 1, 13), {}, {"0"}, 4, 5, false, false, {11,10,9,8,7,6,5,4,3,2,1,0});
        add("flat-mid", nums("", 1, 13), {}, {"0"}, 4, 5, false, false, {0,11,1,10,2,9,3,8,4,7,5,6,0,11,5,6,3});
        add("layer-pre", nums(p, 1, 10), {"b"}, {p, "a"}, 4, 5, false, true, {0,1,2,3,4,5,6,7,8});
        add("layer-flat", nums(p, 1, 8), {}, {p, rep('a', 7), p + "11", q}, 5, 7, false, true);
    } else {
        add("flat-wide", {"50", "1a", "#", "A", "B", "m", "z"}, nums("", 1, 15), {"0"}, 5, 6);
        add("layer-wide", {p + "5", p + "50", p + "6", p + "A", p + "z", p, q}, nums(p + "x", 1, 15), {"0", p + "0"}, 4, 5, false, true);
        std::vector<S> z;
        for (int i = 0; i <= 8; ++i) z.push_back(S(i, '\0'));
        z.push_back(S(9, '\0')); z.push_back(S(16, '\0'));
        add("zeros", z, {}, {S(10, '\0'), S(17, '\0'), S(1, '\1'), S(7, '\0') + S(1, '\1')}, 5, 6);
        add("zeros-full", z, {"b", "c", "d", "e", "f", "g"}, {S(10, '\0')}, 4, 5, false, false, {0, 1, 2, 3, 4, 5, 6, 7, 8});
    }
    // lengths around the slice boundary (never more than W keys with one slice)
    if (W >= 4) add("boundary", {"", "a", rep('a', 7), p, p + S(1, '\0'), p + "a", p + rep('a', 7)}, {}, {rep('a', 6), rep('a', 17), "b"}, 6, 7, false, true);
    // every pair and triple of a large pool of keys around the slice boundaries
    if (W >= 4) {
        std::vector<S> pool;
        for (char c : {'a', '\0', '\xff'}) for (int len : {0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 25}) if (len || c == 'a') pool.push_back(rep(c, len));
        for (int len : {1, 7, 8, 9, 16, 17}) for (char c : {'\0', '\1', 'b', '\xff'}) { S x = rep('a', len); x.back() = c; pool.push_back(x); }
        for (int len : {9, 16, 17}) { S x = rep('a', len); x[7] = 'b'; pool.push_back(x); x[7] = '\0'; pool.push_back(x); }
        std::sort(pool.begin(), pool.end()); pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
        add("pool", pool, {}, {}, mode_scan ? 2 : 3, mode_scan ? 3 : 4);
        if (!r.empty() && r.back().name == "pool") r.back().same_op = false;
    }
    add("boundary-16", {p, p + p, p + p + S(1, '\0'), p + p + "a", p + q, p + rep('a', 7)}, {}, {rep('a', 7), rep('a', 14), p + p + p, p + q + "b"}, 6, 7, false, true);
    add("deep", {p + p + p + "1", p + p + p + "2", p + p + q + "1", p + p, p + q + "c", p}, {}, {p + p + p, q, p + p + p + "11"}, 5, 7, false, true);
    add("deep-twig", {p + p + p + p + "1", p + p + p + p + "2", p + p + p + q, q}, {}, {p + p + p + p, p + p}, 6, 8, false, true);
    add("signed", {"\x7f", "\x80", "\xff", rep('\xff', 8), rep('\xff', 9), rep('\x80', 8) + "\x01"}, {}, {"", rep('\xff', 16), "\x01"}, 6, 7);
    // key suffixes of growing sizes in one leaf
    add("suffix", {p + rep('x', 5), q + rep('y', 40), rep('c', 8) + rep('z', 90), rep('d', 8) + rep('w', 200), rep('e', 8) + rep('v', 17), rep('f', 8)}, {}, {p + rep('x', 4), p + rep('x', 6), q, q + rep('y', 41), rep('d', 8) + rep('w', 199)}, 6, 7);
    add("suffix-split", {p + "X1", q + "Y22", rep('c', 8) + "Z333", rep('d', 8) + "W4444", rep('e', 8) + rep('v', 60)}, {rep('b', 8) + "a", rep('d', 8) + "a"}, {p + "X", p + "X11"}, 6, 7);
    add("max", {rep('m', 255), rep('m', 254) + "n", rep('m', 254), rep('m', 248), rep('m', 247) + "n"}, {}, {rep('m', 249), rep('n', 255)}, 5, 6, false, true);
    // abandoned inserts
    if (W <= 4) {
        add("abort", nums("", 1, 6), {}, {"0"}, 4, 6, true);
        add("abort-split", nums("", 2, 11, 2), nums("", 1, 12, 2), {"0"}, 4, 5, true);
    }
    add("abort-layer", {p + "1", p + "2", p + p + "1", p}, {}, {"0", p + "3"}, 5, 6, true, true);
    return r;
}

int main(int argc, char** argv) {
    std::vector<seq::Scenario> sc;
    bool thorough = false; int shrink = 0; S only_alpha;
    for (int i = 1; i < argc; ++i) {
        S a = argv[i];
        if (a == "--scan") mode_scan = 1;
        if (a == "--ver") mode_ver = 1;
        if (a == "--thorough") thorough = true;
        if (a == "--shrink") shrink = atoi(argv[++i]);
        if (a == "--alpha") only_alpha = argv[++i];
    }
    for (auto& a : alphas()) {
        if (!only_alpha.empty() && a.name != only_alpha) continue;
        if (mode_ver && (a.abort_op || a.name == "max" || a.name == "pool")) continue;
        if (mode_ver) a.tick_op = false;
        int depth = a.name == "pool" ? (thorough ? a.thorough : a.quick) : std::max(2, (thorough ? a.thorough : a.quick) - shrink);
        Sys probe; probe.a = a;
        int no = probe.nops();
        for (int f = 0; f < no; ++f)
            for (int g = 0; g < no; ++g) {
                if (f % probe.kinds() == 1 && f < (int) a.keys.size() * probe.kinds()) continue;
                if (g % probe.kinds() == 1 && g < (int) a.keys.size() * probe.kinds()) continue;
                seq::Scenario s;
                s.name = a.name + "/" + probe.opname(f) + " " + probe.opname(g);
                s.depth = depth - 2;
                s.make = [a, f, g]() -> seq::System* { Sys* y = new Sys; y->a = a; y->prefix = {f, g}; return y; };
                sc.push_back(s);
            }
    }
    return seq::drive(argc, argv, sc);
}
