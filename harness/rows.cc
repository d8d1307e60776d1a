// C10: rows and the commands on them; every sequence of puts, replaces and removals.  C09: per-key timestamps.
#include "rowlib.hh"
#include "seq.hh"
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvtimestamp_t initial_timestamp = 0;
volatile bool recovering = false;
kvepoch_t global_log_epoch;

// ---- every block handed out, with its size
struct Blk { void* p; size_t sz; int tag; bool retired; };
enum { MAXB = 4000 };
static struct { int n; const char* err; Blk b[MAXB]; } blk;
static Blk* findblk(void* p) { for (int i = blk.n - 1; i >= 0; --i) if (blk.b[i].p == p) return &blk.b[i]; return nullptr; }
extern "C" {
void mt_verif_relax(void) {}
void mt_verif_alloc(void* p, size_t sz, int tag) { if (blk.n == MAXB) { fprintf(stderr, "too many blocks\n"); _exit(3); } blk.b[blk.n++] = Blk{p, sz, tag, false}; }
void mt_verif_retire(void* p, size_t sz, int tag) {
    if (tag == -1) return;
    Blk* b = findblk(p);
    if (!b) blk.err = "memory retired that is not allocated"; else if (b->retired) blk.err = "memory retired twice"; else if (sz && b->sz != sz) blk.err = "memory retired with a size it was not allocated with"; else b->retired = true;
}
void mt_verif_free(void* p, size_t sz, int tag) {
    if (tag == -1) return;
    Blk* b = findblk(p);
    if (!b) { blk.err = "memory freed that is not allocated"; return; }
    if (sz && b->sz != sz) blk.err = "memory freed with a size it was not allocated with";
    *b = blk.b[--blk.n];
}
}
static int live_values() { int k = 0; for (int i = 0; i < blk.n; ++i) if ((blk.b[i].tag & 0xff00) == (memtag_value & 0xff00)) ++k; return k; }

static int mode_ts = 0;
struct OpDef { int kind, key, th; std::vector<std::pair<unsigned, int>> cols; S name; };      // kind 0 put, 1 replace, 2 remove, 3 collect
struct Alpha { S name; std::vector<S> keys; std::vector<int> pre; std::vector<OpDef> ops; int depth, tdepth; std::vector<std::vector<unsigned>> gets; };

struct Sys : public seq::System {
    Alpha a; std::vector<int> prefix;
    threadinfo* ti[3]; RT t; query<row_type>* q[2];
    std::vector<Ref> m; std::vector<kvtimestamp_t> last; int step_no = 0; bool done_ = false;
    std::vector<S> pad;
    Str K(int i) const { return Str(pad[i].data(), a.keys[i].size()); }
    void setup() override {
        setenv("_", "valgrind", 1);
        globalepoch.store(1); active_epoch.store(1); blk.n = 0; blk.err = nullptr;
        threadinfo::allthreads = nullptr;
        for (int i = 0; i < 2; ++i) ti[i] = threadinfo::make(threadinfo::TI_MAIN, -1 - i);
        seq::region(&globalepoch, sizeof globalepoch); seq::region(&active_epoch, sizeof active_epoch); seq::region(&threadinfo::allthreads, sizeof threadinfo::allthreads);
        seq::region(&blk, sizeof blk);
        for (int i = 0; i < 2; ++i) q[i] = new query<row_type>;
        t.initialize(*ti[0]);
        m.resize(a.keys.size()); last.assign(a.keys.size(), 0);
        for (auto& k : a.keys) pad.push_back(k + S(40, '\x5a'));
        for (int k : a.pre) { OpDef o; o.kind = m[k].in ? 2 : 1; o.key = k; o.th = 0; o.cols = {{0, 1}}; if (const char* e = run(o)) SEQ_FAIL("while building the start state: %s", e); }
        for (int o : prefix) { const char* e = step(o); if (!e) e = check(); if (e) SEQ_FAIL("in the prefix: %s", e); }
    }
    int nops() const override { return a.ops.size(); }
    S opname(int o) const override { return a.ops[o].name; }
    const char* err() { return blk.err; }
    S value(int len, unsigned idx) { S v; for (int i = 0; i < len; ++i) v += char('a' + (step_no * 5 + idx * 3 + i) % 26); return v; }
    const char* run(const OpDef& o) {
        threadinfo& me = *ti[o.th]; query<row_type>& qq = *q[o.th];
        ++step_no;
        if (o.kind == 3) { collect(); return err(); }
        me.rcu_start();
        Ref before = m[o.key]; row_type* old = nullptr;
        RT::unlocked_cursor_type up(t, K(o.key));
        if (up.find_unlocked(me)) old = up.value();
        kvtimestamp_t oldts = old ? old->timestamp() : 0;
        const char* e = nullptr;
        if (o.kind == 2) {
            bool r = qq.run_remove(t, K(o.key), me);
            if (r != m[o.key].in) e = seq::msg("the remove returned %d", r);
            if (r && !e) e = tstamp(o.key, qq, oldts);
            m[o.key] = Ref();
        } else if (o.kind == 1) {
            S v = value(o.cols[0].second, 0);
            result_t r = qq.run_replace(t, K(o.key), Str(v.data(), v.size()), me);
            if (r != (m[o.key].in ? Updated : Inserted)) e = seq::msg("the replace returned %d", (int) r);
            m[o.key].replace(v);
            if (!e) e = tstamp(o.key, qq, oldts);
        } else {
            Change ch; std::vector<Json> j; j.push_back(Json()); j.push_back(Json(6));   // as in a request: never read
            for (auto& c : o.cols) { ch.push_back({c.first, value(c.second, c.first)}); j.push_back(Json((int) c.first)); j.push_back(Json(String(ch.back().val.data(), ch.back().val.size()))); }
            result_t r = qq.run_put(t, K(o.key), j.data() + 2, j.data() + j.size(), me);
            if (r != (m[o.key].in ? Updated : Inserted)) e = seq::msg("the put returned %d", (int) r);
            m[o.key].put(ch);
            if (!e) e = tstamp(o.key, qq, oldts);
        }
        // a reader that still holds the old row sees it unchanged
        if (!e && old) { e = row_is(old, before); if (e) e = seq::msg("the row held by a reader changed: %s", e); if (!e && old->timestamp() != oldts) e = "the timestamp of a row held by a reader changed"; }
        me.rcu_stop();
        return e ? e : err();
    }
    const char* tstamp(int k, query<row_type>& qq, kvtimestamp_t oldts) {
        kvtimestamp_t ts = qq.query_times().ts, p = qq.query_times().prev_ts;
        if (last[k] && !circular_int<kvtimestamp_t>::less(last[k], ts)) return seq::msg("update of %s has timestamp %llu after one with %llu", seq::hex(a.keys[k]).c_str(), (unsigned long long) ts, (unsigned long long) last[k]);
        if (oldts && p != oldts) return seq::msg("the previous timestamp reported is %llu, not %llu", (unsigned long long) p, (unsigned long long) oldts);
        if (!oldts && p) return seq::msg("a previous timestamp %llu was reported for a new key", (unsigned long long) p);
        if (ts & 1) return "an odd timestamp";
        last[k] = ts;
        return nullptr;
    }
    void collect() {
        for (int i = 0; i < 3; ++i) {
            globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch());
            for (int j = 0; j < 2; ++j) { ti[j]->rcu_start(); ti[j]->rcu_quiesce(); ti[j]->rcu_stop(); }
        }
    }
    const char* step(int o) override { return run(a.ops[o]); }
    static const char* row_is(const row_type* r, const Ref& f) {
        if (r->ncol() != (int) f.c.size()) return seq::msg("the row has %d columns, not %zu", r->ncol(), f.c.size());
        for (unsigned i = 0; i < f.c.size() + 3; ++i) {
            if (ROW_STR && i) break;
            Str s = r->col(i); S w = f.col(i);
            if (s.len != (int) w.size() || memcmp(s.s, w.data(), w.size())) return seq::msg("column %u is '%s', not '%s'", i, seq::hex(S(s.s, s.len)).substr(0, 60).c_str(), seq::hex(w).substr(0, 60).c_str());
        }
        return nullptr;
    }
    static S show(const Json& j) { String s = j.unparse(); return S(s.data(), std::min<int>(s.length(), 200)); }
    static bool str_is(const Json& j, const S& w) { if (j.is_null()) return w.empty(); return j.is_s() && j.as_s().length() == (int) w.size() && !memcmp(j.as_s().data(), w.data(), w.size()); }
    const char* check() override {
        threadinfo& me = *ti[1]; query<row_type>& qq = *q[1];
        const char* e = nullptr;
        me.rcu_start();
        for (size_t k = 0; k < a.keys.size() && !e; ++k) {
            RT::unlocked_cursor_type up(t, K(k)); bool f = up.find_unlocked(me);
            if (f != m[k].in) { e = seq::msg("key %zu is %s", k, f ? "present" : "absent"); break; }
            if (f && (e = row_is(up.value(), m[k]))) break;
            if (f && up.value()->timestamp() != last[k]) { e = "the row's timestamp is not its update's"; break; }
            if (mode_ts) continue;
            if (f && (e = roundtrip(up.value(), m[k], me))) break;
            for (auto& g : a.gets) if (!e) e = get(qq, k, g, me);
            Str v; for (unsigned c : {0u, 1u, 3u}) { if (ROW_STR && c) c = (c << 16) | 1; bool r = qq.run_get1(t, K(k), c, v, me); if (r != m[k].in) e = "run_get1 reports the wrong presence"; else if (r && S(v.s, v.len) != m[k].col(c)) e = "run_get1 returns the wrong column"; if (e) break; }
        }
        if (!mode_ts) for (auto& g : a.gets) for (int rev = 0; rev < 2 && !e; ++rev) for (int n = 1; n <= 3 && !e; n += 2) e = scan(qq, g, rev, n, me);
        me.rcu_stop();
        return e ? e : err();
    }
    const char* get(query<row_type>& qq, int k, const std::vector<unsigned>& g, threadinfo& me) {
        Json r = Json::make_array(); r.push_back(Json(1)); r.push_back(Json(2)); r.push_back(Json(String(K(k).s, K(k).len))); for (unsigned c : g) r.push_back(Json((int) c));
        qq.run_get(t, r, me);
        std::vector<S> w; if (m[k].in) { if (g.empty()) w = m[k].c; else for (unsigned c : g) w.push_back(m[k].col(c)); }
        bool ok = r.size() == (int) w.size() + 2; for (size_t i = 0; ok && i < w.size(); ++i) ok = str_is(r[i + 2], w[i]);
        return ok ? nullptr : seq::msg("a get of %zu columns returned %s", g.size(), show(r).c_str());
    }
    const char* scan(query<row_type>& qq, const std::vector<unsigned>& g, bool rev, int n, threadinfo& me) {
        S from = rev ? S(10, '\xff') : S();
        Json r = Json::make_array(); r.push_back(Json(1)); r.push_back(Json(4)); r.push_back(Json(String(from.data(), from.size()))); r.push_back(Json(n)); for (unsigned c : g) r.push_back(Json((int) c));
        if (rev) qq.run_rscan(t, r, me); else qq.run_scan(t, r, me);
        std::vector<int> o; for (size_t i = 0; i < a.keys.size(); ++i) if (m[i].in) o.push_back(i);
        std::sort(o.begin(), o.end(), [&](int x, int y) { return rev ? a.keys[x] > a.keys[y] : a.keys[x] < a.keys[y]; });
        if ((int) o.size() > n) o.resize(n);
        bool ok = r.size() == (int) o.size() * 2 + 2;
        for (size_t i = 0; ok && i < o.size(); ++i) {
            std::vector<S> w; if (g.empty()) w = m[o[i]].c; else for (unsigned c : g) w.push_back(m[o[i]].col(c));
            ok = str_is(r[2 + 2 * i], a.keys[o[i]]);
            const Json& v = r[3 + 2 * i];
            if (w.size() == 1) ok = ok && str_is(v, w[0]);
            else if (w.empty()) ok = ok && (v.is_null() || v.size() == 0);
            else { ok = ok && v.size() == (int) w.size(); for (size_t c = 0; ok && c < w.size(); ++c) ok = str_is(v[c], w[c]); }
        }
        return ok ? nullptr : seq::msg("a %sscan of %d rows, %zu columns returned %s", rev ? "reverse " : "", n, g.size(), show(r).c_str());
    }
    // writing the row to a checkpoint and reading it back
    const char* roundtrip(row_type* r, const Ref& f, threadinfo& me) {
        StringAccum sa; msgpack::unparser<StringAccum> up(sa); up << 7; r->checkpoint_write(up); up << 9;
        String s = sa.take_string(); msgpack::parser p(s); int x = 0; p >> x; row_type* c = row_type::checkpoint_read(p, r->timestamp() + 2, me); int y = 0; p >> y;
        const char* e = row_is(c, f); if (!e && c->timestamp() != r->timestamp() + 2) e = "wrong timestamp"; if (!e && (x != 7 || y != 9)) e = "the parser is off";
        c->deallocate(me);
        return e ? seq::msg("read back from a checkpoint: %s", e) : err();
    }
    seq::u64 key() override { return 0; }
    const char* finish() override {
        if (mode_ts) return nullptr;
        for (size_t k = 0; k < a.keys.size(); ++k) if (m[k].in) { OpDef o; o.kind = 2; o.key = k; o.th = 0; if (const char* e = run(o)) return e; }
        collect();
        if (int n = live_values()) return seq::msg("%d blocks of row memory are left after everything was removed", n);
        return err();
    }
};
static S cname(const OpDef& o, const Alpha& a) {
    S s = o.kind == 0 ? "put" : o.kind == 1 ? "replace" : o.kind == 2 ? "remove" : "collect"; if (o.kind == 3) return s;
    if (a.keys.size() > 1) s += ":" + seq::hex(a.keys[o.key]);
    if (o.kind < 2) for (auto& c : o.cols) { char b[40]; if (ROW_STR) snprintf(b, 40, "/%u@%u+%d", c.first >> 16, c.first & 0xffff, c.second); else snprintf(b, 40, "/%u+%d", c.first, c.second); s += b; }
    if (o.th) s += "'";
    return s;
}
static std::vector<Alpha> alphas() {
    std::vector<Alpha> r;
    typedef std::vector<std::pair<unsigned, int>> C;
    auto mk = [](unsigned off, unsigned len) { return off + (len << 16); };
    if (!mode_ts) {
        std::vector<C> puts, few; std::vector<std::vector<unsigned>> gets;
        if (ROW_STR) {
            for (int l : {0, 1, 3, 17, 40}) puts.push_back({{0, l}});
            for (unsigned o : {0u, 2u, 20u}) for (int l : {1, 5, 30}) puts.push_back({{mk(o, l), l}});
            puts.push_back({{0, 4}, {mk(2, 1), 1}}); puts.push_back({{0, 2}, {mk(9, 2), 2}}); puts.push_back({{mk(3, 1), 1}, {mk(0, 2), 2}}); puts.push_back({{mk(30, 1), 1}, {mk(2, 4), 4}}); puts.push_back({});
            few = {{{0, 3}}, {{mk(2, 1), 1}}, {{mk(5, 4), 4}}, {{0, 8}, {mk(10, 1), 1}}};
            gets = {{}, {0}, {mk(0, 2)}, {mk(2, 3), mk(0, 1)}, {mk(50, 4), 0, mk(1, 100)}};
        } else {
            for (unsigned c : {0u, 1u, 3u}) for (int l : {0, 1, 16, 17, 60}) puts.push_back({{c, l}});
            for (auto v : {std::vector<unsigned>{0, 1}, {0, 2}, {1, 2, 4}, {0, 1, 2}}) for (int p = 0; p < 3; ++p) { C c; for (size_t i = 0; i < v.size(); ++i) c.push_back({v[i], p == 0 ? 1 : p == 1 ? (i ? 17 : 0) : (i == 1 ? 0 : 20 - i)}); puts.push_back(c); }
            puts.push_back({});
            few = {{{0, 1}}, {{1, 16}}, {{0, 0}, {2, 3}}, {{3, 5}}};
            gets = {{}, {0}, {1}, {2, 0}, {0, 3, 1, 9}};
        }
        Alpha x; x.name = "row"; x.keys = {"k"}; x.gets = gets; x.depth = 4; x.tdepth = 5;
        for (auto& p : puts) x.ops.push_back(OpDef{0, 0, 0, p});
        for (int l : {0, 3, 17}) x.ops.push_back(OpDef{1, 0, 0, {{0, l}}});
        x.ops.push_back(OpDef{2, 0, 0, {}});
        r.push_back(x);
        Alpha y; y.name = "rows"; y.keys = {"k", "a", "longer-key-12345", "longer-key-6"}; y.gets = gets; y.depth = 4; y.tdepth = 5;
        for (int k = 0; k < 4; ++k) { for (size_t i = 0; i < few.size(); ++i) if (k < 2 || i % 2) y.ops.push_back(OpDef{0, k, (int) i & 1, few[i]}); if (k) y.ops.push_back(OpDef{1, k, 1, {{0, 2}}}); y.ops.push_back(OpDef{2, k, 0, {}}); }
        y.ops.push_back(OpDef{3, 0, 0, {}});
        r.push_back(y);
        std::vector<C> lp = ROW_STR ? std::vector<C>{{{0, 5}}, {{0, 100000}}, {{mk(65535, 3), 3}}, {{mk(2, 30000), 30000}}, {{mk(40000, 30000), 30000}, {mk(70, 2), 2}}}
                                    : std::vector<C>{{{0, 5}}, {{0, 30000}}, {{1, 30000}}, {{1000, 3}}, {{255, 1}, {256, 2}}, {{0, 32767}}, {{2, 0}}};
        Alpha l; l.name = "long"; l.keys = {"k"}; l.gets = {{}, {0}, {1}, {0, 3, 1, 9}, {1000, 0}}; if (ROW_STR) l.gets = {{}, {0}, {mk(65530, 30)}}; l.depth = 4; l.tdepth = 5;
        for (auto& p : lp) l.ops.push_back(OpDef{0, 0, 0, p});
        l.ops.push_back(OpDef{1, 0, 0, {{0, 20000}}}); l.ops.push_back(OpDef{2, 0, 0, {}});
        r.push_back(l);
        Alpha o = l; o.name = "long-over"; o.ops.clear(); o.depth = 2;      // rows of more than 65535 bytes
        for (auto& p : std::vector<C>{{{0, 40000}}, {{1, 40000}}, {{2, 65536}}, {{3, 70000}}}) o.ops.push_back(OpDef{0, 0, 0, p});
        o.ops.push_back(OpDef{1, 0, 0, {{0, 65536}}}); o.ops.push_back(OpDef{1, 0, 0, {{0, 65530}}}); o.ops.push_back(OpDef{2, 0, 0, {}});
        r.push_back(o);
    } else {
        auto ops = [](Alpha& x, size_t movable) { for (size_t k = 0; k < movable; ++k) for (int th = 0; th < 2; ++th) { x.ops.push_back(OpDef{1, (int) k, th, {{0, 1}}}); x.ops.push_back(OpDef{2, (int) k, th, {}}); } x.ops.push_back(OpDef{3, 0, 0, {}}); };
        auto add = [&](const char* n, std::vector<S> keys, size_t movable, std::vector<int> pre, int d, int td) { Alpha x; x.name = n; x.keys = keys; x.pre = pre; x.depth = d; x.tdepth = td; ops(x, movable); r.push_back(x); };
        const S p(8, 'a');
        add("ts-one", {"k"}, 1, {}, 7, 9);
        add("ts-flat", {"1", "2", "3", "4"}, 4, {}, 5, 6);
        add("ts-flat-pre", {"2", "4", "6", "1", "3", "5", "7", "8"}, 3, {3, 4, 5, 6, 7, 0, 1, 2}, 6, 7);
        add("ts-flat-gone", {"2", "4", "6", "1", "3", "5", "7", "8"}, 4, {0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2}, 5, 6);
        add("ts-layer", {p + "1", p + "2", p, "b"}, 3, {3}, 5, 6);
        add("ts-layer-deep", {p + p + "1", p + p + "2", p + "1", "b"}, 3, {}, 5, 6);
        add("ts-layer-split", {p + "2", p + "5", p + "1", p + "3", p + "4", "b"}, 3, {0, 1, 2, 3, 4, 5}, 6, 7);
        add("ts-layer-pre", {p + "1", p + "2", "b"}, 2, {0, 1, 2}, 6, 8);
        add("ts-layer-deep-pre", {p + p + "1", p + p + "2", "b"}, 2, {0, 1, 2}, 6, 8);
        add("ts-layer-split-pre", {p + "1", p + "4", p + "2", p + "3", "b"}, 2, {0, 2, 3, 1, 4, 2, 3}, 6, 8);
        add("ts-three-leaves", {"3", "5", "7", "1", "2", "4", "6", "8", "9"}, 3, {3, 4, 0, 5, 1, 6, 2, 7, 8, 5, 6}, 6, 7);
    }
    for (auto& x : r) for (auto& o : x.ops) o.name = cname(o, x);
    return r;
}
int main(int argc, char** argv) {
    bool thorough = false; int shrink = 0; S only;
    for (int i = 1; i < argc; ++i) { S a = argv[i]; if (a == "--ts") mode_ts = 1; if (a == "--thorough") thorough = true; if (a == "--shrink") shrink = atoi(argv[++i]); if (a == "--alpha") only = argv[++i]; }
    std::vector<seq::Scenario> sc;
    for (auto& a : alphas()) {
        if (only.empty() ? a.name == "long-over" : a.name != only) continue;
        int d = std::max(2, (thorough ? a.tdepth : a.depth) - shrink), no = a.ops.size();
        for (int f = 0; f < no; ++f) for (int g = 0; g < no; ++g) {
            seq::Scenario s; s.name = a.name + "/" + a.ops[f].name + " " + a.ops[g].name; s.depth = d - 2;
            s.make = [a, f, g]() -> seq::System* { Sys* y = new Sys; y->a = a; y->prefix = {f, g}; return y; };
            sc.push_back(s);
        }
    }
    return seq::drive(argc, argv, sc);
}
