// C10: concurrent commands on rows.  A row is read all at once: every get and every scanned row is the row between
// two updates of it, never a mixture.  C09: timestamps follow the order of updates.
#include "rowlib.hh"
#include "mc.hh"
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvtimestamp_t initial_timestamp = 0;
volatile bool recovering = false;
kvepoch_t global_log_epoch;

enum Kind { GET, GET2, SCAN, SCAN2, RSCAN, PUT1, PUTS, PUTX, REPL, REM, TICK, NOP };   // PUT1: a short column 0; PUTS: columns 0 and 2; PUTX: columns 1 and 3
struct Op { Kind k; int key; };
typedef std::vector<Op> Prog;
static bool update(Kind k) { return k >= PUT1 && k <= REM; }
static std::vector<unsigned> colsof(Kind k) {
    auto mk = [](unsigned o, unsigned l) { return o + (l << 16); };
    if (ROW_STR) return k == PUT1 || k == REPL ? std::vector<unsigned>{0} : k == PUTS ? std::vector<unsigned>{0, mk(7, 3)} : std::vector<unsigned>{mk(3, 4), mk(11, 4)};
    return k == PUT1 || k == REPL ? std::vector<unsigned>{0} : k == PUTS ? std::vector<unsigned>{0, 2} : std::vector<unsigned>{1, 3};
}
static int lenof(Kind k, unsigned idx) { if (ROW_STR) return idx ? idx >> 16 : k == PUT1 ? 12 : 5; return idx == 0 ? 3 : idx == 2 ? 20 : 5; }
static std::vector<unsigned> getcols(Kind k) { if (k != GET2 && k != SCAN2) return {}; if (ROW_STR) return {(unsigned) (3 + (4 << 16)), 0}; return {2, 0}; }
// an observed row, as one word: for each column read its tag (0: empty, 255: torn), and how many there are
static uint64_t tagof(const char* s, int len) { if (!len) return 0; for (int i = 1; i < len; ++i) if (s[i] != s[0]) return 255; return (unsigned char) s[0]; }
static uint64_t hashs(const char* s, int n) { uint64_t h = 14695981039346656037ull; for (int i = 0; i < n; ++i) h = (h ^ (unsigned char) s[i]) * 1099511628211ull; return h | 1; }
static uint64_t digest(const std::vector<S>& v) {
    if (ROW_STR) { uint64_t h = v.size(); for (auto& x : v) h = h * 1000003 + hashs(x.data(), x.size()); return h; }
    uint64_t r = v.size(); for (size_t i = 0; i < v.size() && i < 7; ++i) r |= tagof(v[i].data(), v[i].size()) << (8 * i + 8); return r;
}
static uint64_t digest(const Ref& f, Kind k) { std::vector<S> v; auto g = getcols(k); if (g.empty()) v = f.c; else for (unsigned c : g) v.push_back(f.col(c)); return digest(v); }

struct RowH : mc::Harness {
    std::vector<S> keys; std::vector<int> pre; std::vector<Prog> prog; std::vector<int> firstop; std::vector<std::pair<int, int>> flat;
    RT* t; int* ticking; threadinfo* ti[mc::MAXT + 1]; query<row_type>* q[mc::MAXT + 1]; uint64_t initts[8];
    void finalize() { nthreads = prog.size(); nops = 0; for (auto& p : prog) { firstop.push_back(nops); for (size_t i = 0; i < p.size(); ++i) { flat.push_back({(int) firstop.size() - 1, (int) i}); ++nops; } } }
    Str K(int i) const { return Str(keys[i].data(), keys[i].size()); }
    static S val(int id, Kind k, unsigned idx) { return S(lenof(k, idx), char('A' + id)); }
    void setup() override {
        setenv("_", "valgrind", 1);
        globalepoch.store(1); active_epoch.store(1);
        for (int i = 0; i <= mc::MAXT; ++i) if (i < nthreads || i == mc::MAXT) { ti[i] = threadinfo::make(i == mc::MAXT ? threadinfo::TI_MAIN : threadinfo::TI_PROCESS, i); q[i] = new query<row_type>; }
        threadinfo& m = *ti[mc::MAXT]; m.rcu_start(); ticking = new int(0);
        t = new RT; t->initialize(m); memset(initts, 0, sizeof initts);
        for (int x : pre) { uint64_t r[3]; apply(x >= 0 ? PUTS : REM, x >= 0 ? x : ~x, 20 + (x >= 0 ? x : ~x), r, mc::MAXT); initts[x >= 0 ? x : ~x] = r[1]; }
        m.rcu_stop();
    }
    void apply(Kind k, int key, int id, uint64_t* r, int th) {
        threadinfo& me = *ti[th]; query<row_type>& qq = *q[th];
        if (k == REM) r[0] = qq.run_remove(*t, K(key), me);
        else if (k == REPL) { char b[8]; memset(b, 'A' + id, 8); r[0] = qq.run_replace(*t, K(key), Str(b, lenof(REPL, 0)), me) == Updated; }
        else {
            Json j[6]; int n = 0; char b[2][32];
            for (unsigned c : colsof(k)) { memset(b[n / 2], 'A' + id, 32); j[n] = Json((int) c); j[n + 1] = Json(String::make_stable(b[n / 2], lenof(k, c))); n += 2; }
            r[0] = qq.run_put(*t, K(key), j, j + n, me) == Updated;
        }
        if (k != REM || r[0]) { r[1] = qq.query_times().ts; r[2] = qq.query_times().prev_ts; }
    }
    static uint64_t obs(const Json& r, int from, int to) {
        if (ROW_STR) { uint64_t h = to - from; for (int i = from; i < to; ++i) h = h * 1000003 + (r[i].is_s() ? hashs(r[i].as_s().data(), r[i].as_s().length()) : hashs("", 0)); return h; }
        uint64_t w = to - from; for (int i = from; i < to && i < from + 7; ++i) if (r[i].is_s()) w |= tagof(r[i].as_s().data(), r[i].as_s().length()) << (8 * (i - from) + 8); return w;
    }
    static uint64_t obs1(const Json& r) { if (r.is_a()) return obs(r, 0, r.size()); Json x = Json::make_array(); x.push_back(r); return obs(x, 0, 1); }
    void body(int th) override {
        threadinfo& me = *ti[th]; query<row_type>& qq = *q[th]; int id = firstop[th];
        for (const Op& o : prog[th]) {
            uint64_t r[8] = {0, 0, 0, 0, 0, 0, 0, 0}; int nr = 3;
            mc::op_begin(id);
            if (o.k == TICK) { while (!bool_cmpxchg(ticking, 0, 1)) relax_fence(); globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); fence(); *ticking = 0; }
            else if (o.k == NOP) { me.rcu_start(); me.rcu_stop(); }
            else if (update(o.k)) { me.rcu_start(); apply(o.k, o.key, id, r, th); me.rcu_stop(); }
            else {
                me.rcu_start();
                Json j = Json::make_array(); j.push_back(Json(1)); j.push_back(Json(2)); j.push_back(Json(String::make_stable(K(o.key)))); if (o.k >= SCAN) j.push_back(Json(3)); for (unsigned c : getcols(o.k)) j.push_back(Json((int) c));
                if (o.k <= GET2) { qq.run_get(*t, j, me); r[0] = j.size() > 2; r[1] = obs(j, 2, j.size()); }
                else {
                    if (o.k == RSCAN) qq.run_rscan(*t, j, me); else qq.run_scan(*t, j, me);
                    nr = 1; for (int i = 2; i + 1 < j.size() && nr + 2 <= 8; i += 2) { uint64_t x = 99; for (size_t k = 0; k < keys.size(); ++k) if (j[i].as_s().length() == (int) keys[k].size() && !memcmp(j[i].as_s().data(), keys[k].data(), keys[k].size())) x = k; r[nr++] = x; r[nr++] = obs1(j[i + 1]); }
                    r[0] = (j.size() - 2) / 2;
                }
                me.rcu_stop();
            }
            mc::op_end(id, r, nr);
            ++id;
        }
    }
    struct Ev { int op; Kind k; bool found; uint64_t w; };
    struct M { Ref row; uint64_t ts, last; };
    bool lin(const std::vector<Ev>& e, uint32_t done, const M& cur, const M& fin) {
        if (done == (1u << e.size()) - 1) return cur.row.in == fin.row.in && cur.row.c == fin.row.c && (!cur.row.in || cur.ts == fin.ts);
        for (size_t i = 0; i < e.size(); ++i) {
            if (done >> i & 1) continue;
            bool ready = true;
            for (size_t j = 0; j < e.size(); ++j) if (!(done >> j & 1) && (mc::op(e[i].op).before >> e[j].op & 1)) ready = false;
            if (!ready || e[i].found != cur.row.in) continue;
            M nx = cur; Kind k = e[i].k;
            if (update(k)) {
                if (k == REM && !e[i].found) { if (lin(e, done | 1u << i, nx, fin)) return true; continue; }
                uint64_t ts = mc::op(e[i].op).result[1], prev = mc::op(e[i].op).result[2];
                if (ts <= cur.last || prev != (cur.row.in ? cur.ts : 0)) continue;
                nx.last = nx.ts = ts;
                if (k == REM) nx.row = Ref();
                else if (k == REPL) nx.row.replace(val(e[i].op, k, 0));
                else { Change c; for (unsigned x : colsof(k)) c.push_back({x, val(e[i].op, k, x)}); nx.row.put(c); }
            } else if (cur.row.in && e[i].w != digest(cur.row, k)) continue;
            if (lin(e, done | 1u << i, nx, fin)) return true;
        }
        return false;
    }
    const char* check() override {
        threadinfo& m = *ti[mc::MAXT]; m.rcu_start();
        std::vector<M> fin(keys.size()), init(keys.size());
        for (size_t k = 0; k < keys.size(); ++k) {
            init[k] = M{Ref(), initts[k], initts[k]}; fin[k] = M{Ref(), 0, 0};
            RT::unlocked_cursor_type up(*t, K(k));
            if (up.find_unlocked(m)) { fin[k].row.in = true; fin[k].ts = up.value()->timestamp(); for (int c = 0; c < up.value()->ncol(); ++c) fin[k].row.c.push_back(S(up.value()->col(c).s, up.value()->col(c).len)); }
        }
        for (int x : pre) { int k = x >= 0 ? x : ~x; if (x < 0) init[k].row = Ref(); else { Change c; for (unsigned i : colsof(PUTS)) c.push_back({i, val(20 + k, PUTS, i)}); init[k].row.put(c); } }
        std::vector<std::vector<Ev>> ev(keys.size());
        for (int i = 0; i < nops; ++i) {
            const mc::OpRec& r = mc::op(i); const Op& o = prog[flat[i].first][flat[i].second];
            if (o.k >= TICK) continue;
            if (o.k <= GET2 || update(o.k)) { ev[o.key].push_back(Ev{i, o.k, r.result[0] != 0, r.result[1]}); continue; }
            std::vector<int> got(keys.size(), -1);
            for (uint64_t j = 0; j < r.result[0] && j < 3; ++j) { uint64_t k = r.result[1 + 2 * j]; if (k >= keys.size() || got[k] >= 0) return mc::msg("a scan returned a wrong or repeated key:%s", hist().c_str()); got[k] = j; }
            bool full = r.result[0] >= 3; size_t last = full ? r.result[5] : 0;   // a scan that returned all it was asked for says nothing about keys after its last one
            for (size_t k = 0; k < keys.size(); ++k) if ((o.k == RSCAN ? keys[k] <= keys[o.key] : keys[k] >= keys[o.key]) && !(full && (o.k == RSCAN ? keys[k] < keys[last] : keys[k] > keys[last]))) ev[k].push_back(Ev{i, o.k, got[k] >= 0, got[k] >= 0 ? r.result[2 + 2 * got[k]] : 0});
        }
        for (size_t k = 0; k < keys.size(); ++k) if (!lin(ev[k], 0, init[k], fin[k])) return mc::msg("key k%zu: no order of the updates explains what was read and the timestamps given:%s", k, hist().c_str());
        m.rcu_stop();
        return nullptr;
    }
    S hist() const {
        static const char* nm[] = {"get", "get2", "scan", "scan2", "rscan", "put1", "puts", "putx", "replace", "remove", "tick", "nop"}; S s; char b[200];
        for (int i = 0; i < nops; ++i) { const mc::OpRec& r = mc::op(i); const Op& o = prog[flat[i].first][flat[i].second]; snprintf(b, sizeof b, " T%d:%s(k%d)=%llu,%llx,%llx after{%x}", flat[i].first, nm[o.k], o.key, (unsigned long long) r.result[0], (unsigned long long) r.result[1], (unsigned long long) r.result[2], r.before); s += b; }
        return s;
    }
};
struct Shape { const char* name; std::vector<S> keys; std::vector<int> pre, hot; };
static std::vector<Shape> shapes() {
    S p(8, 'a');
    return {{"empty", {"k"}, {}, {0}}, {"one", {"k"}, {0}, {0}}, {"two", {"j", "k"}, {0, 1}, {0, 1}}, {"gone", {"k"}, {0, ~0}, {0}},
            {"layer", {p + "1", p + "2"}, {0, 1}, {0}}, {"suffix", {p + "1", p + "2"}, {0}, {0, 1}},
            {"lone", {"3", "1", "2", "4"}, {1, 2, 0, 3, ~3}, {0, 3}}, {"lone-gone", {"3", "1", "2", "4"}, {1, 2, 0, 3, ~3, ~0}, {0}}};
}
static S progname(const std::vector<Prog>& p) { static const char* nm[] = {"G", "H", "S", "C", "Z", "1", "P", "X", "R", "D", "T", "N"}; S s; for (auto& q : p) { s += s.empty() ? "" : "|"; for (auto& o : q) { s += nm[o.k]; if (o.k < TICK) s += std::to_string(o.key); } } return s; }
static std::vector<std::vector<Prog>> family(const S& f, const Shape& s) {
    std::vector<Op> wr, rd; for (int k : s.hot) for (Kind x : {PUT1, PUTS, PUTX, REPL, REM}) wr.push_back({x, k});
    for (int k : s.hot) { rd.push_back({GET, k}); rd.push_back({GET2, k}); } rd.push_back({SCAN, s.hot[0]}); rd.push_back({SCAN2, s.hot[0]}); rd.push_back({RSCAN, s.hot.back()});
    std::vector<std::vector<Prog>> r; size_t n = wr.size(); Op T{TICK, 0}, N{NOP, 0};
    bool two = f == "1x1" || f == "2x1" || f == "2x2" || f == "1x1x1";
    if (f == "1x1") for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) r.push_back({{wr[i]}, {wr[j]}});
    else if (f == "1xr") for (auto& a : wr) for (auto& b : rd) r.push_back({{a}, {b}});
    else if (f == "1xrr") for (auto& a : wr) for (auto& b : rd) for (auto& c : rd) r.push_back({{a}, {b, c}});
    else if (f == "2x1") for (auto& a : wr) for (auto& b : wr) for (auto& c : wr) r.push_back({{a, b}, {c}});
    else if (f == "2xr") for (auto& a : wr) for (auto& b : wr) for (auto& c : rd) r.push_back({{a, b}, {c}});
    else if (f == "1x1xr") for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) for (auto& c : rd) r.push_back({{wr[i]}, {wr[j]}, {c}});
    else if (f == "1x1x1") for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) for (size_t l = j; l < n; ++l) r.push_back({{wr[i]}, {wr[j]}, {wr[l]}});
    else if (f == "rcu") for (auto& a : wr) for (auto& b : rd) r.push_back({{a, T, T, N}, {b}});
    else if (f == "rcu2") for (auto& a : wr) for (auto& c : wr) for (auto& b : rd) r.push_back({{a, c, T, T, N}, {b}});
    else { fprintf(stderr, "unknown family %s\n", f.c_str()); exit(2); }
    (void) two; return r;
}
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc; mc::Config cfg; S fam = "1x1", shape;
    for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--shape")) shape = "," + S(argv[i + 1]) + ","; if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; if (!strcmp(argv[i], "--kinds")) cfg.kinds = atoi(argv[i + 1]); }
    size_t a = 0;
    while (a <= fam.size()) {
        size_t b = fam.find(',', a); if (b == S::npos) b = fam.size(); S f = fam.substr(a, b - a); a = b + 1; if (f.empty()) continue;
        mc::Config c = cfg; size_t colon = f.find(':'); S name = f; if (colon != S::npos) { name = f.substr(0, colon); c.bound = atoi(f.c_str() + colon + 1); }
        for (auto& s : shapes()) { if (!shape.empty() && shape.find("," + S(s.name) + ",") == S::npos) continue;
            for (auto& p : family(name, s)) sc.push_back({S(s.name) + ":" + progname(p), [s, p]() { RowH* h = new RowH; h->keys = s.keys; h->pre = s.pre; h->prog = p; h->finalize(); return h; }, c}); }
    }
    return mc::drive(argc, argv, sc);
}
