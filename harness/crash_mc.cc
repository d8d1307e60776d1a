// Crash exploration of the real server on the simulated operating system (mc/sim.hh).
// A state is a disk image plus the set of contents recovery may legitimately produce from it.
// A transition boots the real mtd on the image, checks what it recovered, drives requests at it, and stops
// the machine at every file-system operation, in every way the unsynced writes may have reached the disk.
#include "simdrive.hh"
using namespace sim;
using drv::choose; using drv::trace;

typedef std::vector<std::string> Row;
typedef std::map<std::string, Row> Model;
enum { Cmd_Get = 2, Cmd_Scan = 4, Cmd_Put = 6, Cmd_Replace = 8, Cmd_Remove = 10, Cmd_Checkpoint = 12 };
enum { R_INSERTED = 1, R_UPDATED = 2 };
struct Op { int client, kind; std::string key; std::vector<std::pair<int, std::string>> cols; };
struct Spec {
    std::vector<Op> ops; int rounds = 0, tail = 0, stalls = 0; int torn = 0, emit = 1, recemit = 0, perms = 0, ordered = 0, breaks = 0, ckpt = 0, ckstep = 0, slots = 0, settle = 0, pre = 0, ckperm = 0, early = 0;
};
struct Job {
    int nlogs = 2; u64 time = 0; Image im; std::vector<Model> allowed; std::vector<Spec> todo; std::string trace; int rec_depth = 0; int nck = 0;
    double ckint = 0;
};
// ---- serialization
struct W { std::string s; W& i(u64 v) { s.append((char*) &v, 8); return *this; } W& t(const std::string& x) { i(x.size()); s += x; return *this; } };
struct Rd { const std::string& s; size_t p = 0; Rd(const std::string& x) : s(x) {} u64 i() { u64 v; memcpy(&v, &s[p], 8); p += 8; return v; } std::string t() { size_t n = i(); std::string x = s.substr(p, n); p += n; return x; } };
static void put(W& w, const Image& m) { w.i(m.size()); for (auto& p : m) w.t(p.first).t(p.second); }
static void put(W& w, const Model& m) { w.i(m.size()); for (auto& p : m) { w.t(p.first).i(p.second.size()); for (auto& c : p.second) w.t(c); } }
static Model get_model(Rd& r) { Model m; size_t n = r.i(); while (n--) { std::string k = r.t(); Row row; size_t c = r.i(); while (c--) row.push_back(r.t()); m[k] = row; } return m; }
static void put(W& w, const Spec& s) { w.i(s.ops.size()); for (auto& o : s.ops) { w.i(o.client).i(o.kind).t(o.key).i(o.cols.size()); for (auto& c : o.cols) w.i(c.first).t(c.second); }
    for (int v : {s.rounds, s.tail, s.stalls, s.torn, s.emit, s.recemit, s.perms, s.ordered, s.breaks, s.ckpt, s.ckstep, s.slots, s.settle, s.pre, s.ckperm, s.early}) w.i((u64) (int64_t) v); }
static Spec get_spec(Rd& r) { Spec s; size_t n = r.i(); while (n--) { Op o; o.client = r.i(); o.kind = r.i(); o.key = r.t(); size_t c = r.i(); while (c--) { int i = r.i(); o.cols.push_back({i, r.t()}); } s.ops.push_back(o); }
    for (int* v : {&s.rounds, &s.tail, &s.stalls, &s.torn, &s.emit, &s.recemit, &s.perms, &s.ordered, &s.breaks, &s.ckpt, &s.ckstep, &s.slots, &s.settle, &s.pre, &s.ckperm, &s.early}) *v = (int64_t) r.i(); return s; }
static std::string pack(const Job& j) { W w; w.i(j.nlogs).i(j.time).i(j.rec_depth).i(j.nck).i((u64) j.ckint); put(w, j.im); w.i(j.allowed.size()); for (auto& m : j.allowed) put(w, m); w.i(j.todo.size()); for (auto& s : j.todo) put(w, s); w.t(j.trace); return w.s; }
static Job unpackj(const std::string& b) { Rd r(b); Job j; j.nlogs = r.i(); j.time = r.i(); j.rec_depth = r.i(); j.nck = r.i(); j.ckint = r.i(); size_t n = r.i(); while (n--) { std::string k = r.t(); j.im[k] = r.t(); } n = r.i(); while (n--) j.allowed.push_back(get_model(r)); n = r.i(); while (n--) j.todo.push_back(get_spec(r)); j.trace = r.t(); return j; }
static u64 key_of(const Job& j) { W w; w.i(j.nlogs).i(j.rec_depth).i(j.nck); put(w, j.im); w.i(j.allowed.size()); for (auto& m : j.allowed) put(w, m); w.i(j.todo.size()); for (auto& s : j.todo) put(w, s); return drv::hash(w.s); }

static std::string show(const std::string& s) { std::string o; for (unsigned char c : s) { if (c < 33 || c > 126) o += fmt("\\%02x", c); else o += c; } return s.size() > 24 ? o.substr(0, 24) + ".." : o; }
static std::string show(const Model& m) { std::string o = "{"; for (auto& p : m) { if (o.size() > 1) o += ' '; o += show(p.first) + "="; for (size_t i = 0; i < p.second.size(); ++i) o += (i ? "," : "") + show(p.second[i]); } return o + "}"; }
static std::string show(const Op& o) { std::string s; s = o.kind == Cmd_Put ? "put" : o.kind == Cmd_Replace ? "replace" : o.kind == Cmd_Remove ? "remove" : o.kind == Cmd_Checkpoint ? "checkpoint" : "?"; s += fmt("@%d", o.client); if (o.kind != Cmd_Checkpoint) s += " " + show(o.key); for (auto& c : o.cols) s += fmt(" %d:", c.first) + show(c.second); return s; }

// ---- reference semantics
static int64_t apply(Model& m, const Op& o) {
    if (o.kind == Cmd_Put) { bool had = m.count(o.key); Row& r = m[o.key]; for (auto& c : o.cols) { if ((int) r.size() <= c.first) r.resize(c.first + 1); r[c.first] = c.second; } return had ? R_UPDATED : R_INSERTED; }
    if (o.kind == Cmd_Replace) { bool had = m.count(o.key); m[o.key] = Row(1, o.cols[0].second); return had ? R_UPDATED : R_INSERTED; }
    if (o.kind == Cmd_Remove) return m.erase(o.key);
    return 0;
}

// ---- one session
static Job J; static Spec S;
static std::vector<Model> states;       // contents after 0, 1, ... requests of this session
struct Pending { u64 since; std::set<int> seen; int rounds; };
static std::vector<Pending> pend; static u64 seq; static std::map<int, u64> cyc_start;
static const int DURABLE_ROUNDS = 4;
static bool in_recovery; static std::vector<Job> rec_jobs;

static size_t durable() { size_t k = 0; while (k < pend.size() && pend[k].rounds >= DURABLE_ROUNDS) ++k; return k; }
static void cycle_done(int log) {
    ++seq;
    for (auto& p : pend) { if (cyc_start[log] < p.since) continue; p.seen.insert(log); if ((int) p.seen.size() == J.nlogs) { p.rounds++; p.seen.clear(); p.since = seq; } }
}
static void emit_images() {
    drv::add(drv::sh->transitions);
    Job n; n.nlogs = J.nlogs; n.time = now_us; n.nck = J.nck; n.ckint = J.ckint; n.rec_depth = in_recovery ? J.rec_depth + 1 : 0;
    if (!in_recovery) { for (size_t k = durable(); k < states.size(); ++k) if (n.allowed.empty() || !(n.allowed.back() == states[k])) n.allowed.push_back(states[k]); n.todo.assign(J.todo.begin() + 1, J.todo.end()); }
    else n.todo = S.recemit == 2 ? J.todo : std::vector<Spec>(J.todo.begin(), J.todo.begin() + 1);
    if (in_recovery && S.recemit != 2) { Spec c; c.recemit = n.rec_depth < 2 ? 1 : 0; n.todo.assign(1, c); }
    std::string last = events.empty() ? "nothing" : describe(events.back());
    std::map<int, u64> un = unsynced(); std::vector<int> us; for (auto& p : un) us.push_back(p.first);
    std::vector<size_t> cuts(1, events.size());
    size_t mm = meta_min(); for (size_t i = events.size(); i-- > 0; ) if (meta(events[i]) && i > mm) cuts.push_back(i ? i - 1 : 0);
    auto out = [&](const CrashPolicy& c, const std::string& how) {
        n.im = crash_image(c); n.trace = trace + "; CRASH after " + last + " (" + how + ")";
        if (in_recovery) { rec_jobs.push_back(n); return; }
        if (drv::seen(key_of(n))) { drv::add(drv::sh->dedup); return; }
        drv::add(drv::sh->states); drv::emit(pack(n));
    };
    if (us.size() > 3) us.resize(3);
    for (size_t mc : cuts) for (unsigned mask = 0; mask < (1u << us.size()); ++mask) {
        CrashPolicy c; c.mcut = mc; c.dflt = NEVER; for (size_t i = 0; i < us.size(); ++i) if (!(mask >> i & 1)) c.keep[us[i]] = 0;
        out(c, fmt("metadata up to %zu/%zu, data mask %u", mc, events.size(), mask));
    }
    if (S.torn) for (size_t i = 0; i < us.size(); ++i) for (int others = 0; others < (us.size() > 1 ? 2 : 1); ++others) for (u64 b = 0; b <= un[us[i]]; ++b) for (int z = 0; z < 2; ++z) {
        CrashPolicy c; c.mcut = events.size(); c.dflt = others ? 0 : NEVER; c.keep[us[i]] = b; if (z) c.zero.insert(us[i]);
        out(c, fmt("%llu of %llu bytes of %s%s", (unsigned long long) b, (unsigned long long) un[us[i]], path_of(us[i]).c_str(), z ? ", rest zeros" : ""));
    }
}
static bool all_up() { Fiber* m = find(K_MAIN, -1); if (!m || m->st != ACCEPT) return false; for (int i = 0; i < J.nlogs; ++i) { Fiber* u = find(K_UDP, i); if (!u || u->st != RECV) return false; } for (int i = 0; i < J.nlogs; ++i) { Fiber* l = find(K_LOG, i); if (!l || l->st != SLEEP) return false; } return true; }

static void recover_phase(const std::vector<int>& perm) {
    std::vector<std::string> args = {"mtd", "--logdir=/vfs/l", "--ckpdir=/vfs/c", fmt("-j%d", J.nlogs)};
    if (J.ckint) args.push_back(fmt("--checkpoint=%g", J.ckint));
    boot(args);
    for (int guard = 0; !all_up(); ++guard) {
        if (guard > 20000) drv::violation("recovery makes no progress");
        Fiber* pick = nullptr;
        for (auto* f : fibers) if (f->kind != K_LOG && ready(f)) { pick = f; break; }
        if (!pick) for (int p : perm) { Fiber* f = find(K_LOG, p); if (f && ready(f)) { pick = f; break; } }
        if (!pick) {
            u64 w = NEVER; for (auto* f : fibers) if ((f->st == SLEEP || f->st == COND) && f->wake < w) w = f->wake;
            if (w == NEVER) drv::violation("recovery is stuck: every thread waits");
            now_us = std::max(now_us, w); continue;
        }
        if (pick->st == LOCK && mutex_owner.count(pick->cond)) { bool any = false; for (auto* f : fibers) if (f != pick && ready(f) && f->st != LOCK) { resume(f); any = true; break; } if (!any) drv::violation("recovery is stuck on a mutex"); continue; }
        run_to_block(pick);
    }
}
static Val request(int client, const Pack& p) {
    Fiber* u = find(K_UDP, client); u->inbox.push_back(p.s); u->replied = false; run_to_block(u);
    if (u->st != RECV) drv::violation(fmt("a request did not finish: client %d is in state %d", client, u->st));
    Val v; if (!u->replied || unpack(u->outbox, 0, v) != u->outbox.size() || v.t != 'a') drv::violation("a request got no well-formed reply");
    return v;
}
static Model dump(int client) {
    Pack p; p.arr(4).i(1).i(Cmd_Scan).str("").i(100000);
    Val v = request(client, p); Model m;
    if (v.a.size() < 2 || !v.a[0].is(1) || !v.a[1].is(Cmd_Scan + 1) || v.a.size() % 2) drv::violation("bad scan reply");
    for (size_t i = 2; i + 1 < v.a.size(); i += 2) {
        Row r; if (v.a[i + 1].t == 's') r.push_back(v.a[i + 1].s); else for (auto& x : v.a[i + 1].a) r.push_back(x.s);
        if (m.count(v.a[i].s)) drv::violation("scan returned key " + show(v.a[i].s) + " twice");
        m[v.a[i].s] = r;
    }
    return m;
}
static void issue(const Op& o) {
    trace += "; " + show(o);
    Pack p;
    if (o.kind == Cmd_Checkpoint) { p.arr(2).i(1).i(o.kind); request(o.client, p); return; }
    if (o.kind == Cmd_Put) { p.arr(3 + 2 * o.cols.size()).i(1).i(o.kind).str(o.key); for (auto& c : o.cols) p.i(c.first).str(c.second); }
    else if (o.kind == Cmd_Replace) p.arr(4).i(1).i(o.kind).str(o.key).str(o.cols[0].second);
    else p.arr(3).i(1).i(o.kind).str(o.key);
    Val v = request(o.client, p);
    Model m = states.back(); int64_t want = apply(m, o);
    if (v.a.size() != 3 || v.a[2].i != want) drv::violation(fmt("%s answered %lld, expected %lld", show(o).c_str(), (long long) (v.a.size() > 2 ? v.a[2].i : -99), (long long) want));
    states.push_back(m); pend.push_back({++seq, {}, 0});
}
static std::set<Fiber*> stalled; static int stall_budget;
static bool maybe_stall(Fiber* f) {
    if (stall_budget <= 0 || choose(2) == 1) return false;
    --stall_budget; stalled.insert(f); trace += fmt("; log %d hangs%s%s", f->idx, f->st == FSP ? " before " : "", f->st == FSP ? f->at : ""); return true;
}
static void log_cycle(int i) {
    Fiber* f = find(K_LOG, i); if (stalled.count(f)) return;
    if (f->st == SLEEP) { if (maybe_stall(f)) return; now_us = std::max(now_us, f->wake); cyc_start[i] = ++seq; trace += fmt("; L%d", i); }
    do { resume(f); if (f->st == FSP && maybe_stall(f)) return; } while (f->st == FSP);
    cycle_done(i);
}
static bool ck_ready(Fiber* f) { return f->kind == K_CKP && ready(f) && f->st != LOCK; }
static void ck_name() { int n = 0; for (auto* f : fibers) if (f->kind == K_OTHER) { f->kind = K_CKP; f->idx = n++; } }
// advance checkpoint threads by file-system operations; which one and whether is a choice when S.ckstep
static int ck_budget;                   // times the checkpointer may be held back
static void ck_steps() {
    for (int guard = 0; guard < 400; ++guard) {
        std::vector<Fiber*> r; for (auto* f : fibers) if (ck_ready(f)) r.push_back(f);
        if (r.empty()) { for (auto* f : fibers) if (f->kind == K_CKP && f->st == LOCK && !mutex_owner.count(f->cond)) { run_to_block(f); } r.clear(); for (auto* f : fibers) if (ck_ready(f)) r.push_back(f); if (r.empty()) return; }
        if (ck_budget > 0 && choose(2) == 0) { --ck_budget; trace += "; C pauses"; return; }
        int k = 0; if (S.ckperm && r.size() > 1) k = choose(r.size());
        trace += fmt("; C%d%s%s", r[k]->idx, r[k]->st == FSP ? ":" : "", r[k]->st == FSP ? r[k]->at : "");
        if (r[k]->st == FSP) { resume(r[k]); }      // executes the operation, stops at the next
        else resume(r[k]);
    }
}
static void run_job(const std::string& blob) {
    J = unpackj(blob); trace = J.trace; now_us = J.time ? J.time + 1000000 : now_us;
    if (J.todo.empty()) J.todo.push_back(Spec());
    S = J.todo[0];
    drv::add(drv::sh->executions);
    on_death = [](const char* w) { drv::violation(std::string("the server died: ") + w); };
    mount(J.im);
    trace += J.trace.empty() ? "boot" : "; REBOOT";
    std::vector<int> perm; for (int i = 0; i < J.nlogs; ++i) perm.push_back(i);
    if (S.perms) {
        std::vector<std::vector<int>> ps; std::vector<int> p = perm; do ps.push_back(p); while (std::next_permutation(p.begin(), p.end()));
        perm = ps[choose(ps.size())];
        if (!std::is_sorted(perm.begin(), perm.end())) { trace += " (replay order"; for (int x : perm) trace += fmt(" %d", x); trace += ")"; }
    }
    in_recovery = true; rec_jobs.clear();
    on_fs = [] { if (S.recemit) emit_images(); };
    recover_phase(perm);
    ck_name();
    in_recovery = false;
    drv::add(drv::sh->checks);
    Model got = dump(0);
    if (getenv("SIM_STDERR")) dprintf(2, "JOB %s => %s of %zu\n", trace.c_str(), show(got).c_str(), J.allowed.size());
    if (!J.allowed.empty() && std::find(J.allowed.begin(), J.allowed.end(), got) == J.allowed.end()) {
        std::string m = "recovered " + show(got) + ", expected one of"; for (auto& a : J.allowed) m += " " + show(a);
        drv::violation(m);
    }
    for (auto& n : rec_jobs) { n.allowed.assign(1, got); if (drv::seen(key_of(n))) { drv::add(drv::sh->dedup); continue; } drv::add(drv::sh->states); drv::emit(pack(n)); }
    if (S.rounds == 0 && S.ops.empty()) return;
    states.assign(1, got);
    stall_budget = S.stalls; ck_budget = S.ckstep;
    if (S.pre) {                        // let every log write its first records undisturbed
        on_fs = nullptr;
        for (int r = 0; r < S.pre; ++r) for (int i = 0; i < J.nlogs; ++i) { int b = stall_budget; stall_budget = 0; log_cycle(i); stall_budget = b; }
    }
    on_fs = [] { if (S.emit) emit_images(); };
    if (J.ckint || S.early) { u64 w = now_us; for (auto* f : fibers) if (f->kind == K_CKP && f->st == SLEEP) w = std::max(w, f->wake); now_us = w; int s = ck_budget; ck_budget = 0; ck_steps(); ck_budget = s; }
    size_t next = 0; bool rev = S.ordered ? false : J.nlogs > 1 && choose(2) == 1;
    if (rev) trace += "; reversed";
    for (int r = 0; r < S.rounds; ++r) {
        for (int k = 0; k < J.nlogs; ++k) {
            if (S.ckpt) ck_steps();
            if (S.settle) { if (k == 0) { if (next < S.ops.size() && r >= 1 && (!S.breaks || (S.breaks >> (r - 1) & 1) == 0 || true)) {
                    // one request per round, or several when the break mask says they share an epoch
                    do { issue(S.ops[next++]); } while (next < S.ops.size() && S.ops[next].kind != Cmd_Checkpoint && (next > 30 || !(S.breaks >> (next - 1) & 1)));
                } } }
            else while (next < S.ops.size() && (S.slots == 0 || r * J.nlogs + k < S.slots) && choose(2) == 0) { issue(S.ops[next++]); if (S.ckpt) ck_steps(); }
            log_cycle(rev ? J.nlogs - 1 - k : k);
        }
        if (S.tail && next == S.ops.size() && !S.settle) { static int left = S.tail; if (left-- == 0) break; }
    }
    if (S.ckpt) ck_steps();
    if (next < S.ops.size()) return;    // not all requests placed: covered by shorter programs
    drv::add(drv::sh->outcomes);
    // clean stop: the process ends, the machine does not
    emit_images();
    if (!(drv::sh->nsample & ~7u) && drv::mix(now_us + next + seq) % 64 == 0) drv::send('S', trace);
}

// ---- families
static Op P(int c, const char* k, int col, const char* v) { return {c, Cmd_Put, k, {{col, v}}}; }
static Op P2(int c, const char* k, const char* v0, const char* v1) { return {c, Cmd_Put, k, {{0, v0}, {1, v1}}}; }
static Op RP(int c, const char* k, const char* v) { return {c, Cmd_Replace, k, {{0, v}}}; }
static Op RM(int c, const char* k) { return {c, Cmd_Remove, k, {}}; }
static Op CK(int c) { return {c, Cmd_Checkpoint, "", {}}; }

static std::vector<drv::Scen> scens;
static void add(const std::string& name, const Job& j) { scens.push_back({name, pack(j)}); }
static std::vector<std::vector<int>> tuples(int base, int n) { std::vector<std::vector<int>> r; std::vector<int> t(n, 0); for (;;) { r.push_back(t); int i = n - 1; while (i >= 0 && ++t[i] == base) t[i--] = 0; if (i < 0) break; } return r; }
static int optv(int argc, char** argv, const char* n, int d) { for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return atoi(argv[i + 1]); return d; }

int main(int argc, char** argv) {
    std::string fam = "epoch"; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--fam")) fam = argv[i + 1];
    int nops = optv(argc, argv, "--ops", 3), rounds = optv(argc, argv, "--rounds", 5), stalls = optv(argc, argv, "--stalls", 1), nl = optv(argc, argv, "--logs", 2), sess = optv(argc, argv, "--sessions", 1);
    int pre = optv(argc, argv, "--pre", 1), ops2 = optv(argc, argv, "--ops2", fam == "data" ? 0 : 2), stalls2 = optv(argc, argv, "--stalls2", 1), rounds2 = optv(argc, argv, "--rounds2", 4), recemit = optv(argc, argv, "--recemit", 0), tail = optv(argc, argv, "--tail", 3), torn = optv(argc, argv, "--torn", 0), slots = optv(argc, argv, "--slots", 0), big = optv(argc, argv, "--big", 0);
    static const char* KEY[] = {"a", "b", "c", "d", "e", "f"}; static const char* VAL[] = {"1", "2", "3", "4", "5", "6"};
    if (fam == "epoch") {
        // which log each request goes to, where it falls among the loggers' cycles, one logger hanging anywhere
        for (auto& t : tuples(nl, nops)) {
            Job j; j.nlogs = nl; std::string nm = "epoch";
            Spec s; s.rounds = rounds; s.stalls = stalls; s.pre = pre; s.tail = tail; s.torn = torn; s.slots = slots;
            for (int i = 0; i < nops; ++i) { s.ops.push_back(P(t[i], KEY[i], 0, big ? std::string(300, VAL[i][0]).c_str() : VAL[i])); nm += fmt(" %d", t[i]); }
            if (sess == 1) { j.todo = {s}; Spec c; c.recemit = recemit; j.todo.push_back(c); add(nm, j); }
            else for (auto& t2 : tuples(nl, ops2)) {
                Spec s2; s2.rounds = rounds2; s2.stalls = stalls2; s2.ordered = 1; s2.tail = tail; std::string nm2 = nm + " /";
                for (int i = 0; i < ops2; ++i) { s2.ops.push_back(P(t2[i], KEY[nops + i], 0, VAL[nops + i])); nm2 += fmt(" %d", t2[i]); }
                j.todo = {s, s2, Spec()}; add(nm2, j);
            }
        }
    } else if (fam == "data") {
        // one key, one log per request, every order of replaying the logs
        for (auto& t : tuples(5, nops)) for (int br = 0; br < (1 << (nops - 1)); ++br) {
            Job j; j.nlogs = nops; Spec s; s.settle = 1; s.breaks = br; s.rounds = nops + 6; s.ordered = 1; s.emit = recemit; std::string nm = "data";
            for (int i = 0; i < nops; ++i) { int c = i; std::string v = VAL[i]; Op o; switch (t[i]) { case 0: o = P(c, "k", 0, v.c_str()); break; case 1: o = P(c, "k", 1, v.c_str()); break; case 2: o = P2(c, "k", v.c_str(), (v + v).c_str()); break; case 3: o = RP(c, "k", v.c_str()); break; default: o = RM(c, "k"); } s.ops.push_back(o); nm += " " + show(o); }
            Spec c; c.perms = 1;
            if (!ops2) { j.todo = {s, c}; add(nm + fmt(" breaks %d", br), j); continue; }
            for (int k2 = 0; k2 < 5; ++k2) for (int c2 = 0; c2 < nops; ++c2) {   // then one more request after recovery, and again
                Spec s2 = c; s2.settle = 1; s2.rounds = 8; s2.ordered = 1; s2.emit = 0; Op o; switch (k2) { case 0: o = P(c2, "k", 0, "x"); break; case 1: o = P(c2, "k", 1, "x"); break; case 2: o = P2(c2, "k", "x", "xx"); break; case 3: o = RP(c2, "k", "x"); break; default: o = RM(c2, "k"); }
                s2.ops = {o}; j.todo = {s, s2, c}; add(nm + fmt(" breaks %d / ", br) + show(o), j);
            }
        }
    } else if (fam == "ckpt") {
        // checkpoints at any point among the requests, their file operations interleaved with the loggers
        int ncks = optv(argc, argv, "--cks", 1), ckstep = optv(argc, argv, "--ckstep", 1), after = optv(argc, argv, "--after", 1);
        for (auto& t : tuples(nl, nops)) for (auto& cp : tuples(nops + 1, ncks)) {
            if (!std::is_sorted(cp.begin(), cp.end())) continue;
            Job j; j.nlogs = nl; std::string nm = "ckpt";
            Spec s; s.rounds = rounds; s.stalls = stalls; s.pre = pre; s.tail = tail; s.slots = slots; s.ckpt = 1; s.ckstep = ckstep; s.torn = torn; s.ckperm = optv(argc, argv, "--ckperm", 0); s.early = optv(argc, argv, "--early", 1);
            size_t c = 0; for (int i = 0; i <= nops; ++i) { while (c < cp.size() && cp[c] == i) { s.ops.push_back(CK(0)); nm += " CK"; ++c; } if (i < nops) { s.ops.push_back(P(t[i], KEY[i % 3], i / 3, VAL[i])); nm += fmt(" %d", t[i]); } }
            j.todo = {s}; Spec cc; cc.recemit = recemit; cc.perms = 1; j.todo.push_back(cc);
            add(nm, j);
        }
    } else if (fam == "ckdata") {
        // one key updated, removed and put back around a checkpoint
        int ckstep = optv(argc, argv, "--ckstep", 2);
        for (auto& t : tuples(10, nops)) for (int cp = 0; cp <= nops; ++cp) {
            Job j; j.nlogs = 2; Spec s; s.rounds = nops + 8; s.ordered = 1; s.emit = 0; s.ckpt = 1; s.early = 1; s.ckstep = ckstep; s.slots = slots ? slots : 6; std::string nm = "ckdata";
            for (int i = 0; i <= nops; ++i) {
                if (i == cp) { s.ops.push_back(CK(0)); nm += " CK"; }
                if (i == nops) break;
                int c = t[i] & 1; std::string v = VAL[i]; Op o; switch (t[i] >> 1) { case 0: o = P(c, "k", 0, v.c_str()); break; case 1: o = P(c, "k", 1, v.c_str()); break; case 2: o = P2(c, "k", v.c_str(), (v + v).c_str()); break; case 3: o = RP(c, "k", v.c_str()); break; default: o = RM(c, "k"); }
                s.ops.push_back(o); nm += " " + show(o);
            }
            Spec c; c.perms = 1; j.todo = {s, c}; add(nm, j);
        }
    } else if (fam == "pivot") {
        // the checkpointing threads divide the keys; what they wrote is all that recovery gets
        int full = optv(argc, argv, "--full", 0);
        static const int NS[] = {0, 1, 2, 3, 5, 9, 14, 15, 16, 17, 20, 24, 31, 40, 60};
        auto key = [&](int shape, int i) -> std::string {
            switch (shape) {
            case 0: return fmt("k%02d", i);
            case 1: return fmt("longish-prefix-%02d", i);                       // all in one deeper layer
            case 2: { std::string k(2, 0); k[0] = (char) (i * 37); k[1] = (char) (255 - i); if (i % 3 == 0) k += std::string("\0\"\\\n\xc3\x28", 6); return k; }     // any bytes
            case 3: return std::string(i % 4 * 8, 'p') + fmt("%02d", i);        // several layers
            default: return std::string(fmt("%02d", i)) + std::string(253, 'x'); // longest keys
            }
        };
        for (int th = 1; th <= 5; ++th) for (int shape = 0; shape < 5; ++shape) for (int n : NS) for (int rem = 0; rem < (n >= 2 ? full ? n : 5 : 1); ++rem) {
            Job j; j.nlogs = th; Spec s; s.settle = 1; s.rounds = 14; s.ordered = 1; s.emit = 0; s.ckpt = 1; s.early = 1;
            for (int i = 0; i < n; ++i) s.ops.push_back(P(i % th, "", 0, VAL[i % 6])), s.ops.back().key = key(shape, i);
            std::set<std::string> dup; s.ops.erase(std::remove_if(s.ops.begin(), s.ops.end(), [&](const Op& o) { return !dup.insert(o.key).second; }), s.ops.end());
            std::vector<std::string> ks(dup.begin(), dup.end()); int m = ks.size(), lo = 0, hi = 0;
            if (full) { lo = rem; hi = std::min(m, rem + m / 2); } else switch (rem) { case 1: hi = m; break; case 2: hi = m / 2; break; case 3: lo = m / 2; hi = m; break; case 4: lo = m / 4; hi = m - m / 4; break; }
            for (int i = lo; i < hi; ++i) { s.ops.push_back(RM(0, "")); s.ops.back().key = ks[i]; }
            s.ops.push_back(CK(0)); Spec c; c.perms = 0; j.todo = {s, c};
            add(fmt("pivot %d threads, key shape %d, %d keys, removed [%d,%d)", th, shape, m, lo, hi), j);
        }
    } else if (fam == "phantom") {
        // keys that share a layer, put and removed from different logs, replayed in either order
        static const char* const SETS[][2] = {{"k", "l"}, {"prefix00", "prefix00a"}, {"prefix00a", "prefix00b"}, {"", "prefix00prefix11a"}};
        for (int set = 0; set < 4; ++set) for (auto& t : tuples(8, nops)) {
            Job j; j.nlogs = 2; Spec s; s.settle = 1; s.rounds = nops + 6; s.ordered = 1; s.emit = 0; std::string nm = "phantom";
            for (int i = 0; i < nops; ++i) { int c = t[i] & 1, k = t[i] >> 1 & 1; Op o = t[i] & 4 ? RM(c, SETS[set][k]) : P(c, SETS[set][k], 0, VAL[i]); s.ops.push_back(o); nm += " " + show(o); }
            s.breaks = (1 << (nops - 1)) - 1 & optv(argc, argv, "--breaks", 0);
            Spec c; c.perms = 1; j.todo = {s, c}; add(nm, j);
        }
    } else if (fam == "leaf") {
        // leaves that empty and go away
        for (int n : {1, 8, 15, 16, 17, 24}) for (int lo = 0; lo < n; ++lo) for (int hi = lo + 1; hi <= n; ++hi) for (int back : {lo, (lo + hi) / 2, hi - 1}) for (int who = 0; who < 4; ++who) {
            if (!optv(argc, argv, "--full", 0) && (hi - lo) % 4 != n % 4 && lo && hi < n) continue;
            Job j; j.nlogs = 2; Spec s; s.settle = 1; s.rounds = 8; s.ordered = 1; s.emit = 0;
            auto key = [&](int i) { return std::string(fmt("%s%02d", who & 2 ? "longish-prefix-" : "k", i)); };
            for (int i = 0; i < n; ++i) s.ops.push_back(P(0, key(i).c_str(), 0, "1"));
            for (int i = lo; i < hi; ++i) s.ops.push_back(RM(0, key(i).c_str()));
            s.ops.push_back(P(1, key(back).c_str(), 0, "2"));
            if (who & 1) s.ops.push_back(RM(1, key(back).c_str()));
            Spec c; c.perms = 1; j.todo = {s, c}; add(fmt("leaf %d keys, remove [%d,%d), put back %d, variant %d", n, lo, hi, back, who), j);
        }
    }
    drv::run_job = run_job;
    return drv::drive(argc, argv, scens);
}
