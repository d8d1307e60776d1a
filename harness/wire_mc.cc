// The wire protocol of the real server, on the simulated operating system: every way a stream of requests may
// be cut into reads, every short write, every point at which a client may go away, every legal encoding.
#include "simdrive.hh"
using namespace sim;
using drv::choose; using drv::trace;
typedef std::vector<std::string> Row; typedef std::map<std::string, Row> Model;
enum { Cmd_Get = 2, Cmd_Scan = 4, Cmd_Put = 6, Cmd_Replace = 8, Cmd_Remove = 10, Cmd_Checkpoint = 12 };
std::string wc_run(int fd, const std::vector<int>& prog, int window, std::map<std::string, std::vector<std::string>>* m);
std::string wc_test(int fd, int which);
int wc_nops(); const char* wc_name(int);
#ifdef SIM_ASAN
extern "C" { void __asan_on_error() { death("invalid memory access (AddressSanitizer)"); }
const char* __asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=8:allocator_may_return_null=1:use_sigaltstack=0"; } }
#endif

// ---- requests, their replies and effects
struct Rq { int kind; std::string key; std::vector<std::pair<int, std::string>> cols; int count = 0; };   // cols: (column, value) for puts; (column, "") for gets and scans
static Rq put(const std::string& k, std::vector<std::pair<int, std::string>> c) { return {Cmd_Put, k, c}; }
static Rq rep(const std::string& k, const std::string& v) { return {Cmd_Replace, k, {{0, v}}}; }
static Rq rem(const std::string& k) { return {Cmd_Remove, k, {}}; }
static Rq get(const std::string& k, std::vector<int> c = {}) { Rq r{Cmd_Get, k, {}}; for (int i : c) r.cols.push_back({i, ""}); return r; }
static Rq scan(const std::string& k, int n, std::vector<int> c = {}) { Rq r{Cmd_Scan, k, {}, n}; for (int i : c) r.cols.push_back({i, ""}); return r; }
static Rq ckpt() { return {Cmd_Checkpoint, "", {}}; }
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s) { if (c < 33 || c > 126) o += fmt("\\%02x", c); else o += c; } return o.size() > 40 ? o.substr(0, 40) + fmt("..(%zu bytes)", s.size()) : o; }
static std::string show(const Rq& r) { static const char* n[] = {"", "", "get", "", "scan", "", "put", "", "replace", "", "remove", "", "checkpoint"}; std::string o = n[r.kind]; o += " " + show(r.key); if (r.kind == Cmd_Scan) o += fmt(" n=%d", r.count); for (auto& c : r.cols) o += fmt(" %d:", c.first) + show(c.second); return o; }
static std::string show(const Val& v) { switch (v.t) { case 'n': return "nil"; case 'b': return v.i ? "true" : "false"; case 'i': return fmt("%lld", (long long) v.i); case 's': return "'" + show(v.s) + "'"; case 'd': return "float"; } std::string o = v.t == 'a' ? "[" : "{"; for (size_t i = 0; i < v.a.size() && i < 12; ++i) o += (i ? "," : "") + show(v.a[i]); return o + (v.a.size() > 12 ? fmt("..(%zu)]", v.a.size()) : "]"); }
static bool unset(const Val& v) { return v.t == 'n' || (v.t == 's' && v.s.empty()); }   // a column never set reads as nil or as the empty string
static bool same(const Val& a, const Val& b) { if (unset(a) && unset(b)) return true; if (a.t != b.t) return false; if (a.t == 's') return a.s == b.s; if (a.t == 'i' || a.t == 'b') return a.i == b.i; if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i])) return false; return true; }
static Val VI(int64_t i) { Val v; v.t = 'i'; v.i = i; return v; } static Val VB(bool b) { Val v; v.t = 'b'; v.i = b; return v; }
static Val VS(const std::string& s) { Val v; v.t = 's'; v.s = s; return v; }
static std::string col(const Row& r, int c) { return c < (int) r.size() ? r[c] : std::string(); }

// encodings: style 0 is the shortest form, the others are the other legal forms of ints, strings, arrays
struct Enc {
    int is = 0, ss = 0, as = 0; std::string s;
    void be(u64 v, int n) { for (int k = n - 1; k >= 0; --k) s += char(v >> 8 * k); }
    void arr(size_t n) { if (as == 0 && n < 16) s += char(0x90 | n); else if (as <= 1) { s += '\xdc'; be(n, 2); } else { s += '\xdd'; be(n, 4); } }
    void i(int64_t v) {
        if (is == 0 && v >= 0 && v < 128) { s += char(v); return; }
        static const u8 T[] = {0xcd, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3}; static const int N[] = {2, 1, 2, 4, 8, 1, 2, 4, 8};
        s += char(T[is]); be(v, N[is]);
    }
    void str(const std::string& v) { size_t n = v.size(); int k = ss; if (k == 0) k = n < 32 ? 0 : n < 256 ? 1 : n < 65536 ? 2 : 3; if (k == 1 && n > 255) k = 2; if (k == 4 && n > 255) k = 5;
        static const u8 T[] = {0, 0xd9, 0xda, 0xdb, 0xc4, 0xc5, 0xc6}; static const int N[] = {0, 1, 2, 4, 1, 2, 4};
        if (k == 0) s += char(0xa0 | n); else { s += char(T[k]); be(n, N[k]); } s += v; }
};
static std::string encode(const Rq& r, int64_t seq, Enc e = Enc()) {
    if (r.kind == Cmd_Checkpoint) { e.arr(2); e.i(seq); e.i(r.kind); return e.s; }
    size_t n = 3; if (r.kind == Cmd_Put) n += 2 * r.cols.size(); else if (r.kind == Cmd_Replace) n += 1; else if (r.kind == Cmd_Get) n += r.cols.size(); else if (r.kind == Cmd_Scan) n += 1 + r.cols.size();
    e.arr(n); e.i(seq); e.i(r.kind); e.str(r.key);
    if (r.kind == Cmd_Scan) e.i(r.count);
    for (auto& c : r.cols) { if (r.kind != Cmd_Replace) e.i(c.first); if (r.kind == Cmd_Put || r.kind == Cmd_Replace) e.str(c.second); }
    return e.s;
}
static Val expect(Model& m, const Rq& r, int64_t seq) {     // also applies the request
    Val v; v.t = 'a'; v.a = {VI(seq), VI(r.kind + 1)};
    switch (r.kind) {
    case Cmd_Get: if (m.count(r.key)) { Row& w = m[r.key]; if (r.cols.empty()) for (auto& x : w) v.a.push_back(VS(x)); else for (auto& c : r.cols) v.a.push_back(VS(col(w, c.first))); } break;
    case Cmd_Put: { bool had = m.count(r.key); Row& w = m[r.key]; for (auto& c : r.cols) { if ((int) w.size() <= c.first) w.resize(c.first + 1); w[c.first] = c.second; } v.a.push_back(VI(had ? 2 : 1)); break; }
    case Cmd_Replace: { bool had = m.count(r.key); m[r.key] = Row(1, r.cols[0].second); v.a.push_back(VI(had ? 2 : 1)); break; }
    case Cmd_Remove: v.a.push_back(VB(m.erase(r.key))); break;
    case Cmd_Scan: { int n = r.count; for (auto it = m.lower_bound(r.key); it != m.end() && n > 0; ++it, --n) {
        v.a.push_back(VS(it->first)); Row w; if (r.cols.empty()) w = it->second; else for (auto& c : r.cols) w.push_back(col(it->second, c.first));
        if (w.size() == 1) v.a.push_back(VS(w[0])); else { Val x; x.t = 'a'; for (auto& y : w) x.a.push_back(VS(y)); v.a.push_back(x); } } break; }
    }
    return v;
}

// ---- the machine
static bool logging = true; static int threads = 1; static Model model; static int ops_done;
static bool pumpable(Fiber* f) { return (f->kind == K_MAIN || f->kind == K_TCP || f->kind == K_UDP || f->kind == K_OTHER) && f->st != JOIN; }
static void pump() {                    // run the server until it waits for input
    for (int guard = 0; ; ++guard) {
        if (guard > 200000) drv::violation("the server never settles");
        bool any = false;
        for (size_t i = 0; i < fibers.size(); ++i) { Fiber* f = fibers[i]; if (pumpable(f) && f->st != SLEEP && f->st != COND && f->st != LOCK && ready(f)) { run_to_block(f); any = true; } }
        if (!any) return;
    }
}
static void boot_server() {
    std::vector<std::string> a = {"mtd", fmt("-j%d", threads)};
    if (logging) { a.push_back("--logdir=/vfs/l"); a.push_back("--ckpdir=/vfs/c"); } else a.push_back("-n");
    boot(a); fs_stops = 0;
    for (int guard = 0; guard < 20000; ++guard) {
        Fiber* m = find(K_MAIN, -1); if (m && m->st == ACCEPT) { bool up = true; for (int i = 0; i < threads; ++i) if (!find(K_UDP, i) || find(K_UDP, i)->st != RECV) up = false; int t = 0; for (auto* f : fibers) t += f->kind == K_TCP && f->st == EPOLLW; if (up && t == threads) return; }
        Fiber* pick = nullptr; for (auto* f : fibers) if (ready(f) && !(f->st == LOCK && mutex_owner.count(f->cond))) { pick = f; break; }
        if (!pick) { u64 w = NEVER; for (auto* f : fibers) if ((f->st == SLEEP || f->st == COND) && f->wake < w) w = f->wake; if (w == NEVER) drv::violation("the server does not come up"); now_us = std::max(now_us, w); continue; }
        run_to_block(pick);
    }
    drv::violation("the server does not come up");
}
struct C { int fd = -1; std::string pending; std::vector<Val> want; size_t got = 0; size_t rp = 0; };
static Val next_reply(C& c) { Val v; std::string& o = D(c.fd)->out; size_t e = unpack(o, c.rp, v); if (e == std::string::npos) { v.ok = false; return v; } c.rp = e; return v; }
static C dial(int core = -1) {
    C c; c.fd = newfd(F_CONN); Enc e; e.arr(3); e.i(0); e.i(14); e.s += '\x82'; e.str("core"); if (core < 0) e.s += '\xff'; else e.i(core); e.str("maxkeylen"); e.is = 2; e.i(255); D(c.fd)->in.push_back(e.s);
    accept_queue.push_back(c.fd); pump();
    Val v = next_reply(c);
    if (!v.ok || v.t != 'a' || v.a.size() < 3 || !v.a[1].is(15) || v.a[2].t != 'b' || !v.a[2].i) drv::violation("the handshake failed: " + show(v));
    return c;
}
static void feed(C& c, const std::string& b) { if (!b.empty()) D(c.fd)->in.push_back(b); }
static void check_replies(C& c, size_t n, const char* when) {   // the first n replies must be there, correct, and nothing more
    while (c.got < n) {
        Val v = next_reply(c);
        if (!v.ok) drv::violation(fmt("%s: reply %zu of %zu is missing", when, c.got + 1, n));
        if (!same(v, c.want[c.got])) drv::violation(fmt("%s: reply %zu is %s, expected %s", when, c.got + 1, show(v).c_str(), show(c.want[c.got]).c_str()));
        ++c.got; drv::add(drv::sh->transitions);
    }
    if (c.rp != D(c.fd)->out.size()) drv::violation(fmt("%s: %zu bytes after the last reply", when, D(c.fd)->out.size() - c.rp));
}
static Val udp(int t, const std::string& req) { Fiber* u = find(K_UDP, t); u->inbox.push_back(req); u->replied = false; run_to_block(u); if (u->st != RECV) drv::violation("a datagram request did not finish"); Val v; if (u->replied && unpack(u->outbox, 0, v) != u->outbox.size()) drv::violation("malformed reply to a datagram"); if (!u->replied) v.ok = false; return v; }
static void check_contents(const Model& m, const char* when) {
    Model x = m; Val want = expect(x, scan("", 1 << 20), 7), v = udp(0, encode(scan("", 1 << 20), 7, [] { Enc e; e.is = 0; return e; }()).substr(0, 0) + [] { Enc e; e.arr(4); e.i(7); e.i(4); e.str(""); e.is = 7; e.i(1 << 20); return e.s; }());
    if (!v.ok || !same(v, want)) drv::violation(fmt("%s: contents are %s, expected %s", when, show(v).c_str(), show(want).c_str()));
}
static void put_model(std::string& s, const Model& m) { auto i = [&](u64 v) { s.append((char*) &v, 8); }; i(m.size()); for (auto& p : m) { i(p.first.size()); s += p.first; i(p.second.size()); for (auto& c : p.second) { i(c.size()); s += c; } } }
static void finish(const Model& m) {    // contents now, and after a restart from the logs
    drv::add(drv::sh->checks);
    check_contents(m, "at the end");
    if (!logging) return;
    for (int r = 0; r < 5; ++r) for (auto* f : fibers) if (f->kind == K_LOG && f->st == SLEEP) { now_us = std::max(now_us, f->wake); run_to_block(f); }
    CrashPolicy c; c.mcut = events.size(); c.dflt = NEVER; Image im = crash_image(c);
    std::string b = "R"; b += char(threads); u64 t = now_us; b.append((char*) &t, 8); std::string mm; put_model(mm, m); u64 n = mm.size(); b.append((char*) &n, 8); b += mm;
    auto i = [&](u64 v) { b.append((char*) &v, 8); }; for (auto& p : im) { i(p.first.size()); b += p.first; i(p.second.size()); b += p.second; }
    if (drv::seen(drv::hash(b))) { drv::add(drv::sh->dedup); return; }
    drv::add(drv::sh->states); b += trace; u64 tl = trace.size(); b.append((char*) &tl, 8); drv::emit(b);
}
static void restart_job(const std::string& b0) {
    u64 tl; memcpy(&tl, &b0[b0.size() - 8], 8); std::string b = b0.substr(0, b0.size() - 8 - tl); trace = b0.substr(b0.size() - 8 - tl, tl) + "; RESTART";
    size_t p = 2; auto i = [&] { u64 v; memcpy(&v, &b[p], 8); p += 8; return v; }; auto st = [&] { u64 n = i(); std::string s = b.substr(p, n); p += n; return s; };
    threads = b[1]; now_us = i() + 1000000; i(); Model m; u64 n = i(); while (n--) { std::string k = st(); Row r; u64 c = i(); while (c--) r.push_back(st()); m[k] = r; }
    Image im; while (p < b.size()) { std::string k = st(); im[k] = st(); } mount(im);
    boot_server(); check_contents(m, "after a restart"); drv::add(drv::sh->outcomes);
}

// ---- families
static std::string K9 = "k12345678", K40(40, 'K'), V33(33, 'v'), LONGK(255, 'L');
static std::vector<std::vector<Rq>> streams() {
    return {
        {put("k", {{0, "v"}}), get("k"), rem("k"), get("k"), rem("k")},
        {rep(K40, V33), get(K40), put(K40, {{0, ""}, {1, "w"}}), get(K40, {1, 0}), get(K40, {3}), scan("", 5)},
        {put("", {{2, "x"}}), get(""), put("", {{0, "a"}, {1, "b"}}), get("", {2, 1, 0, 2}), scan("", 1, {1}), scan("", 1, {0, 2}), rep("", ""), scan("", 3)},
        {put("a", {{0, "1"}}), put("ab", {{0, "2"}}), put(std::string("a\0b", 3), {{0, "3"}}), scan("a", 2), scan("ab", 2), rem("ab"), scan("", 0), scan("a", 10)},
        {get("nope"), get("nope", {0}), get("nope", {0, 1, 2}), rep(K9, "1"), rep(K9, "22"), ckpt(), get(K9), rem(K9), rep(K9, "3"), get(K9, {0})},
    };
}
struct Stream { std::string bytes; std::vector<size_t> ends; };
static Stream build(C& c, const std::vector<Rq>& rs, Model& m, int64_t seq0 = 1, Enc e = Enc()) { Stream s; for (size_t i = 0; i < rs.size(); ++i) { c.want.push_back(expect(m, rs[i], seq0 + i)); s.bytes += encode(rs[i], seq0 + i, e); s.ends.push_back(s.bytes.size()); } return s; }
static size_t complete(const Stream& s, size_t upto) { size_t n = 0; while (n < s.ends.size() && s.ends[n] <= upto) ++n; return n; }
static void go(C& c, const Stream& s, size_t from, size_t to) { feed(c, s.bytes.substr(from, to - from)); trace += fmt(" +%zu", to - from); pump(); check_replies(c, complete(s, to), fmt("after byte %zu of %zu", to, s.bytes.size())); }

static int shard, shards = 1;
static void fam_chunk(int si, int cuts, Enc e = Enc()) {
    auto rs = streams()[si]; for (auto& r : rs) trace += "; " + show(r);
    boot_server(); C c = dial(); Model m; Stream s = build(c, rs, m, 1, e); size_t n = s.bytes.size(), at = 0;
    trace += fmt("; %zu bytes in pieces", n);
    for (int k = 0; k < cuts; ++k) { size_t to = at + 1 + (k ? choose(n - at) : drv::choose_shard(n - at, shard, shards)); if (to >= n) break; go(c, s, at, to); at = to; }
    go(c, s, at, n);
    if (D(c.fd)->closed) drv::violation("the server closed a healthy connection");
    finish(m);
}
static void fam_bytes(int si) { auto rs = streams()[si]; boot_server(); C c = dial(); Model m; Stream s = build(c, rs, m); trace += "byte by byte"; for (size_t i = 0; i < s.bytes.size(); ++i) go(c, s, i, i + 1); finish(m); }
// the client goes away (or turns to garbage) after any prefix, cut anywhere before that
static void fam_close(int si, int how, int cuts) {
    auto rs = streams()[si]; boot_server(); C c = dial(), other = dial(); Model m, all; Stream s = build(c, rs, all); size_t n = s.bytes.size();
    size_t stop = drv::choose_shard(n + 1, shard, shards); size_t cut = stop && cuts ? choose(stop) : stop ? (size_t) choose(2) * (stop / 2) : 0; size_t done = complete(s, stop);
    trace += fmt("stream %d, client %s after byte %zu of %zu, read %zu+%zu", si, how == 0 ? "closes" : how == 1 ? "resets" : how == 2 ? "sends garbage" : "sends an unknown command", stop, n, cut, stop - cut);
    if (how >= 2 && stop != (done ? s.ends[done - 1] : 0)) return;
    if (cut) { feed(c, s.bytes.substr(0, cut)); pump(); check_replies(c, complete(s, cut), "before the end"); }
    std::string last = s.bytes.substr(cut, stop - cut);
    if (how == 2) last += "\xc1zzz"; if (how == 3) { Enc e; e.arr(3); e.i(99); e.i(77); e.str("q"); last += e.s; }
    feed(c, last);
    if (how == 1) { pump(); D(c.fd)->in.clear(); D(c.fd)->reset = true; } else if (how == 0) D(c.fd)->eof = true;
    pump();
    if (how == 3) { Val v; v.t = 'a'; v.a = {VI(99), VI(-1)}; c.want.resize(done); c.want.push_back(v); check_replies(c, done + 1, "after an unknown command"); }
    else check_replies(c, done, "at the end of the connection");
    if (!D(c.fd)->closed) drv::violation("the server keeps a dead connection open");
    for (size_t i = 0; i < done; ++i) expect(m, rs[i], 0);
    Stream t; t.bytes = encode(put("other", {{0, "o"}}), 1); t.ends = {t.bytes.size()}; other.want = {expect(m, put("other", {{0, "o"}}), 1)}; go(other, t, 0, t.bytes.size());
    C third = dial(); Stream u = build(third, {get("other")}, m); go(third, u, 0, u.bytes.size());
    finish(m);
}
// replies leave in pieces
static void fam_short(int si, int writes) {
    auto rs = streams()[si]; boot_server(); C c = dial(); Model m; Stream s = build(c, rs, m); static int left; left = writes;
    on_conn_write = [](Desc*, const char*, size_t n) -> ssize_t { if (left == 0 || n <= 1) return n; --left; size_t k = 1 + choose(n); trace += fmt("; short write %zu of %zu", k, n); return k; };
    go(c, s, 0, s.bytes.size()); finish(m);
}
// the client vanishes while the server still has replies to send
static void fam_peer(int si) {
    auto rs = streams()[si]; boot_server(); C c = dial(), other = dial(); Model m; Stream s = build(c, rs, m); static int at; at = choose(4); static int kind; kind = choose(2);
    trace += fmt("; peer gone at write %d%s", at, kind ? ", after part of it was sent" : "");
    static C* cc; cc = &c;
    on_conn_write = [](Desc* d, const char*, size_t n) -> ssize_t { if (d != D(cc->fd)) return n; if (at-- == 0) { if (kind && n > 1) { ++at; kind = 0; return n / 2; } d->reset = true; d->in.clear(); } return n; };
    size_t cut = choose(2) ? s.bytes.size() / 2 : 0;
    if (cut) { feed(c, s.bytes.substr(0, cut)); pump(); }
    if (!D(c.fd)->reset && !D(c.fd)->closed) { feed(c, s.bytes.substr(cut)); pump(); }
    C third = dial(); Model none; Stream t; third.want.push_back(expect(none, rep("alive", "1"), 1)); t.bytes = encode(rep("alive", "1"), 1); t.ends = {t.bytes.size()}; go(third, t, 0, t.bytes.size());
    drv::add(drv::sh->checks);
}
// two connections
static void fam_two(int s1, int s2, int th, int step) {
    threads = th; boot_server(); C a = dial(0), b = dial(th - 1); Model m;
    auto pre = [](std::vector<Rq> rs, const std::string& p) { for (auto& r : rs) { if (r.kind == Cmd_Scan) { r.kind = Cmd_Get; r.cols.clear(); } r.key = p + r.key.substr(0, 250); } return rs; };
    Stream A = build(a, pre(streams()[s1], "A"), m), B = build(b, pre(streams()[s2], "B"), m);
    size_t pa = 0, pb = 0; size_t na = A.bytes.size(), nb = B.bytes.size();
    size_t ca = 1 + step * drv::choose_shard(std::max<int>(1, (na - 1) / step), shard, shards), cb = 1 + step * 2 * choose(std::max<int>(1, (nb - 1) / step / 2)); int order = choose(6);   // a|a' and b|b' in every order
    static const char* O[] = {"aabb", "abab", "abba", "baab", "baba", "bbaa"};
    trace += fmt("two connections, %d threads, cuts %zu and %zu, order %s", th, ca, cb, O[order]);
    for (const char* p = O[order]; *p; ++p) { if (*p == 'a') { size_t to = pa ? na : ca; feed(a, A.bytes.substr(pa, to - pa)); pa = to; } else { size_t to = pb ? nb : cb; feed(b, B.bytes.substr(pb, to - pb)); pb = to; } pump(); if (th == 2) { check_replies(a, complete(A, pa), "first connection"); check_replies(b, complete(B, pb), "second connection"); } }
    check_replies(a, A.ends.size(), "first connection"); check_replies(b, B.ends.size(), "second connection");
    finish(m);
}
// two connections writing the same keys, a whole request at a time, in every order
static void fam_order(int th, int depth) {
    threads = th; boot_server(); C c[2] = {dial(0), dial(th - 1)}; Model m; int seq[2] = {1, 1};
    for (int i = 0; i < depth; ++i) {
        int w = choose(2), o = i ? choose(7) : drv::choose_shard(7, shard, shards); Rq r = o == 0 ? put("k", {{0, fmt("%d", i)}}) : o == 1 ? put("k", {{1, fmt("%d", i)}}) : o == 2 ? rep("k", fmt("r%d", i)) : o == 3 ? rem("k") : o == 4 ? get("k") : o == 5 ? put("l", {{0, "z"}}) : scan("", 4);
        trace += fmt("; %c: ", 'A' + w) + show(r);
        Stream s; s.bytes = encode(r, seq[w]); s.ends = {s.bytes.size()}; c[w].want.push_back(expect(m, r, seq[w]++)); feed(c[w], s.bytes); pump(); check_replies(c[w], c[w].want.size(), "in order");
    }
    finish(m);
}
// around the edges of the 20 KB buffers
static void fam_big(int what) {
    boot_server(); C c = dial(); Model m; const int SZ = 20480; std::vector<Rq> rs; int delta = drv::choose_shard(64, shard, shards);
    trace += fmt("big %d, offset %d", what, delta);
    switch (what) {
    case 0: rs = {rep("f", std::string(SZ - 80 + delta, 'f')), put(K9, {{0, V33}, {1, "second"}}), get(K9), rem("f")}; break;                    // the second request straddles the end of the buffer
    case 1: rs = {rep("a", std::string(SZ - 40 + delta, 'a')), get("a"), put("a", {{1, "x"}}), get("a", {1})}; break;                          // one request about as long as the buffer
    case 2: rs = {rep("a", std::string(2 * SZ - 40 + delta, 'b')), get("a"), rem("a"), get("a")}; break;
    case 3: rs = {put("a", {{0, std::string(9000, 'x')}, {1, std::string(9000, 'y')}, {2, std::string(2400 + delta, 'z')}, {3, V33}}), get("a"), get("a", {3, 2}), scan("", 3)}; break;   // columns before, across and after the edge
    case 4: for (int i = 0; i < 40; ++i) rs.push_back(rep(fmt("k%02d", i), std::string(480 + (i == 3 ? delta : 0), 'a' + i % 26))); rs.push_back(scan("", 100)); rs.push_back(scan("k20", 5)); for (int i = 0; i < 40; ++i) rs.push_back(get(fmt("k%02d", i))); break;
    case 5: rs = {rep("a", std::string(SZ - 8 - 32 + delta, 'a')), get("a"), get("a"), get("nope"), get("a"), scan("", 2)}; break;              // replies around the size of the output buffer
    case 6: for (int i = 0; i < 300; ++i) rs.push_back(put(fmt("q%03d", i % 7) + std::string(delta, 'p'), {{i % 3, fmt("%d", i)}})); rs.push_back(scan("", 10)); break;
    case 7: rs = {rep(LONGK, std::string(SZ - 300 + delta, 'a')), put(LONGK, {{1, std::string(40, 'c')}}), rep(std::string(200, 'M') + K40, V33), get(LONGK, {1}), rem(LONGK)}; break;
    case 8: rs = {put("c", {{0, "0"}, {15, "f"}, {16, "g"}, {40, std::string(300, 'h')}}), get("c"), get("c", {0, 1, 15, 16, 17, 39, 40, 41, 100}), scan("", 1), put("c", {{7, std::string(delta, '7')}}), get("c")}; break;
    }
    Stream s = build(c, rs, m); size_t n = s.bytes.size();
    int cut = choose(4); std::vector<size_t> to; if (cut == 1) to = {(size_t) SZ - 20, (size_t) SZ + 5}; else if (cut == 2) for (size_t x = 1500; x < n; x += 1500) to.push_back(x); else if (cut == 3) to = {3, n - 1};
    trace += fmt(", cut %d", cut); size_t at = 0; for (size_t x : to) if (x > at && x < n) { go(c, s, at, x); at = x; } go(c, s, at, n);
    finish(m);
}
// every legal encoding of the same requests
static void fam_enc(int si, int cuts) { Enc e; int is = shard; shard = 0; shards = 1; e.is = is; e.ss = choose(7); e.as = choose(3); trace += fmt("encodings %d %d %d; ", e.is, e.ss, e.as); fam_chunk(si, cuts, e); }
// datagrams: a cut one has no effect and gets no answer, the next is handled as if alone
static void fam_udp(int si) {
    auto rs = streams()[si]; boot_server(); Model m; int a = choose(rs.size()), b = choose(rs.size()); 
    for (size_t i = 0; i < rs.size(); ++i) { Val w = expect(m, rs[i], i + 1), v = udp(0, encode(rs[i], i + 1)); if (!v.ok || !same(v, w)) drv::violation("datagram " + show(rs[i]) + " answered " + show(v) + ", expected " + show(w)); }
    { Val w = expect(m, rs[a], 50), v = udp(0, encode(rs[a], 50)); if (!v.ok || !same(v, w)) drv::violation("datagram answered " + show(v) + ", expected " + show(w)); }
    std::string e = encode(rs[b], 60); size_t k = drv::choose_shard(e.size(), shard, shards); trace += "datagram " + show(rs[a]) + fmt(", then the first %zu of %zu bytes of ", k, e.size()) + show(rs[b]);
    Val v = udp(0, e.substr(0, k)); if (v.ok) drv::violation("a truncated datagram was answered: " + show(v));
    check_contents(m, "after a truncated datagram");
    Val w = expect(m, rs[b], 61); v = udp(0, encode(rs[b], 61)); if (!v.ok || !same(v, w)) drv::violation("the next datagram answered " + show(v) + ", expected " + show(w));
    finish(m);
}
// an answer too long for a datagram is not sent, and harms nobody
static void fam_udpbig() {
    boot_server(); Model m; for (int i = 0; i < 20; ++i) { Rq r = rep(fmt("k%02d", i), std::string(3800, 'a' + i)); Val w = expect(m, r, 1), v = udp(0, encode(r, 1)); if (!v.ok || !same(v, w)) drv::violation("datagram answered " + show(v)); }
    udp_max = 65507; int n = 1 + choose(20); trace += fmt("scan of %d rows of 3800 bytes", n); Model x = m; Val w = expect(x, scan("", n), 2), v = udp(0, encode(scan("", n), 2));
    if (n * 3810 < 65000 ? !v.ok || !same(v, w) : v.ok && !same(v, w)) drv::violation("datagram scan answered " + show(v));
    Rq r = get("k03"); w = expect(x, r, 3); v = udp(0, encode(r, 3)); if (!v.ok || !same(v, w)) drv::violation("the next datagram answered " + show(v));
    udp_max = ~(size_t) 0; finish(m);
}
// the connection is slow to take a reply: what it gets is a value the key had, whatever others do meanwhile
static void tick() { if (handlers[SIGALRM] && handlers[SIGALRM] != SIG_IGN) handlers[SIGALRM](SIGALRM); }
static void fam_slow(int what) {
    threads = 2; boot_server(); C c = dial(0), o = dial(1); Model m; std::vector<Rq> pre, rs;
    auto other = [&](const Rq& r, Model& mm) { o.want.push_back(expect(mm, r, 1)); feed(o, encode(r, 1)); pump(); check_replies(o, o.want.size(), "the other client"); };
    std::string A(9000, 'A'), B(9000, 'B'), CC(9000, 'C');
    for (auto& r : {put("k", {{0, A}, {1, B}, {2, CC}}), put("l", {{0, std::string(15000, 'l')}}), put("n", {{0, std::string(15000, 'n')}})}) other(r, m);
    rs = {what == 0 ? get("k") : what == 1 ? get("k", {0, 1, 2}) : what == 2 ? scan("", 3) : scan("k", 2, {0, 1})};
    Model m0 = m; Stream s = build(c, rs, m0); int others = choose(4), ticks = choose(4), at = choose(3); static int stop, cfd; stop = at; cfd = c.fd;
    trace += fmt("reply %d held up at write %d; another client %s; %d epochs", what, at, others == 0 ? "replaces the row" : others == 1 ? "updates a column" : others == 2 ? "removes the row" : "replaces it twice", ticks);
    on_conn_write = [](Desc* d, const char*, size_t n) -> ssize_t { if (d == D(cfd) && stop-- == 0) block(JOIN); return n; };
    feed(c, s.bytes); pump();
    for (const char* k : {"k", "l", "n"}) { if (others == 0) other(rep(k, std::string(9000, 'x')), m); if (others == 1) other(put(k, {{1, std::string(9000, 'y')}}), m); if (others == 2) other(rem(k), m); if (others == 3) { other(rep(k, "1"), m); other(rep(k, "2"), m); } }
    for (int i = 0; i < ticks; ++i) { tick(); for (int j = 0; j < 2; ++j) other(rep("z-junk", std::string(9000, 'j')), m); }
    for (auto* f : fibers) if (f->st == JOIN && f->kind == K_TCP) run_to_block(f);
    on_conn_write = nullptr; pump(); check_replies(c, 1, "a reply held up in transit"); finish(m);
}
// the repository's own client
static std::string client_result; static std::vector<int> client_prog; static int client_fd, client_win, client_test = -1; static Model client_model; static bool client_done;
static void* client_fiber(void*) { client_result = client_test >= 0 ? wc_test(client_fd, client_test) : wc_run(client_fd, client_prog, client_win, &client_model); client_done = true; return nullptr; }
static void fam_client(int first, int depth, int win, int splits) {
    boot_server(); client_win = win;
    if (first >= 0) { client_prog = {first}; for (int i = 1; i < depth; ++i) client_prog.push_back(choose(wc_nops())); for (int o : client_prog) trace += std::string(" ") + wc_name(o); } else client_test = -1 - first;
    int s = newfd(F_CONN); client_fd = newfd(F_CONN); D(s)->pair = client_fd; D(client_fd)->pair = s; accept_queue.push_back(s);
    static int left, sfd; left = splits; sfd = s;
    on_conn_write = [](Desc* d, const char*, size_t n) -> ssize_t { if (left == 0 || n <= 1) return n; if (choose(2) == 1) return n; --left; size_t k = 1 + choose(std::min<size_t>(n - 1, 40)); trace += fmt("; %s sends %zu of %zu", d == D(sfd) ? "server" : "client", k, n); return k; };
    spawn(client_fiber, nullptr); pump();
    if (!client_done) drv::violation("the client waits for a reply that never comes");
    if (!client_result.empty()) drv::violation("client: " + client_result);
    if (first >= 0) finish(client_model); else drv::add(drv::sh->checks);
}

static std::vector<drv::Scen> scens;
static void run_job(const std::string& b) {
    drv::add(drv::sh->executions);
    on_death = [](const char* w) { drv::violation(std::string("the server died: ") + w); };
    if (b[0] == 'R') { restart_job(b); return; }
    char f[20]; int p[4] = {0, 0, 0, 0}; sscanf(b.c_str(), "%19s %d %d %d %d", f, p, p + 1, p + 2, p + 3); if (const char* x = strchr(b.c_str(), '/')) sscanf(x, "/%d of %d", &shard, &shards); std::string n = f; trace = n + ": ";
    mount(Image());
    if (n == "chunk") fam_chunk(p[0], p[1]); else if (n == "bytes") fam_bytes(p[0]); else if (n == "close") fam_close(p[0], p[1], p[2]); else if (n == "short") fam_short(p[0], p[1]);
    else if (n == "peer") fam_peer(p[0]); else if (n == "two") fam_two(p[0], p[1], p[2], p[3]); else if (n == "order") fam_order(p[0], p[1]); else if (n == "big") fam_big(p[0]); else if (n == "enc") fam_enc(p[0], p[1]);
    else if (n == "udp") fam_udp(p[0]); else if (n == "udpbig") fam_udpbig(); else if (n == "slow") fam_slow(p[0]); else if (n == "client") fam_client(p[0], p[1], p[2], p[3]);
    if (!(drv::sh->nsample & ~7u)) drv::send('S', trace);
}
int main(int argc, char** argv) {
    std::string fam = "chunk"; int cuts = 2, depth = 3, splits = 0, step = 6;
    for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; if (!strcmp(argv[i], "--cuts")) cuts = atoi(argv[i + 1]); if (!strcmp(argv[i], "--step")) step = atoi(argv[i + 1]); if (!strcmp(argv[i], "--depth")) depth = atoi(argv[i + 1]); if (!strcmp(argv[i], "--splits")) splits = atoi(argv[i + 1]); }
    int ns = streams().size();
    auto add = [](const std::string& s) { scens.push_back({s, s}); };
    auto addn = [&](const std::string& s, int n) { for (int i = 0; i < n; ++i) add(s + fmt(" /%d of %d", i, n)); };
    auto on = [&](const char* f) { return ("," + fam + ",").find(std::string(",") + f + ",") != std::string::npos; };
    for (int i = 0; i < ns; ++i) {
        if (on("chunk")) addn(fmt("chunk %d %d", i, cuts), 8);
        if (on("bytes")) add(fmt("bytes %d", i));
        if (on("close")) for (int h = 0; h < 4; ++h) addn(fmt("close %d %d %d", i, h, cuts), 4);
        if (on("short")) add(fmt("short %d %d", i, cuts));
        if (on("peer")) add(fmt("peer %d", i));
        if (on("two")) for (int j = 0; j < ns; ++j) for (int t = 1; t <= 2; ++t) addn(fmt("two %d %d %d %d", i, j, t, step), 1);
        if (on("enc")) addn(fmt("enc %d %d", i, cuts), 9);
        if (on("udp")) addn(fmt("udp %d", i), 2);
    }
    if (on("order")) for (int t = 1; t <= 2; ++t) addn(fmt("order %d %d", t, depth), 7);
    if (on("big")) for (int i = 0; i < 9; ++i) addn(fmt("big %d", i), 4);
    if (on("udpbig")) add("udpbig");
    if (on("slow")) for (int i = 0; i < 4; ++i) add(fmt("slow %d", i));
    if (on("client")) { for (int i = 0; i < wc_nops(); ++i) for (int w : {2, 8}) add(fmt("client %d %d %d %d", i, depth, w, splits)); add("client -1 0 0 0"); }
    drv::run_job = run_job;
    return drv::drive(argc, argv, scens);
}
