// The repository's own client (mtclient.cc, as shipped), run as a fiber against the real server.
// A program is a sequence of client calls; each result is compared with a model kept here.
#define main mtclient_main
#define duration mtclient_duration
#define timeout mtclient_timeout
#define kvtest_first_seed mtclient_first_seed
#include "mtclient.cc"
#undef main
#undef duration
#undef timeout
#include <map>
typedef std::vector<std::string> CRow;
typedef std::map<std::string, CRow> CModel;
static const char* CK[] = {"a", "a12345678", ""};
static std::string cstr(const Json& j) { if (j.is_null()) return ""; if (!j.is_s()) return "<" + std::string(j.unparse().c_str()) + ">"; return std::string(j.as_s().data(), j.as_s().length()); }
static std::string ccol(const CRow& r, unsigned i) { return i < r.size() ? r[i] : std::string(); }
static std::string* why; static CModel* cm;
static bool fail(const std::string& s) { *why = s; return false; }
struct Want { int have; std::string val; int ok; };
static std::vector<Want*> wants;
static void on_get(struct child*, struct async* a, bool have, const Str& v) {
    int i; memcpy(&i, a->wanted, sizeof i); Want* w = wants[i];
    w->ok = (int) have == w->have && (!have || std::string(v.s, v.len) == w->val) ? 1 : 2;
    if (w->ok == 2) *why = std::string("asynchronous get: ") + (have ? "value '" + std::string(v.s, v.len) + "'" : std::string("no value")) + ", expected " + (w->have ? "'" + w->val + "'" : std::string("none"));
}
static void on_status(struct child*, struct async* a, int st) {
    int i; memcpy(&i, a->wanted, sizeof i); Want* w = wants[i]; w->ok = w->have == -1 || st == w->have ? 1 : 2;
    if (w->ok == 2) *why = "asynchronous put: status " + std::to_string(st) + ", expected " + std::to_string(w->have);
}
static bool* removed_flag;
static void on_removed(struct child*, struct async*, int st) { *removed_flag = st; }
int wc_nops() { return 19; }
static std::string big(char c) { return std::string(70, c); }
// one call
static bool step(struct child& c, int op, int n) {
    CModel& m = *cm; std::string v = std::string(1, 'A' + n); if (n == 1) v = ""; if (n == 2) v = big('Z');
    auto widx = [&](int have, const std::string& val) { wants.push_back(new Want{have, val, 0}); return (int) wants.size() - 1; };
    switch (op) {
    case 0: case 1: {
        std::string k = CK[op]; char buf[4096]; bool had = m.count(k);
        if (had && m[k].size() != 1) return true;           // get() is for rows with one value
        int l = get(&c, Str(k.data(), k.size()), buf, sizeof buf);
        if (!had) return l == -1 || fail("get of a missing key answered " + std::to_string(l) + " bytes '" + std::string(buf, std::max(l, 0)) + "'");
        return (l >= 0 && std::string(buf, l) == m[k][0]) || fail("get answered the wrong value"); }
    case 2: case 3: { std::string k = CK[op - 2]; put(&c, Str(k.data(), k.size()), Str(v.data(), v.size())); m[k] = CRow(1, v); return true; }
    case 4: { bool had = m.count("a"); bool r = remove(&c, Str("a", 1)); m.erase("a"); return r == had || fail("remove answered wrongly"); }
    case 5: case 6: case 7: {                               // asynchronous, completed at the end or by the window
        std::string k = CK[op == 7 ? 1 : 0]; bool had = m.count(k); if (had && m[k].size() != 1) return true;
        int i = widx(had, had ? m[k][0] : std::string());
        if (op == 6) { aget_col(&c, Str(k.data(), k.size()), 0, Str((char*) &i, sizeof i), on_get); return true; }
        aget(&c, Str(k.data(), k.size()), Str((char*) &i, sizeof i), on_get); return true; }
    case 8: { int i = widx(-1, ""); aput(&c, Str("a", 1), Str(v.data(), v.size()), on_status, Str((char*) &i, sizeof i)); m["a"] = CRow(1, v); return true; }
    case 9: case 10: { int col = op - 9; int i = widx(m.count("a") ? 2 : 1, ""); aput_col(&c, Str("a", 1), col, Str(v.data(), v.size()), on_status, Str((char*) &i, sizeof i)); CRow& r = m["a"]; if ((int) r.size() <= col) r.resize(col + 1); r[col] = v; return true; }
    case 11: { aremove(&c, Str("a", 1), nullptr); m.erase("a"); return true; }
    default: break;
    }
    checkasync(&c, 2);                                      // the rest talk to the connection directly
    unsigned s = c.seq1_;
    if (op == 12 || op == 13) {
        std::vector<unsigned> f; if (op == 12) f = {1, 0}; else f = {1};
        c.conn->sendget(Str("a", 1), f, s); c.conn->flush(); const Json& r = c.conn->receive();
        if (!r || r[0] != s || r[1] != Cmd_Get + 1) return fail("get of columns: bad reply");
        if (!m.count("a")) return r.size() == 2 || fail("get of columns of a missing key answered " + std::string(r.unparse().c_str()));
        if (r.size() != 2 + (int) f.size()) return fail("get of " + std::to_string(f.size()) + " columns answered " + r.unparse().c_str());
        for (size_t i = 0; i < f.size(); ++i) if (cstr(r[2 + i]) != ccol(m["a"], f[i])) return fail("get of columns: wrong value in " + std::string(r.unparse().c_str()));
        return true;
    }
    if (op >= 14 && op <= 18) {
        std::vector<unsigned> f; if (op == 16) f = {0}; if (op == 17) f = {1, 0};
        int cnt = op == 15 ? 1 : op == 18 ? 0 : 10; std::string first = op == 15 ? "a1" : "";
        if (f.empty()) c.conn->sendscanwhole(Str(first.data(), first.size()), cnt, s); else c.conn->sendscan(Str(first.data(), first.size()), f, cnt, s);
        c.conn->flush(); const Json& r = c.conn->receive();
        if (!r || r[0] != s || r[1] != Cmd_Scan + 1) return fail("scan: bad reply");
        int at = 2;
        for (auto it = m.lower_bound(first); it != m.end() && cnt > 0; ++it, --cnt, at += 2) {
            if (at + 1 >= r.size() || cstr(r[at]) != it->first) return fail("scan: wrong keys in " + std::string(r.unparse().c_str()));
            const Json& x = r[at + 1]; size_t nc = f.empty() ? it->second.size() : f.size();
            for (size_t i = 0; i < nc; ++i) { std::string w = f.empty() ? it->second[i] : ccol(it->second, f[i]); if ((nc == 1 ? cstr(x) : x.is_a() && (int) i < x.size() ? cstr(x[i]) : "<none>") != w) return fail("scan: wrong values in " + std::string(r.unparse().c_str())); }
        }
        return at == r.size() || fail("scan: too many pairs");
    }
    return true;
}
const char* wc_name(int op) { static const char* n[] = {"get(a)", "get(a12345678)", "put(a)", "put(a12345678)", "remove(a)", "aget(a)", "aget_col(a,0)", "aget(a12345678)", "aput(a)", "aput_col(a,0)", "aput_col(a,1)", "aremove(a)", "sendget(a,{1,0})", "sendget(a,{1})", "scan", "scan(a1,1)", "scan{0}", "scan{1,0}", "scan(0)"}; return n[op]; }
// runs in a fiber; returns "" or what went wrong
std::string wc_run(int fd, const std::vector<int>& prog, int win, std::map<std::string, std::vector<std::string>>* model) {
    std::string w; why = &w; cm = model; wants.clear(); window = win;
    struct child* c = new child; memset((void*) c, 0, sizeof *c); c->s = fd; c->seq0_ = c->seq1_ = 1;
    c->conn = new KVConn(fd, true);
    for (size_t i = 0; i < prog.size(); ++i) {
        bool sync = prog[i] < 5; if (sync) checkasync(c, 2);
        if (!step(*c, prog[i], i) || !w.empty()) return std::string(wc_name(prog[i])) + ": " + w;
        if (prog[i] >= 12) { ++c->seq0_; ++c->seq1_; }
    }
    checkasync(c, 2);
    if (!w.empty()) return w;
    for (auto* x : wants) if (!x->ok) return "an asynchronous request was never answered";
    delete c->conn; delete c;
    return "";
}
// a whole test of the client's own suite
std::string wc_test(int fd, int which) {
    window = MAXWINDOW; struct child* c = new child; memset((void*) c, 0, sizeof *c); c->s = fd;
    c->conn = new KVConn(fd, true);
    if (which == 0) scantest(c);
    delete c->conn; delete c; return "";
}
