// C21: strings.  Values: every short sequence of operations on two strings and an accumulator that share memory in
// various ways, against plain byte strings.  Functions: every string over small alphabets against plain definitions.
#include "kvthread.hh"
#include "string.hh"
#include "straccum.hh"
#include "str.hh"
#include "seq.hh"
#include <limits.h>
#include <math.h>
using lcdf::String; using lcdf::StringAccum; using lcdf::Str;
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
extern "C" { void mt_verif_relax(void) {} void mt_verif_alloc(void*, size_t, int) {} void mt_verif_retire(void*, size_t, int) {} void mt_verif_free(void*, size_t, int) {} }
typedef std::string S; typedef unsigned char u8_t;
static S str(const String& s) { return S(s.data(), s.length()); }
static S str(const Str& s) { return S(s.data(), s.length()); }
static S str(const StringAccum& s) { return S(s.data(), s.length()); }
static String mk(const S& s) { return String(s.data(), (int) s.size()); }
static S cut(const S& s) { return seq::hex(s.substr(0, 60)) + (s.size() > 60 ? "~" + std::to_string(s.size()) : ""); }
__attribute__((no_sanitize("address"))) static int live() {
    int n = 0; uintptr_t b = seq::ARENA;
    while (b < seq::brk_) { uintptr_t p = (b + 32 + 63) & ~(uintptr_t) 63; volatile uint64_t h = *(volatile uint64_t*) (p - 16); n += !(h >> 63); b = (p + (h & ~(1ull << 63)) + 15) & ~(uintptr_t) 15; }
    return n;
}
// ---- operations
static const char stable_text[] = "stable text";
struct Ops : seq::System {
    struct Op { S name; std::function<bool()> on; std::function<const char*()> go; };
    std::vector<Op> ops; int start, base = 0; String* s[3]; StringAccum* a; S m[3], ma, csm[2]; const char* cs[2];        // the last result of c_str() and what it was
    void add(const S& n, std::function<bool()> on, std::function<const char*()> go) { ops.push_back({n, on, go}); }
    explicit Ops(int st) : start(st) {
        auto always = [] { return true; }; auto OK = [] { return (const char*) nullptr; };
        auto small = [=] { return m[0].size() + m[1].size() + ma.size() < 6000; };
        for (int x = 0; x < 2; ++x) {
            int y = 1 - x; S X = x ? "B" : "A", Y = x ? "A" : "B"; auto some = [=] { return !m[x].empty(); }; auto two = [=] { return m[x].size() > 1; };
            add(X + "=" + Y, always, [=] { *s[x] = *s[y]; m[x] = m[y]; return OK(); });
            add(X + "=K", always, [=] { *s[x] = *s[2]; m[x] = m[2]; return OK(); });
            add(X + "+=" + Y, small, [=] { *s[x] += *s[y]; m[x] += m[y]; return OK(); });
            add(X + "+=K", small, [=] { s[x]->append(*s[2]); m[x] += m[2]; return OK(); });
            add(X + "+='c'", always, [=] { *s[x] += 'c'; m[x] += 'c'; return OK(); });
            add(X + "[0]='M'", some, [=] { char* p = s[x]->mutable_data(); if (p != s[x]->data()) return "mutable_data() is not the data"; p[0] = 'M'; m[x][0] = 'M'; return OK(); });
            add(X + ".mutable_c_str", some, [=] { char* p = s[x]->mutable_c_str(); if (p != s[x]->data() || p[m[x].size()]) return "mutable_c_str() is not null terminated"; p[m[x].size() - 1] = 'E'; m[x].back() = 'E'; cs[x] = p; csm[x] = m[x]; return OK(); });
            add(X + ".c_str", always, [=] { const char* p = s[x]->c_str(); cs[x] = p; csm[x] = m[x]; return p == s[x]->data() && !p[m[x].size()] ? OK() : "c_str() is not null terminated"; });
            add(X + "=" + X + ".substr(1)", two, [=] { *s[x] = s[x]->substr(1); m[x] = m[x].substr(1); return OK(); });
            add(X + "=" + X + ".substr(0,-1)", two, [=] { *s[x] = s[x]->substr(0, -1); m[x].pop_back(); return OK(); });
            add(X + "=" + Y + ".substr(1,2)", always, [=] { *s[x] = s[y]->substr(1, 2); m[x] = m[y].size() > 1 ? m[y].substr(1, 2) : S(); return OK(); });
            add(X + ".align", always, [=] { s[x]->align(16); return (uintptr_t) s[x]->data() % 16 ? "align() does not align" : OK(); });
            add(X + ".append(own,2)", [=] { return two() && small(); }, [=] { s[x]->append(s[x]->data() + 1, (int) std::min<size_t>(m[x].size() - 1, 30)); m[x] += S(m[x], 1, 30); return OK(); });
            add(X + "=sa.take", always, [=] { *s[x] = a->take_string(); m[x] = ma; ma.clear(); return a->length() ? "take_string() leaves something" : OK(); });
            add("sa<<" + X, small, [=] { *a << *s[x]; ma += m[x]; return OK(); });
            if (x) continue;
            add("A+=A", small, [=] { *s[0] += *s[0]; m[0] += S(m[0]); return OK(); });
            add("A=A", always, [=] { String& r = *s[0]; *s[0] = r; return OK(); });
            add("A=move(B)", always, [=] { *s[0] = std::move(*s[1]); *s[1] = String(); m[0] = m[1]; m[1].clear(); return OK(); });
            add("A=String(move(A))", always, [=] { String t(std::move(*s[0])); *s[0] = String("other"); s[0]->swap(t); return t == "other" ? OK() : "swap()"; });
            add("swap", always, [=] { if (m[0].size() & 1) s[0]->swap(*s[1]); else swap(*s[0], *s[1]); std::swap(m[0], m[1]); return OK(); });
            add("A=stable", always, [=] { *s[0] = "literal"; m[0] = "literal"; return OK(); });
            add("A=A.c_str", always, [=] { *s[0] = s[0]->c_str(); return OK(); });
            add("A.assign(own part)", two, [=] { s[0]->assign(s[0]->begin() + 1, s[0]->end()); m[0] = m[0].substr(1); return OK(); });
            add("A+=own c_str", small, [=] { s[0]->append(s[0]->c_str()); m[0] += S(m[0]); return OK(); });
            add("A=''+A", always, [=] { String t; t += *s[0]; *s[0] = t + ""; return OK(); });
            add("A=A.fast_substring(end)+B", always, [=] { *s[0] = s[0]->fast_substring(s[0]->end(), s[0]->end()) + *s[1]; m[0] = m[1]; return OK(); });
            add("A.append_fill", small, [=] { s[0]->append_fill('f', 5); m[0] += "fffff"; return OK(); });
            add("A.append_uninitialized(20)", small, [=] { char* p = s[0]->append_uninitialized(20); if (!p || p != s[0]->data() + m[0].size()) return "append_uninitialized() returns something else"; memset(p, 'u', 20); m[0].append(20, 'u'); return OK(); });
            add("A=A.unique", always, [=] { *s[0] = s[0]->unique(); return OK(); });
            add("A.shrink_to_fit", always, [=] { s[0]->shrink_to_fit(); return OK(); });
            add("A=B.upper", always, [=] { *s[0] = s[1]->upper(); m[0] = m[1]; for (auto& c : m[0]) c = toupper((u8_t) c); return OK(); });
            add("A=A+B+'x'", small, [=] { *s[0] = *s[0] + *s[1] + 'x'; m[0] = m[0] + m[1] + 'x'; return OK(); });
            add("sa<<sa", small, [=] { *a << *a; ma += S(ma); return OK(); });
            add("sa.append(own part)", [=] { return ma.size() > 1 && small(); }, [=] { a->append(a->data() + 1, (int) ma.size() - 1); ma += S(ma, 1); return OK(); });
            add("sa<<'c'<<-42", small, [=] { *a << 'c' << -42; ma += "c-42"; return OK(); });
            add("sa.fill(60)", small, [=] { a->append_fill('s', 60); ma.append(60, 's'); return OK(); });
            add("sa.pop_back", [=] { return !ma.empty(); }, [=] { a->pop_back(); ma.pop_back(); return OK(); });
            add("sa.clear", always, [=] { a->clear(); ma.clear(); return OK(); });
            add("sa.c_str", always, [=] { const char* p = a->c_str(); return p[ma.size()] ? "the accumulator's c_str() is not null terminated" : OK(); });
            add("sa.back='e'", [=] { return !ma.empty(); }, [=] { a->back() = 'e'; ma.back() = 'e'; return OK(); });
            add("sa.extend", small, [=] { char* p = a->extend(3, 5); memcpy(p, "extended", 8); ma += "ext"; return OK(); });
            add("sa.reserve(130)", small, [=] { char* p = a->reserve(130); memset(p, 'r', 130); a->adjust_length(130); ma.append(130, 'r'); return OK(); });
            add("sa.snprintf", small, [=] { a->snprintf(20, "%d,%s;", 17, "ab"); ma += "17,ab;"; return OK(); });
            add("sa=transfer(A)", always, [=] { StringAccum t = StringAccum::make_transfer(*s[0]); *a = std::move(t); ma = m[0]; m[0].clear(); return OK(); });
            add("sa=move(A.substr)", always, [=] { *a = StringAccum(s[0]->substr(0, 3)); ma = m[0].substr(0, 3); return OK(); });
            add("sa=copy", always, [=] { StringAccum t(*a); StringAccum u; u << "zz"; u = t; a->swap(u); return OK(); });
        }
    }
    void set(int x, const String& v, const S& w) { *s[x] = v; m[x] = w; }
    void setup() override {
        base = live(); cs[0] = cs[1] = nullptr;
        for (auto& x : s) x = new String; a = new StringAccum;
        S t; for (int i = 0; i < 3000; ++i) t += char('a' + i % 23);
        switch (start) {
        case 1: set(0, mk(t.substr(0, 4)), t.substr(0, 4)); set(2, *s[0], m[0]); set(1, mk("x"), "x"); break;                  // no room left
        case 2: set(0, mk(t.substr(0, 5)), t.substr(0, 5)); set(2, s[0]->substr(0, 3), t.substr(0, 3)); set(1, s[0]->substr(2), t.substr(2, 3)); break;      // room behind, shared prefix
        case 3: set(0, String::make_stable(stable_text), stable_text); set(1, s[0]->substr(0, 6), "stable"); set(2, s[0]->substr(7), "text"); break;
        case 4: *a << mk(t.substr(0, 100)); ma = t.substr(0, 100); set(0, mk(t.substr(0, 20)), t.substr(0, 20)); set(1, *s[0], m[0]); break;
        case 5: { StringAccum b; b << mk(t.substr(0, 10)); String q = b.take_string(); set(0, q, t.substr(0, 10)); set(2, s[0]->substr(3, 4), t.substr(3, 4)); *a << mk(t.substr(0, 127)); ma = t.substr(0, 127); break; }
        case 6: set(0, mk(t.substr(0, 1008)), t.substr(0, 1008)); set(1, s[0]->substr(500, 8), t.substr(500, 8)); break;       // the larger size classes
        case 7: { StringAccum b; b << mk(t.substr(0, 8)); set(1, b.take_string(), t.substr(0, 8)); set(0, mk("q"), "q"); set(2, mk("kk"), "kk"); break; }      // a unique string with room
        }
    }
    int nops() const override { return ops.size(); }
    bool enabled(int o) override { return ops[o].on(); }
    const char* step(int o) override { return ops[o].go(); }
    const char* check() override {
        for (int x = 0; x < 3; ++x) {
            if (str(*s[x]) != m[x]) return seq::msg("%c is '%s', not '%s'", "ABK"[x], cut(str(*s[x])).c_str(), cut(m[x]).c_str());
            if (!s[x]->is_stable() && s[x]->is_shared() && s[x]->out_of_memory()) return "out of memory";
        }
        for (int x = 0; x < 2; ++x) if (cs[x]) {
            if (s[x]->data() != cs[x] || m[x] != csm[x]) cs[x] = nullptr;
            else if (cs[x][m[x].size()]) return seq::msg("what c_str() of %c returned is no longer null terminated", "AB"[x]);
        }
        if (str(*a) != ma) return seq::msg("the accumulator holds '%s', not '%s'", cut(str(*a)).c_str(), cut(ma).c_str());
        return nullptr;
    }
    const char* finish() override {
        for (auto& x : s) delete x; delete a; for (auto& x : m) S().swap(x); for (auto& x : csm) S().swap(x); S().swap(ma);
        int n = live(); return n == base ? nullptr : seq::msg("%d blocks of memory are left over", n - base);
    }
    S opname(int o) const override { return ops[o].name; }
};
// ---- functions
static void words(const S& al, int len, const std::function<void(const S&)>& f, int shard = 0, int n = 1) {
    size_t unit = 0;        // every word of up to two letters goes to one shard, along with those it begins
    std::function<void(const S&)> below = [&](const S& w) { f(w); if ((int) w.size() < len) for (char c : al) below(w + c); };
    std::function<void(const S&)> top = [&](const S& w) {
        if ((int) (unit++ % n) == shard) { if (w.size() < 2) f(w); else below(w); }
        if (w.size() < 2 && (int) w.size() < len) for (char c : al) top(w + c);
    };
    top("");
}
#define BAD(what, ...) SEQ_FAIL(what, __VA_ARGS__)
struct Held { char* b; size_t n; Held(const S& x) : b((char*) malloc(x.size() + 1)), n(x.size()) { memcpy(b, x.data(), n); } ~Held() { free(b); } Held(const Held&) = delete; };   // exact memory, so that reading beyond shows
static int sg(long x) { return x < 0 ? -1 : x > 0; }
static void pair(const S& x, const S& y) {
    seq::begin_case(); seq::path(seq::hex(x) + " | " + seq::hex(y));
    char* bx = (char*) malloc(x.size()), *by = (char*) malloc(y.size()); memcpy(bx, x.data(), x.size()); memcpy(by, y.data(), y.size());
    Str p(bx, (int) x.size()), q(by, (int) y.size()); String s = mk(x), t = mk(y);
    int c = sg(x.compare(y)); bool nul = y.find('\0') != S::npos;
    auto w = [&](bool ok, const char* what) { if (!ok) BAD("%s of '%s' and '%s'", what, seq::hex(x).c_str(), seq::hex(y).c_str()); };
    w(sg(p.compare(q)) == c && sg(s.compare(t)) == c && sg(s.compare(q)) == c && sg(s.compare(q.data(), q.length())) == c, "compare");
    w((p == q) == (c == 0) && (s == t) == (c == 0) && (p != t) == (c != 0) && s.equals(q.data(), q.length()) == (c == 0) && (s == y) == (c == 0), "equality");
    w((s < t) == (c < 0) && (s <= q) == (c <= 0) && (p > t) == (c > 0) && (s >= t) == (c >= 0), "order");
    bool sw = x.compare(0, y.size(), y) == 0 && x.size() >= y.size();
    w(p.starts_with(q) == sw && s.starts_with(t) == sw && s.starts_with(q.data(), q.length()) == sw, "starts_with");
    w((s != t) == (c != 0) && (s != q) == (c != 0) && (q == s) == (c == 0) && (s != y) == (c != 0) && (y == s) == (c == 0) && (y != s) == (c != 0) && (p == y) == (c == 0) && (y != p) == (c != 0), "equality");
    w((t < s) == (c > 0) && (s < q) == (c < 0) && (q < s) == (c > 0) && (p < q) == (c < 0) && (p <= q) == (c <= 0) && (s <= t) == (c <= 0) && (s > t) == (c > 0) && (s > q) == (c > 0) && (p >= q) == (c >= 0) && (p >= t) == (c >= 0), "order");
    if (!nul) w((s != y.c_str()) == (c != 0) && (y.c_str() == s) == (c == 0) && (y.c_str() != s) == (c != 0) && (p == y.c_str()) == (c == 0) && (p != y.c_str()) == (c != 0) && (y.c_str() == p) == (c == 0) && (y.c_str() != p) == (c != 0), "comparison with a C string");
    if (!nul) w((s == y.c_str()) == (c == 0) && sg(s.compare(y.c_str())) == c && s.starts_with(y.c_str()) == sw, "comparison with a C string");
    if (c == 0) w(s.hashcode() == p.hashcode() && hashcode(s) == t.hashcode(), "hashcode");
    w(sg(p.natural_compare(q)) == -sg(q.natural_compare(p)) && (p.natural_compare(q) == 0) == (c == 0), "natural_compare");
    int lx = x.size(), ly = y.size();
    for (int st = -2; st <= lx + 2; ++st) {
        int stt = st == lx + 2 ? INT_MAX : st == -2 ? INT_MIN : st;
        int fl = -1, fr = -1;
        for (int i = 0; i + ly <= lx; ++i) if (!x.compare(i, ly, y)) { if (i >= stt && fl < 0) fl = i; if (i <= stt) fr = i; }
        int rl = p.find_left(q, stt), rr = p.find_right(q, stt);
        if (rl != fl || s.find_left(t, stt) != fl || (!nul && s.find_left(y.c_str(), stt) != fl)) BAD("find_left('%s') in '%s' from %d: %d, not %d", seq::hex(y).c_str(), seq::hex(x).c_str(), stt, rl, fl);
        if (rr != fr || s.find_right(t, stt) != fr || (!nul && s.find_right(y.c_str(), stt) != fr)) BAD("find_right('%s') in '%s' from %d: %d, not %d", seq::hex(y).c_str(), seq::hex(x).c_str(), stt, rr, fr);
        if (ly == 1) w(p.find_left(y[0], stt) == fl && p.find_right(y[0], stt) == fr, "finding a character");
    }
    String u = s; u += q; w(str(u) == x + y && str(s) == x && str(s + t) == x + y, "concatenation");
    free(bx); free(by);
}
static void pairs(const S& al, int len, int shard, int n) {
    std::vector<S> v; words(al, len, [&](const S& w) { v.push_back(w); });
    for (size_t i = shard; i < v.size() && !seq::out_of_time(); i += n) for (auto& y : v) pair(v[i], y);
}
// the part of Perl's substr(s, pos, len) inside the string
static S rsub(const S& s, long pos, long len) { long n = s.size(); if (pos < 0) pos += n; long e = len < 0 ? n + len : pos + len; pos = std::max(pos, 0l); e = std::min(e, n); return pos < e ? s.substr(pos, e - pos) : S(); }
static void one(const S& x) {
    seq::begin_case(); seq::path(seq::hex(x));
    Held h(x); Str p(h.b, (int) h.n); String s = mk(x); int n = x.size();
    auto w = [&](bool ok, const char* what) { if (!ok) BAD("%s of '%s'", what, seq::hex(x).c_str()); };
    std::vector<int> at{INT_MIN, -100}; for (int i = -n - 2; i <= n + 2; ++i) at.push_back(i); at.push_back(100);
    for (int pos : at) {
        if (pos > INT_MIN) { S want = pos > n ? S() : pos < -n ? x : x.substr(pos < 0 ? n + pos : pos); if (str(s.substr(pos)) != want) BAD("substr(%d) of '%s'", pos, seq::hex(x).c_str()); }
        std::vector<int> le = at; if (pos <= n) le.push_back(INT_MAX); for (int len : le) if (str(s.substr(pos, len)) != rsub(x, pos, len)) BAD("substr(%d,%d) of '%s' is '%s'", pos, len, seq::hex(x).c_str(), seq::hex(str(s.substr(pos, len))).c_str());
    }
    for (int i = 0; i <= n + 1; ++i) w(str(p.prefix(i)) == x.substr(0, std::min(i, n)), "prefix");
    for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) w(str(s.substring(s.begin() + i, s.begin() + j)) == x.substr(i, j - i) && str(p.substring(p.begin() + i, p.begin() + j)) == x.substr(i, j - i) && str(s.fast_substring(s.ubegin() + i, s.ubegin() + j)) == x.substr(i, j - i), "substring");
    int l = 0, r = n; while (l < n && isspace((u8_t) x[l])) ++l; while (r > 0 && isspace((u8_t) x[r - 1])) --r;
    S lt = x.substr(l), rt = x.substr(0, r), t = l < r ? x.substr(l, r - l) : S();
    w(str(s.ltrim()) == lt && str(p.ltrim()) == lt && str(s.rtrim()) == rt && str(p.rtrim()) == rt && str(s.trim()) == t && str(p.trim()) == t, "trimming");
    S lo = x, up = x, hx, uri, pr[3];
    for (auto& c : lo) if (c >= 'A' && c <= 'Z') c += 32;
    for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32;
    w(str(s.lower()) == lo && str(s.upper()) == up, "changing the case");
    for (char ch : x) {
        u8_t c = ch; char b[8]; snprintf(b, 8, "%02X", c); hx += b;
        if (isalnum(c) || (c && strchr("-_.~", c))) uri += ch; else uri += S("%") + b;
        snprintf(b, 8, "\\%03o", c);
        for (int k = 0; k < 3; ++k) if (c >= 32 && c < 127) pr[k] += (k == 2 && (c == '\\' || c == '"') ? S("\\") : S()) + ch; else if (c >= 127 || k == 1) pr[k] += b; else if (k == 0) pr[k] += S("^") + char(c + 64); else if (c >= 9 && c <= 13) pr[k] += S("\\") + "tnvfr"[c - 9]; else pr[k] += b;
    }
    S js; for (size_t i = 0; i < x.size(); ++i) {
        u8_t c = x[i]; char b[8]; snprintf(b, 8, "\\u%04X", c);
        if (c == 0xe2 && i + 2 < x.size() && u8_t(x[i + 1]) == 0x80 && (u8_t(x[i + 2]) & 0xfe) == 0xa8) { js += u8_t(x[i + 2]) & 1 ? "\\u2029" : "\\u2028"; i += 2; }
        else if (c && strchr("\"\\/", c)) { js += '\\'; js += char(c); } else if (c >= 8 && c <= 13 && c != 11) { js += '\\'; js += "btn_fr"[c - 8]; } else if (c < 32) js += b; else js += char(c);
    }
    StringAccum ja; ja << "pre"; s.encode_json(ja); w(str(s.encode_json()) == js && str(ja) == "pre" + js, "encode_json");
    w(str(s.to_hex()) == hx, "to_hex"); w(str(s.encode_uri_component()) == uri, "encode_uri_component");
    for (int k = 0; k < 3; ++k) if (str(s.printable(k)) != pr[k]) BAD("printable(%d) of '%s' is '%s'", k, seq::hex(x).c_str(), seq::hex(str(s.printable(k))).c_str());
    w(S(s) == x && str(String(Str(p))) == x && str(String(x)) == x && s.length() == n && s.empty() == (n == 0) && !s == (n == 0), "conversion");
    w(str(s) == x, "the value afterwards");
}
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void base64e(const S& x) {
    seq::begin_case(); seq::path(seq::hex(x)); S want; size_t i;
    for (i = 0; i + 2 < x.size(); i += 3) { unsigned v = u8_t(x[i]) << 16 | u8_t(x[i + 1]) << 8 | u8_t(x[i + 2]); for (int k = 18; k >= 0; k -= 6) want += B64[v >> k & 63]; }
    S pad = want; if (x.size() - i == 1) { unsigned v = u8_t(x[i]) << 4; want += B64[v >> 6]; want += B64[v & 63]; pad = want + "=="; } else if (x.size() - i == 2) { unsigned v = (u8_t(x[i]) << 8 | u8_t(x[i + 1])) << 2; want += B64[v >> 12]; want += B64[v >> 6 & 63]; want += B64[v & 63]; pad = want + "="; }
    Held h(x); Str p(h.b, (int) h.n); StringAccum sa; sa << "pre"; p.encode_base64(sa); StringAccum sb; p.encode_base64(sb, true);
    if (str(sa) != "pre" + want || str(sb) != pad || str(mk(x).encode_base64()) != want || str(mk(x).encode_base64(true)) != pad) BAD("encode_base64 of '%s'", seq::hex(x).c_str());
    if (str(mk(want).decode_base64()) != x || str(mk(pad).decode_base64()) != x) BAD("'%s' does not survive base64", seq::hex(x).c_str());
}
static void base64d(const S& x) {       // text to bytes
    seq::begin_case(); seq::path(seq::hex(x)); S t = x; while (!t.empty() && t.back() == '=') t.pop_back();
    S want; bool ok = t.size() % 4 != 1; unsigned acc = 0; int bits = 0;
    for (char c : t) { const char* f = c ? strchr(B64, c) : nullptr; if (!f) { ok = false; break; } acc = acc << 6 | (f - B64); bits += 6; if (bits >= 8) { want += char(acc >> (bits - 8)); bits -= 8; } }
    Held h(x); Str p(h.b, (int) h.n); StringAccum sa; sa << "pre"; bool r = p.decode_base64(sa);
    if (r != ok) BAD("decode_base64 %s '%s'", r ? "accepts" : "refuses", seq::hex(x).c_str());
    if (str(sa) != (ok ? "pre" + want : S("pre"))) BAD("decode_base64 of '%s' gives '%s'", seq::hex(x).c_str(), seq::hex(str(sa)).c_str());
    if (str(mk(x).decode_base64()) != (ok ? want : S())) BAD("decode_base64 of '%s'", seq::hex(x).c_str());
}
// patterns whose meaning is documented: classes are closed, not empty, and hold no backslash; a backslash is followed by something
static bool parse_glob(const S& p, std::vector<std::pair<char, S>>& v) {
    for (size_t i = 0; i < p.size(); ++i) {
        char c = p[i];
        if (c == '*' || c == '?') v.push_back({c, ""});
        else if (c == '\\') { if (++i == p.size()) return false; v.push_back({'=', S(1, p[i])}); }
        else if (c == '[') { bool neg = i + 1 < p.size() && p[i + 1] == '^'; size_t b = i + 1 + neg, e = p.find(']', b); if (e == S::npos || e == b) return false; S k = p.substr(b, e - b); if (k.find('\\') != S::npos || k.find('-') != S::npos) return false; v.push_back({neg ? '^' : '[', k}); i = e; }
        else v.push_back({'=', S(1, c)});
    }
    return true;
}
static void glob(const S& pat, const std::vector<S>& texts) {
    std::vector<std::pair<char, S>> v; if (!parse_glob(pat, v)) return;
    Held hp(pat); Str p(hp.b, (int) hp.n); String ps = mk(pat);
    for (auto& x : texts) {
        seq::begin_case(); seq::path(seq::hex(x) + " ~ " + seq::hex(pat));
        std::vector<char> cur(v.size() + 1), nx; cur[0] = 1; auto close = [&](std::vector<char>& c) { for (size_t i = 0; i < v.size(); ++i) if (c[i] && v[i].first == '*') c[i + 1] = 1; };
        close(cur);
        for (char c : x) { nx.assign(v.size() + 1, 0); for (size_t i = 0; i < v.size(); ++i) if (cur[i]) { char k = v[i].first; bool in = v[i].second.find(c) != S::npos; if (k == '*') nx[i] = 1; else if (k == '?' || (k == '^' ? !in : in)) nx[i + 1] = 1; } close(nx); cur.swap(nx); }
        Held h(x); bool want = cur[v.size()], got = Str(h.b, (int) h.n).glob_match(p);
        if (got != want || mk(x).glob_match(ps) != want) BAD("'%s' %s the pattern '%s'", seq::hex(x).c_str(), got ? "matches" : "does not match", seq::hex(pat).c_str());
    }
}
// ---- encodings
static void put8(S& o, unsigned c) { if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); } else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } }
static int u8len(const S& s, size_t i) {        // length of the valid character other than NUL at i, or 0
    u8_t a = s[i]; int want; unsigned lo = 0x80, hi = 0xbf;
    if (a && a < 0x80) return 1;
    if (a >= 0xc2 && a <= 0xdf) want = 2; else if (a >= 0xe0 && a <= 0xef) { want = 3; if (a == 0xe0) lo = 0xa0; if (a == 0xed) hi = 0x9f; } else if (a >= 0xf0 && a <= 0xf4) { want = 4; if (a == 0xf0) lo = 0x90; if (a == 0xf4) hi = 0x8f; } else return 0;
    for (int k = 1; k < want; ++k) { if (i + k >= s.size()) return 0; u8_t b = s[i + k]; if (b < (k == 1 ? lo : 0x80) || b > (k == 1 ? hi : 0xbf)) return 0; }
    return want;
}
static bool valid8(const S& s) { for (size_t i = 0; i < s.size();) { int n = u8len(s, i); if (!n) return false; i += n; } return true; }
static const S BOM = "\xef\xbb\xbf", FFFD = "\xef\xbf\xbd";
static unsigned w1252(u8_t c) {
    static const unsigned t[] = {0x20ac,0x81,0x201a,0x192,0x201e,0x2026,0x2020,0x2021,0x2c6,0x2030,0x160,0x2039,0x152,0x8d,0x17d,0x8f,0x90,0x2018,0x2019,0x201c,0x201d,0x2022,0x2013,0x2014,0x2dc,0x2122,0x161,0x203a,0x153,0x9d,0x17e,0x178};
    return c >= 0x80 && c < 0xa0 ? t[c - 0x80] : c;
}
static S r1252(const S& x) { S r; for (u8_t c : x) if (c) put8(r, w1252(c)); return r; }
static S r16(const S& x, bool be, int fl) {
    S r; std::vector<unsigned> u; for (size_t i = 0; i + 1 < x.size(); i += 2) u.push_back(be ? u8_t(x[i]) << 8 | u8_t(x[i + 1]) : u8_t(x[i + 1]) << 8 | u8_t(x[i]));
    if ((fl & String::utf_strip_bom) && !u.empty() && u[0] == 0xfeff) u.erase(u.begin());
    for (size_t i = 0; i < u.size(); ++i) { unsigned c = u[i]; if (c >= 0xd800 && c < 0xdc00 && i + 1 < u.size() && u[i + 1] >= 0xdc00 && u[i + 1] < 0xe000) put8(r, 0x10000 + ((c - 0xd800) << 10) + (u[++i] - 0xdc00)); else if (c >= 0xd800 && c < 0xe000) { if (fl & String::utf_replacement) r += FFFD; } else if (c) put8(r, c); }
    return r;
}
static void enc(const S& x) {
    seq::begin_case(); seq::path(seq::hex(x)); String s = mk(x);
    auto w = [&](bool ok, const char* what, const String& got) { if (!ok) BAD("%s of '%s' is '%s'", what, seq::hex(x).c_str(), seq::hex(str(got)).c_str()); };
    { Held h(x); for (size_t i = 0; i < x.size(); ++i) { const char* f = h.b + i; int k = String::skip_utf8_char(f, (const char*) h.b + h.n) - f; if (k != u8len(x, i)) BAD("skip_utf8_char at %zu of '%s' skips %d", i, seq::hex(x).c_str(), k); } }
    for (int fl = 0; fl < 4; ++fl) {
        // UTF-8, and UTF-8 in which supplementary characters are pairs of encoded surrogates
        for (int ces = 0; ces < 2; ++ces) {
            S r; size_t i = (fl & String::utf_strip_bom) && !x.compare(0, 3, BOM) ? 3 : 0;
            while (i < x.size()) {
                int k = u8len(x, i); if (k) { r.append(x, i, k); i += k; continue; }
                auto b = [&](size_t j) -> unsigned { return i + j < x.size() ? u8_t(x[i + j]) : 0; };
                if (ces && b(0) == 0xed && b(1) >= 0xa0 && b(1) < 0xb0 && b(2) / 64 == 2 && b(3) == 0xed && b(4) >= 0xb0 && b(4) < 0xc0 && b(5) / 64 == 2) { unsigned hi = (b(1) & 15) << 6 | (b(2) & 63), lo = (b(4) & 15) << 6 | (b(5) & 63); put8(r, 0x10000 + (hi << 10) + lo); i += 6; continue; }
                if (x[i] && (fl & String::utf_replacement)) r += FFFD;
                for (++i; i < x.size() && (u8_t(x[i]) & 0xc0) == 0x80; ++i) ;
            }
            String g = ces ? s.cesu8_to_utf8(fl) : s.utf8_to_utf8(fl); w(str(g) == r, ces ? "cesu8_to_utf8" : "utf8_to_utf8", g);
        }
        bool nonchar = false; for (size_t i = 0; i + 1 < x.size(); i += 2) { u8_t a = x[i], b = x[i + 1]; nonchar = nonchar || (a == 0xff && b >= 0xfe) || (b == 0xff && a >= 0xfe); if (!i && ((a == 0xfe && b == 0xff) || (a == 0xff && b == 0xfe))) nonchar = nonchar && false; }
        bool odd = false; for (size_t i = 2; i + 1 < x.size(); i += 2) { u8_t a = x[i], b = x[i + 1]; if ((a == 0xff && b >= 0xfe) || (b == 0xff && a >= 0xfe)) odd = true; }
        if (x.size() > 1 && u8_t(x[0]) == 0xff && u8_t(x[1]) == 0xff) odd = true;
        if (!odd) {
            bool fe = x.size() > 1 && u8_t(x[0]) == 0xfe && u8_t(x[1]) == 0xff, ff = x.size() > 1 && u8_t(x[0]) == 0xff && u8_t(x[1]) == 0xfe;
            String g = s.utf16be_to_utf8(fl); if (!ff) w(str(g) == r16(x, true, fl), "utf16be_to_utf8", g);
            g = s.utf16le_to_utf8(fl); if (!fe) w(str(g) == r16(x, false, fl), "utf16le_to_utf8", g);
            g = s.utf16_to_utf8(fl); w(str(g) == (ff ? r16(x, false, fl) : r16(x, true, fl)), "utf16_to_utf8", g);
            g = s.utf16_to_utf8(fl | String::utf_prefer_le); w(str(g) == (fe ? r16(x, true, fl) : r16(x, false, fl)), "utf16_to_utf8, little endian preferred", g);
        }
        String g = s.to_utf8(fl); S gs = str(g); w(valid8(gs), "to_utf8", g);
        bool wide = x.size() > 2 && ((u8_t(x[0]) == 0xff && u8_t(x[1]) == 0xfe) || (u8_t(x[0]) == 0xfe && u8_t(x[1]) == 0xff) || (u8_t(x[0]) > 0 && u8_t(x[0]) < 0x80 && !x[1]) || (!x[0] && u8_t(x[1]) > 0 && u8_t(x[1]) < 0x80));
        if (!wide) {
            bool bom = (fl & String::utf_strip_bom) && x.size() > 3 && !x.compare(0, 3, BOM), any = false; S t = bom ? x.substr(3) : x, z; for (char c : t) if (c) z += c;
            for (size_t i = 0; i < t.size(); ++i) any = any || u8len(t, i) > 1 || u8_t(t[i]) == 0xed;
            if (x.size() == 3 && x == BOM) ; else if (valid8(z) && valid8(t)) w(gs == z, "to_utf8", g); else if (!any) w(gs == r1252(t), "to_utf8", g);
        }
    }
    String g = s.windows1252_to_utf8(); w(str(g) == r1252(x), "windows1252_to_utf8", g);
    w(str(s) == x, "the value afterwards", s);
}
static void points(int shard, int n) {
    for (int c = -3 + shard; c < 0x110100; c += n) {
        seq::begin_case(); StringAccum sa; sa << "x"; bool r = sa.append_utf8(c); S w = "x"; bool ok = c > 0 && c < 0x110000 && !(c >= 0xd800 && c < 0xe000);
        if ((c == 0xfffe || c == 0xffff) && !r) ok = false;
        if (ok) put8(w, c); if (r != ok || str(sa) != w) BAD("append_utf8(0x%X) gives '%s'", c, seq::hex(str(sa)).c_str());
        if (ok) { S t = w + "y"; String s = mk(t); if (str(s.utf8_to_utf8()) != t || str(s.to_utf8()) != t || str(s.cesu8_to_utf8()) != t) BAD("U+%04X does not survive", c); }
        if (ok) for (int be = 0; be < 2; ++be) { S x; auto u = [&](unsigned v) { x += char(be ? v >> 8 : v); x += char(be ? v : v >> 8); }; if (c < 0x10000) u(c); else { u(0xd800 + ((c - 0x10000) >> 10)); u(0xdc00 + ((c - 0x10000) & 0x3ff)); } u('y'); String g = be ? mk(x).utf16be_to_utf8() : mk(x).utf16le_to_utf8(); if (c != 0xfffe && c != 0xffff && str(g) != w.substr(1) + "y") BAD("UTF-16 of U+%04X gives '%s'", c, seq::hex(str(g)).c_str()); }
        if (c >= 0x10000 && ok) { S x; unsigned hi = 0xd800 + ((c - 0x10000) >> 10), lo = 0xdc00 + ((c - 0x10000) & 0x3ff); put8(x, hi); put8(x, lo); if (str(mk(x).cesu8_to_utf8()) != w.substr(1) || str(mk(x).to_utf8()) != w.substr(1)) BAD("CESU-8 of U+%04X", c); }
    }
}
template <typename T> static void num(T v, const char* f) {
    char b[64]; snprintf(b, 64, f, v); seq::begin_case(); StringAccum sa; sa << "n" << v;
    if (str(String(v)) != b || str(sa) != S("n") + b) BAD("the text of %s is '%s' or '%s'", b, seq::hex(str(String(v))).c_str(), seq::hex(str(sa)).c_str());
}
static void numbers() {
    std::vector<__int128> v; for (int k = 0; k <= 64; ++k) for (int d = -2; d <= 2; ++d) { __int128 x = ((__int128) 1 << k) + d; v.push_back(x); v.push_back(-x); } for (__int128 x = 1; x < ((__int128) 1 << 64); x *= 10) for (int d = -1; d <= 1; ++d) { v.push_back(x + d); v.push_back(-x + d); } for (int i = -300; i < 300; ++i) v.push_back(i);
    for (auto x : v) { num((int) x, "%d"); num((unsigned) x, "%u"); num((long) x, "%ld"); num((unsigned long) x, "%lu"); num((long long) x, "%lld"); num((unsigned long long) x, "%llu"); num((double) x, "%.12g"); num((double) x / 7, "%.12g"); }
    for (auto x : v) if (x >= -((__int128) 1 << 62) && x <= ((__int128) 1 << 62)) {
        char b[40]; snprintf(b, 40, "%ld", (long) x); S plus = x >= 0 ? S("+") + b : S(b);
        if (String(b).to_i() != (long) x || mk(plus).to_i() != (long) x || mk(S(b) + "x1").to_i() != (long) x || mk("y" + S(b)).to_i() != 0) BAD("to_i of '%s'", b);
        long e = x >= 0 ? (long) x : -1; if (Str(b).to_i() != e || Str((S(b) + " ").c_str()).to_i() != -1) BAD("Str::to_i of '%s'", b);
    }
    if (str(String(true)) != "true" || str(String(false)) != "false" || str(String::make_zero()) != "0" || !String::make_empty().empty() || str(String('c')) != "c" || str(String((unsigned char) 0xff)) != "\xff") SEQ_FAIL("a constant string is wrong");
    StringAccum sa; sa << true << false << (short) -5 << (unsigned short) 65535; if (str(sa) != "truefalse-565535") SEQ_FAIL("'%s'", str(sa).c_str());
    for (int n : {0, 1, 4, 5, 20, 300}) { String s = String::make_fill('z', n); if (str(s) != S(n, 'z')) SEQ_FAIL("make_fill(%d)", n); String u = String::make_uninitialized(n); if (u.length() != n) SEQ_FAIL("make_uninitialized(%d)", n); }
    // literals, with and without lengths
    if (str(String("abc", -1)) != "abc" || str(String("abc", 2)) != "ab" || str(String("a\0c", 3)) != S("a\0c", 3) || str(String((const unsigned char*) "abc", -1)) != "abc" || str(String::make_stable("abc", -1)) != "abc" || str(String::make_stable("abc", 2)) != "ab") SEQ_FAIL("a string made of a literal and a length");
    { char b[4] = "xyz"; asm volatile("" : : "r"(b) : "memory"); String s(b, -1), t(b); b[0] = 'q'; if (str(s) != "xyz" || str(t) != "xyz") SEQ_FAIL("a string changed with the buffer it was made from"); }
    // printing more than fits
    for (int lim = 0; lim <= 8; ++lim) for (int len = 0; len <= 300; len = len < 12 ? len + 1 : len * 5) {
        S t(len, 'p'); StringAccum p; p << "ab"; p.snprintf(lim, "%s", t.c_str()); p << "c"; seq::begin_case();
        if (str(p) != "ab" + t.substr(0, lim) + "c") BAD("snprintf(%d) of %d characters: %d in all", lim, len, p.length());
        char* b = (char*) malloc(lim + 1); Str r = Str::snprintf(b, lim + 1, "%s", t.c_str()); if (r.length() > lim || str(r) != t.substr(0, lim)) BAD("Str::snprintf into %d bytes of %d characters has length %d", lim + 1, len, r.length()); free(b);
    }
    std::vector<String> js{String("a"), String(""), String("b")}; for (int k = 0; k <= 3; ++k) { StringAccum p; p.append_join(", ", js.begin(), js.begin() + k); S w[] = {"", "a", "a, ", "a, , b"}; if (str(p) != w[k]) SEQ_FAIL("append_join"); }
    // numbers in texts compare by value
    { std::vector<std::pair<S, double>> d; for (int sign = 0; sign < 2; ++sign) for (int i : {0, 1, 2, 9, 10, 12, 100}) for (S f : {"", ".0", ".1", ".01", ".12", ".5", ".50", ".123", ".9", ".099", ".10"}) { S x = (sign ? "-" : "") + std::to_string(i) + f; d.push_back({x, strtod(x.c_str(), 0)}); }
      for (auto& x : d) for (auto& y : d) for (S pre : {"", "a ", "t "}) { if ((x.first[0] == '-') != (y.first[0] == '-')) continue; seq::begin_case(); S a = pre + x.first, b = pre + y.first; int c = String::natural_compare(Str(a), Str(b)); if (x.second != y.second ? sg(c) != (x.second < y.second ? -1 : 1) : (c == 0) != (a == b)) BAD("natural_compare of '%s' and '%s'", a.c_str(), b.c_str()); } }
    { std::vector<std::vector<int>> v; for (int a : {0, 2, 10}) for (int b : {0, 2, 10}) for (int c : {0, 2, 10}) for (int e : {0, 2, 10}) v.push_back({a, b, c, e});
      for (auto& x : v) for (auto& y : v) for (int n : {3, 4}) { S a, b; int w = 0; for (int i = 0; i < n; ++i) { a += (i ? "." : "") + std::to_string(x[i]); b += (i ? "." : "") + std::to_string(y[i]); if (!w) w = sg(x[i] - y[i]); } seq::begin_case(); if (sg(String::natural_compare(Str(a), Str(b))) != w) BAD("natural_compare of '%s' and '%s'", a.c_str(), b.c_str()); } }
    for (int i = 0; i < 130; ++i) for (int j = 0; j < 130; ++j) for (const char* f : {"%d", "a%d", "a%db", "x %d y"}) { char a[40], b[40]; snprintf(a, 40, f, i); snprintf(b, 40, f, j); seq::begin_case(); if (sg(String::natural_compare(Str(a), Str(b))) != sg(i - j)) BAD("natural_compare of '%s' and '%s'", a, b); }
}
static void hashes() {
    std::vector<S> v; words("ab\xff", 5, [&](const S& w) { v.push_back(w); v.push_back(w + "0123456789"); });
    for (auto& x : v) { uint32_t h = 0; for (int off = 0; off < 8; ++off) { seq::begin_case(); char* b = (char*) malloc(off + x.size()); memcpy(b + off, x.data(), x.size()); uint32_t g = Str(b + off, (int) x.size()).hashcode(); if (off && g != h) BAD("hashcode of '%s' depends on where it is", seq::hex(x).c_str()); h = g; free(b); } }
}
// every way to make, assign and append, in memory that held something else
template <typename T> struct Box {
    alignas(T) char b[sizeof(T)]; T* p;
    template <typename F> Box(int fill, F f) { memset(b, fill, sizeof b); p = f((void*) b); }
    ~Box() { p->~T(); }
};
static void forms(const S& x) {
    seq::begin_case(); seq::path(seq::hex(x)); Held h(x); const char* b = h.b; int n = h.n; const u8_t* u = (const u8_t*) b; bool nul = x.find('\0') != S::npos;
    std::vector<char> z(x.begin(), x.end()); z.push_back(0); const char* cs = z.data(); int before = live();
    auto ok = [&](const char* what, const S& got, const S& want) { if (got != want) BAD("%s of '%s' gives '%s'", what, seq::hex(x).c_str(), seq::hex(got).c_str()); };
    for (int fill : {0, 0x41, 0xff}) {
        String o = mk(x); Str st(b, n); StringAccum oa(o);
        std::function<String*(void*)> mkS[] = {[&](void* m) { return new (m) String(o); }, [&](void* m) { String t = mk(x); return new (m) String(std::move(t)); }, [&](void* m) { return new (m) String(st); }, [&](void* m) { return new (m) String(x); }, [&](void* m) { return new (m) String(b, n); }, [&](void* m) { return new (m) String(u, n); }, [&](void* m) { return new (m) String(b, b + n); }, [&](void* m) { return new (m) String(u, u + n); }, [&](void* m) { return new (m) String(String::make_stable(b, n)); }, [&](void* m) { return new (m) String(String::make_stable(b, b + n)); }, [&](void* m) { return new (m) String(String::make_stable(st)); }, [&](void* m) { return new (m) String(o.internal_rep()); }, [&](void* m) { if (nul) return new (m) String(o); return new (m) String(cs); }, [&](void* m) { if (nul) return new (m) String(o); return new (m) String(String::make_stable(cs)); }, [&](void* m) { return new (m) String(oa.data(), oa.length()); }};
        int k = 0; for (auto& f : mkS) { Box<String> B(fill, f); ok(seq::msg("constructor %d", k++), str(*B.p), x); String c(*B.p); c += "tail"; ok("appending to a copy", str(*B.p) + str(c), x + x + "tail"); *B.p += "T"; ok("appending", str(*B.p), x + "T"); }
        { Box<String> B(fill, [](void* m) { return new (m) String; }); ok("String()", str(*B.p), ""); }
        std::function<StringAccum*(void*)> mkA[] = {[&](void* m) { return new (m) StringAccum(b, n); }, [&](void* m) { return new (m) StringAccum(st); }, [&](void* m) { return new (m) StringAccum(o); }, [&](void* m) { StringAccum t(b, n); return new (m) StringAccum(t); }, [&](void* m) { StringAccum t(b, n); return new (m) StringAccum(std::move(t)); }, [&](void* m) { return new (m) StringAccum(String(b, n)); }, [&](void* m) { return nul ? new (m) StringAccum(b, n) : new (m) StringAccum(cs); }};
        k = 0; for (auto& f : mkA) { Box<StringAccum> B(fill, f); ok(seq::msg("accumulator constructor %d", k++), str(*B.p), x); *B.p << "T"; ok("accumulating", str(*B.p), x + "T"); }
        for (int cap : {0, 1, 127, 128, 129, 300}) { Box<StringAccum> B(fill, [&](void* m) { return new (m) StringAccum(cap); }); ok("StringAccum(capacity)", str(*B.p), ""); if (B.p->capacity() < cap) SEQ_FAIL("capacity"); B.p->append(b, n); ok("accumulating", str(*B.p), x); }
    }
    for (S was : {"", "w", "was here before and is longer"}) {
        String o = mk(x); Str st(b, n);
        auto S1 = [&](const char* what, const std::function<void(String&)>& f, const S& want, bool front = false) { String t = mk(was), keep = t, half = t.substr(0, 3); f(t); ok(what, str(t), want); ok("the value kept aside", str(keep) + str(half), was + was.substr(0, 3)); String l("literal"); f(l); ok(what, str(l), front ? "preliteral" : want.size() >= was.size() && !want.compare(0, was.size(), was) && want != x ? "literal" + want.substr(was.size()) : was.empty() && want == x ? str(l) : want); };
        S1("assign(String)", [&](String& t) { t.assign(o); }, x); S1("assign(String&&)", [&](String& t) { String q = mk(x); t.assign(std::move(q)); }, x); S1("= String&&", [&](String& t) { t = mk(x); }, x); S1("assign(Str)", [&](String& t) { t.assign(st); }, x); S1("= Str", [&](String& t) { t = st; }, x); S1("assign(std::string)", [&](String& t) { t.assign(x); }, x); S1("= std::string", [&](String& t) { t = x; }, x); S1("assign(first, last)", [&](String& t) { t.assign(b, b + n); }, x);
        if (!nul) { S1("assign(cstr)", [&](String& t) { t.assign(cs); }, x); S1("= cstr", [&](String& t) { t = cs; }, x); }
        S a = was + x; S1("append(String)", [&](String& t) { t.append(o); }, a); S1("+= String", [&](String& t) { t += o; }, a); S1("+= Str", [&](String& t) { t += st; }, a); S1("append(s, len)", [&](String& t) { t.append(b, n); }, a); S1("append(first, last)", [&](String& t) { t.append(b, b + n); }, a); S1("append(unsigned)", [&](String& t) { t.append(u, u + n); }, a); S1("+ String", [&](String& t) { t = t + o; }, a);
        if (!nul) { S1("append(cstr)", [&](String& t) { t.append(cs); }, a); S1("+= cstr", [&](String& t) { t += cs; }, a); S1("append(s, -1)", [&](String& t) { t.append(cs, -1); }, a); S1("+ cstr", [&](String& t) { t = t + cs; }, a); S1("cstr +", [&](String& t) { t = "pre" + t; }, "pre" + was, true); }
        for (char c : x) S1("+= char", [&](String& t) { t += c; }, was + c); S1("+ char", [&](String& t) { t = t + 'q'; }, was + "q");
        auto A1 = [&](const char* what, const std::function<void(StringAccum&)>& f, const S& want) { for (int slack : {0, 1, 40}) { StringAccum t(mk(was)); t.reserve(slack); f(t); ok(what, str(t), want); String r = t.take_string(); ok(what, str(r), want); f(t); ok("using an accumulator again", str(t), was.size() <= want.size() && !want.compare(0, was.size(), was) ? want.substr(was.size()) : str(t)); } };
        StringAccum oa(o);
        A1("<< String", [&](StringAccum& t) { t << o; }, a); A1("<< Str", [&](StringAccum& t) { t << st; }, a); A1("<< StringAccum", [&](StringAccum& t) { t << oa; }, a); A1("append(s, len)", [&](StringAccum& t) { t.append(b, n); }, a); A1("append(unsigned s, len)", [&](StringAccum& t) { t.append(u, n); }, a); A1("append(first, last)", [&](StringAccum& t) { t.append(b, b + n); }, a); A1("append(unsigned first, last)", [&](StringAccum& t) { t.append(u, u + n); }, a);
        A1("extend", [&](StringAccum& t) { memcpy(t.extend(n), b, n); }, a); A1("extend with room", [&](StringAccum& t) { char* d = t.extend(n, 9); memcpy(d, b, n); memset(d + n, 'R', 9); }, a); A1("set_end", [&](StringAccum& t) { char* d = t.reserve(n + 5); memcpy(d, b, n); t.set_end(d + n); }, a); A1("set_length", [&](StringAccum& t) { int l = t.length(); char* d = t.reserve(n + 5); memcpy(d, b, n); t.set_length(l + n); }, a); A1("resize", [&](StringAccum& t) { int l = t.length(); t.resize(l + n + 200); memcpy(t.data() + l, b, n); t.resize(l + n); }, a); A1("pop_back", [&](StringAccum& t) { t << st << "xyz"; t.pop_back(2); t.pop_back(); }, a); A1("swap", [&](StringAccum& t) { StringAccum q; q << t << st; t.swap(q); }, a);
        for (char c : x) { A1("<< char", [&](StringAccum& t) { t << c; }, was + c); A1("append(unsigned char)", [&](StringAccum& t) { t.append((u8_t) c); }, was + c); }
        if (!nul) { A1("<< cstr", [&](StringAccum& t) { t << cs; }, a); A1("append(cstr)", [&](StringAccum& t) { t.append(cs); }, a); }
        { StringAccum t(mk(was)); StringAccum q; q << "other"; t = q; ok("= StringAccum", str(t) + str(q), "otherother"); t = StringAccum(o); ok("= StringAccum&&", str(t), x); String v = mk(x); t = StringAccum::make_transfer(v); ok("make_transfer", str(t), x); }
        { Str t(was); t.assign(o); ok("Str::assign(String)", str(t), x); t.assign(); ok("Str::assign()", str(t), ""); t.assign(b, n); ok("Str::assign(s, len)", str(t), x); if (!nul) { t.assign(); t.assign(cs); ok("Str::assign(cstr)", str(t), x); ok("Str(cstr)", str(Str(cs)), x); } ok("Str(first, last)", str(Str(b, b + n)) + str(Str(u, u + n)) + str(Str(u, n)) + str(Str(x)) + str(Str(o)), x + x + x + x + x); }
    }
    { String o = mk(x); for (int i = -1; i <= n; ++i) { if (i >= 0 && i < n && (o[i] != x[i] || o.at(i) != x[i])) SEQ_FAIL("[]"); } if (n && (o.front() != x[0] || o.back() != x.back())) SEQ_FAIL("front() or back()"); if (S(o.begin(), o.end()) != x || S((const char*) o.ubegin(), (const char*) o.uend()) != x || (const u8_t*) o.data() != o.udata()) SEQ_FAIL("iterators"); }
    (void) before;
}
int main(int argc, char** argv) {
    bool thorough = false; for (int i = 1; i < argc; ++i) if (S(argv[i]) == "--thorough") thorough = true;
    int q = thorough;
    std::vector<seq::Scenario> sc;
    auto add = [&](const S& n, int shards, std::function<void()> f) { seq::Scenario s; s.name = n; s.depth = 0; s.run = f; s.shards = shards; sc.push_back(s); };
    auto sh = [] { return seq::seq_shard; }; auto ns = [] { return seq::seq_nshards; };
    for (int st = 0; st < 8; ++st) { seq::Scenario s; s.name = "operations/" + std::to_string(st); s.depth = thorough ? 4 : 3; s.make = [st] { return new Ops(st); }; sc.push_back(s); }
    add("numbers", 1, [] { numbers(); });
    add("hashes", 1, [] { hashes(); });
    add("pairs/ab", 16, [=] { pairs("ab", 6 + q, sh(), ns()); });
    add("pairs/bytes", 16, [=] { pairs(S("\0a\x80\xff", 4), 3 + q, sh(), ns()); });
    add("pairs/numbers", 32, [=] { pairs("019.- aA", 3, sh(), ns()); });
    S every; for (int i = 0; i < 256; ++i) every += char(i);
    add("one/bytes", 16, [=] { words(every, 2, [](const S& w) { one(w); }, sh(), ns()); });
    add("one/space", 32, [=] { words(S(" \ta\0\xa0Z", 6), 5 + q, [](const S& w) { one(w); }, sh(), ns()); });
    add("one/json", 32, [=] { words("\xe2\x80\xa8\xa9\"/\x1f", 5 + q, [](const S& w) { one(w); }, sh(), ns()); });
    add("one/quote", 32, [=] { words("a\"\\\n\x01\x7f\x80", 4 + q, [](const S& w) { one(w); }, sh(), ns()); });
    add("base64/bytes", 16, [=] { words(every, 2, [](const S& w) { base64e(w); base64d(w); }, sh(), ns()); });
    add("base64/encode", 32, [=] { words(S("\0\x01\x3f\x80\xff", 5), 6 + q, [](const S& w) { base64e(w); }, sh(), ns()); });
    add("base64/decode", 32, [=] { words("AZa9+/=-", 5 + q, [](const S& w) { base64d(w); }, sh(), ns()); });
    add("base64/each", 1, [] { for (int i = 0; i < 256; ++i) for (int p = 0; p < 4; ++p) { S x = "QUJD"; x[p] = char(i); base64d(x); base64d(x + "QUJD"); base64d("QUJD" + x); base64d("QU" + x.substr(0, 2)); base64d(x.substr(p)); } });
    add("glob", 64, [=] { std::vector<S> t; words("ab]", 4, [&](const S& w) { t.push_back(w); }); t.push_back("*"); t.push_back("?"); t.push_back("\\"); t.push_back("a*b"); t.push_back("[a]"); t.push_back("^"); words("ab*?[]^\\", 5 + q, [&](const S& w) { if (!seq::out_of_time()) glob(w, t); }, sh(), ns()); });
    add("encodings/utf8", 64, [=] { words(S("\0A\x7f\x80\x8f\x90\x9f\xa0\xbf\xc1\xc2\xe0\xed\xef\xf0\xf4", 16), 4 + q, [](const S& w) { if (!seq::out_of_time()) enc(w); }, sh(), ns()); });
    add("encodings/bytes", 16, [=] { words(every, 2, [](const S& w) { enc(w); enc(w + "A"); enc("A" + w); enc("\xc3\x9d" + w); }, sh(), ns()); });
    add("encodings/cesu8", 32, [=] { words("\xed\xa0\xaf\xb0\xbf\x80\x41", 6 + q, [](const S& w) { if (!seq::out_of_time()) enc(w); }, sh(), ns()); });
    add("encodings/utf16", 64, [=] { words(S("\0A\xd8\xdb\xdc\xdf\xe0\xfe\xff", 9), 5 + q, [](const S& w) { if (!seq::out_of_time()) enc(w); }, sh(), ns()); });
    add("encodings/bom", 32, [=] { words("\xef\xbb\xbf\xfe\xff\x41", 6, [](const S& w) { enc(w); }, sh(), ns()); });
    add("encodings/leads", 32, [=] { long k = 0; for (u8_t a : {0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5}) for (int b = 0; b < 256; ++b) for (u8_t c : {0x7f, 0x80, 0xbf, 0xc0, 0x41}) for (u8_t d : {0x7f, 0x80, 0xbf, 0xc0, 0x41}) if (k++ % ns() == sh()) { S w{char(a), char(b), char(c), char(d)}; enc(w); if (d == 0x41) { enc(w.substr(0, 3)); enc("A" + w); } } });
    add("forms/bytes", 32, [=] { words(every, 1, [](const S& w) { forms(w); }, sh(), ns()); });
    add("forms/short", 32, [=] { words(S("ab\0", 3), 3 + q, [](const S& w) { forms(w); }, sh(), ns()); });
    add("forms/long", 32, [=] { static const int at[] = {4, 5, 7, 8, 9, 15, 16, 17, 20, 21, 100, 111, 112, 113, 114, 120, 127, 128, 129, 240, 1000, 1007, 1008, 1009, 1023, 1024, 1025, 2000, 5000}; for (size_t i = sh(); i < sizeof at / sizeof *at; i += ns()) forms(S(at[i], 'l')); });
    add("points", 32, [=] { points(sh(), ns()); });
    return seq::drive(argc, argv, sc);
}
