// C18: the JSON codec and Json values.  Text: every string over several alphabets against a strict parser of RFC 8259,
// in every way to cut it into pieces.  Values: every short sequence of operations on two variables against plain trees.
#include "kvthread.hh"
#include "json.hh"
#include "straccum.hh"
#include "seq.hh"
#include <map>
#include <math.h>
using lcdf::Json; using lcdf::String; using lcdf::StringAccum; using lcdf::Str;
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
typedef std::string S; typedef unsigned char u8_t;
extern "C" { void mt_verif_relax(void) {} void mt_verif_alloc(void*, size_t, int) {} void mt_verif_retire(void*, size_t, int) {} void mt_verif_free(void*, size_t, int) {} }

struct V { char t = 'n'; __int128 i = 0; double d = 0; S s; std::vector<V> a; std::map<S, V> o; };     // n null, b bool, i int, d double, s string, a array, o object
static S istr(__int128 v) { if (v < 0) return "-" + istr(-v); S r; do { r = char('0' + int(v % 10)) + r; v /= 10; } while (v); return r; }
static S show(const V& v) { S r; switch (v.t) { case 'n': return "null"; case 'b': return v.i ? "true" : "false"; case 'i': return istr(v.i); case 'd': { char b[40]; snprintf(b, 40, "%.17g(double)", v.d); return b; } case 's': return "'" + seq::hex(v.s.substr(0, 40)) + "'"; case 'a': for (auto& x : v.a) { r += (r.empty() ? "" : ",") + show(x); if (r.size() > 200) break; } return "[" + r + "]"; default: for (auto& x : v.o) { r += (r.empty() ? "" : ",") + seq::hex(x.first.substr(0, 40)) + ":" + show(x.second); if (r.size() > 200) break; } return "{" + r + "}"; } }
static S str(const String& s) { return S(s.data(), s.length()); }
static String mkstr(const S& s) { return String(s.data(), s.size()); }
static bool eq(const Json& j, const V& v) {
    switch (v.t) {
    case 'n': return j.is_null() && j.empty();
    case 'b': return j.is_b() && !j.is_n() && j.as_b() == (v.i != 0);
    case 'i': return j.is_i() && !j.is_d() && !j.is_b() && (j.is_u() ? (__int128) j.as_u() : (__int128) j.as_i()) == v.i;
    case 'd': return j.is_d() && !j.is_i() && ((isnan(v.d) && isnan(j.as_d())) || (j.as_d() == v.d && signbit(j.as_d()) == signbit(v.d)));
    case 's': return j.is_s() && !j.is_null() && j.as_s().length() == (int) v.s.size() && !memcmp(j.as_s().data(), v.s.data(), v.s.size());
    case 'a': {
        if (!j.is_a() || j.is_o() || j.size() != (int) v.a.size()) return false;
        for (size_t i = 0; i < v.a.size(); ++i) if (!eq(j[i], v.a[i])) return false;
        size_t n = 0; for (auto it = j.cabegin(); it != j.caend(); ++it, ++n) if (n >= v.a.size() || &*it != &j.get(n)) return false;
        return n == v.a.size() && j.get((int) n).is_null(); }
    default: {
        if (!j.is_o() || j.is_a() || j.size() != (int) v.o.size()) return false;
        for (auto& x : v.o) { Str k(x.first.data(), x.first.size()); if (!j.count(k) || !eq(j.get(k), x.second)) return false; }
        size_t n = 0; for (auto it = j.cobegin(); it != j.coend(); ++it, ++n) { auto f = v.o.find(str(it.key())); if (f == v.o.end() || &it.value() != &j.get(it.key())) return false; }
        return n == v.o.size() && !j.count("no such key") && j.get("no such key").is_null(); }
    }
}
// ---- the reference parser.  0 a value, 1 could still become one, 2 cannot
// Kept apart from RFC 8259, as the parser's documented or evident choices: \u0000, \uFFFE and \uFFFF are refused.
struct P { const u8_t* p; const u8_t* e; bool complete; };
static void ws(P& c) { while (c.p != c.e && (*c.p == ' ' || *c.p == '\n' || *c.p == '\r' || *c.p == '\t')) ++c.p; }
static int utf8(P& c, S& out) {
    const u8_t* p = c.p; long n = c.e - p; unsigned a = p[0]; int want; unsigned lo = 0x80, hi = 0xbf;
    if (a >= 0xc2 && a <= 0xdf) want = 2; else if (a >= 0xe0 && a <= 0xef) { want = 3; if (a == 0xe0) lo = 0xa0; if (a == 0xed) hi = 0x9f; } else if (a >= 0xf0 && a <= 0xf4) { want = 4; if (a == 0xf0) lo = 0x90; if (a == 0xf4) hi = 0x8f; } else return 2;
    for (int i = 1; i < want; ++i) { if (i >= n) return 1; if (p[i] < (i == 1 ? lo : 0x80) || p[i] > (i == 1 ? hi : 0xbf)) return 2; }
    out.append((const char*) p, want); c.p += want; return 0;
}
static void put8(S& o, unsigned c) { if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); } else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } }
static int hex4(const u8_t* p, const u8_t* e, unsigned& v) { v = 0; for (int i = 0; i < 4; ++i) { if (p + i == e) return 1; u8_t h = p[i]; if (!isxdigit(h)) return 2; v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } return 0; }
static int rstring(P& c, S& out) {      // after the opening quote
    while (true) {
        if (c.p == c.e) return 1;
        u8_t a = *c.p;
        if (a == '"') { ++c.p; return 0; }
        if (a < 32) return 2;
        if (a >= 0x80) { if (int r = utf8(c, out)) return r; continue; }
        if (a != '\\') { out += char(a); ++c.p; continue; }
        if (c.p + 1 == c.e) return 1;
        u8_t b = c.p[1]; const char* f = "\"\\/bfnrt"; const char* t = "\"\\/\b\f\n\r\t";
        if (b && strchr(f, b)) { out += t[strchr(f, b) - f]; c.p += 2; continue; }
        if (b != 'u') return 2;
        unsigned v, w; if (int r = hex4(c.p + 2, c.e, v)) return r;
        if (v == 0 || v == 0xfffe || v == 0xffff || (v >= 0xdc00 && v < 0xe000)) return 2;
        if (v >= 0xd800 && v < 0xdc00) {
            if (c.p + 6 == c.e) return 1; if (c.p[6] != '\\') return 2; if (c.p + 7 == c.e) return 1; if (c.p[7] != 'u') return 2;
            if (int r = hex4(c.p + 8, c.e, w)) return r; if (w < 0xdc00 || w >= 0xe000) return 2;
            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); c.p += 6;
        }
        put8(out, v); c.p += 6;
    }
}
static int rnumber(P& c, V& v) {
    const u8_t* b = c.p; auto digit = [&] { return c.p != c.e && isdigit(*c.p); }; bool integer = true;
    if (*c.p == '-') ++c.p;
    if (c.p == c.e) return c.complete ? 2 : 1;
    if (!digit()) return 2;
    if (*c.p == '0') ++c.p; else while (digit()) ++c.p;
    if (c.p != c.e && *c.p == '.') { integer = false; ++c.p; if (c.p == c.e) return c.complete ? 2 : 1; if (!digit()) return 2; while (digit()) ++c.p; }
    if (c.p != c.e && (*c.p == 'e' || *c.p == 'E')) { integer = false; ++c.p; if (c.p != c.e && (*c.p == '+' || *c.p == '-')) ++c.p; if (c.p == c.e) return c.complete ? 2 : 1; if (!digit()) return 2; while (digit()) ++c.p; }
    if (c.p == c.e && !c.complete) return 1;
    S t((const char*) b, c.p - b); bool neg = t[0] == '-'; __int128 x = 0; bool big = false;
    if (integer) for (char d : t) if (d != '-') { x = x * 10 + (d - '0'); if (x > (__int128) UINT64_MAX) { big = true; break; } }
    if (integer && !big && !(neg && x > ((__int128) 1 << 63))) { v.t = 'i'; v.i = neg ? -x : x; }
    else { v.t = 'd'; v.d = strtod(t.c_str(), 0); }
    return 0;
}
static int rvalue(P& c, V& v) {
    ws(c); if (c.p == c.e) return 1;
    u8_t a = *c.p;
    if (a == '"') { ++c.p; v.t = 's'; return rstring(c, v.s); }
    if (a == '-' || isdigit(a)) return rnumber(c, v);
    for (const char* w : {"null", "true", "false"}) if (a == (u8_t) *w) { for (; *w; ++w, ++c.p) { if (c.p == c.e) return 1; if (*c.p != (u8_t) *w) return 2; } v.t = a == 'n' ? 'n' : 'b'; v.i = a == 't'; return 0; }
    if (a != '[' && a != '{') return 2;
    ++c.p; v.t = a == '[' ? 'a' : 'o'; u8_t close = a == '[' ? ']' : '}';
    for (bool first = true;; first = false) {
        ws(c); if (c.p == c.e) return 1;
        if (*c.p == close && first) { ++c.p; break; }
        if (!first) { if (*c.p == close) { ++c.p; break; } if (*c.p != ',') return 2; ++c.p; ws(c); if (c.p == c.e) return 1; }
        S k; if (a == '{') { if (*c.p != '"') return 2; ++c.p; if (int r = rstring(c, k)) return r; ws(c); if (c.p == c.e) return 1; if (*c.p != ':') return 2; ++c.p; }
        V x; if (int r = rvalue(c, x)) return r;
        if (a == '[') v.a.push_back(x); else v.o[k] = x;
    }
    return 0;
}
struct Want { int st; size_t used; V v; };
static Want want(const S& b, bool complete) { Want w; P c{(const u8_t*) b.data(), (const u8_t*) b.data() + b.size(), complete}; w.st = rvalue(c, w.v); w.used = c.p - (const u8_t*) b.data(); return w; }

// ---- feeding a parser: each piece sits right before poisoned memory and is overwritten afterwards
static const size_t GUARD = 4 << 20; static char* gbuf;
static char* guard(const char* p, size_t n) {
    if (!gbuf) { gbuf = (char*) __real_malloc(GUARD + 64); gbuf = (char*) (((uintptr_t) gbuf + 15) & ~15ul); }
#if SEQ_HAS_ASAN
    __asan_unpoison_memory_region(gbuf + GUARD - 64, 64 + 32);
    char* s = gbuf + GUARD - 24 - n; memcpy(s, p, n); __asan_poison_memory_region(gbuf + GUARD - 24, 56); 
    return s;
#else
    char* s = gbuf + GUARD - n; memcpy(s, p, n); return s;
#endif
}
static size_t feed(Json::streaming_parser& sp, const S& b, const std::vector<size_t>& cuts, const String* own, bool complete) {
    size_t at = 0;
    for (size_t k = 0; k <= cuts.size() && !sp.done(); ++k) {
        size_t to = k < cuts.size() ? cuts[k] : b.size(); bool last = k == cuts.size();
        size_t u;
        if (own) u = sp.consume(own->data() + at, to - at, *own, complete && last);
        else { char* g = guard(b.data() + at, to - at); u = sp.consume(g, to - at, String(), complete && last); memset(g, 0x5b, to - at); }
        if (u > to - at) SEQ_FAIL("consumed more than it was given of %s", seq::hex(b).substr(0, 300).c_str());
        at += u;
        if (at != to && !sp.done()) SEQ_FAIL("stopped at %zu of %s without a result", at, seq::hex(b).substr(0, 300).c_str());
    }
    return at;
}
static void check1(const S& b, const Want& w, const std::vector<size_t>& cuts, bool own, bool complete) {
    seq::begin_case();
    Json::streaming_parser sp; size_t used;
    if (own) { String s(b.data(), b.size()); used = feed(sp, b, cuts, &s, complete); s = String(); } else used = feed(sp, b, cuts, nullptr, complete);
    auto how = [&] { S r = seq::hex(b).substr(0, 300); for (size_t i = 0; i < cuts.size() && i < 20; ++i) r += (i ? "," : " cut at ") + std::to_string(cuts[i]); return r + (complete ? "" : " (more to come)"); };
    if (sp.success() + sp.error() + !sp.done() != 1) SEQ_FAIL("state of the parser of %s", how().c_str());
    if (w.st == 0 && !sp.success()) SEQ_FAIL("%s is %s, not %s", how().c_str(), sp.error() ? "refused" : "incomplete", show(w.v).c_str());
    if (w.st == 1 && sp.done()) SEQ_FAIL("%s is %s, though it could be continued to a value", how().c_str(), sp.error() ? "refused" : "taken for a value");
    if (w.st == 2 && sp.success()) SEQ_FAIL("%s is accepted as %s", how().c_str(), str(sp.result().unparse()).substr(0, 200).c_str());
    if (w.st == 0 && used != w.used) SEQ_FAIL("%s: used %zu bytes, not %zu", how().c_str(), used, w.used);
    if (w.st == 0 && !eq(sp.result(), w.v)) SEQ_FAIL("%s: value is %s, not %s", how().c_str(), str(sp.result().unparse()).substr(0, 200).c_str(), show(w.v).substr(0, 200).c_str());
}
static void whole(const S& b) {      // Json::parse and assign_parse
    P c{(const u8_t*) b.data(), (const u8_t*) b.data() + b.size(), true}; V v; bool ok = rvalue(c, v) == 0; ws(c); ok = ok && c.p == c.e;
    for (int how = 0; how < 2; ++how) {
        seq::begin_case();
        Json j(77); bool r; if (how) { String s = mkstr(b); r = j.assign_parse(s); } else { char* g = guard(b.data(), b.size()); r = j.assign_parse(g, g + b.size()); memset(g, 0x5b, b.size()); }
        if (r != ok) SEQ_FAIL("assign_parse(%s) %s", seq::hex(b).substr(0, 300).c_str(), r ? "succeeds" : "fails");
        if (ok ? !eq(j, v) : !(j.is_i() && j.as_i() == 77)) SEQ_FAIL("assign_parse(%s) gives %s", seq::hex(b).substr(0, 300).c_str(), str(j.unparse()).substr(0, 200).c_str());
    }
}
// all: every way to cut; otherwise every cut in two and byte by byte
static void cuts(const S& b, bool all) {
    if (b.size() < 60) seq::path(seq::hex(b)); else seq::path("a long text");
    Want w = want(b, true), x = want(b, false); whole(b);
    check1(b, w, {}, false, true); check1(b, w, {}, true, true); check1(b, x, {}, false, false);
    if (b.empty()) return;
    if (all) for (unsigned m = 1; m < 1u << (b.size() - 1); ++m) { std::vector<size_t> c; for (size_t i = 0; i + 1 < b.size(); ++i) if (m >> i & 1) c.push_back(i + 1); check1(b, w, c, false, true); if (m % 3 == 0) { check1(b, x, c, false, false); check1(b, w, c, true, true); } }
    else {
        std::vector<size_t> every; for (size_t i = 1; i < b.size(); ++i) { check1(b, w, {i}, i & 1, true); every.push_back(i); }
        check1(b, w, every, false, true); check1(b, x, every, true, false);
        std::vector<size_t> e; for (size_t i = 0; i <= b.size(); ++i) { e.push_back(i); e.push_back(i); } check1(b, w, e, false, true);      // with empty pieces
    }
}
// every concatenation of atoms, cutting off branches no continuation of which is a value
static void tree(const std::vector<S>& atoms, int len, const S& pre, const S& post, bool all, int shard, int n) {
    size_t k = atoms.size(), unit = 0;
    auto test = [&](const S& b) { cuts(pre + b, all && pre.size() + b.size() < 13); if (!post.empty()) cuts(pre + b + post, all && pre.size() + b.size() + post.size() < 13); return want(pre + b, false).st == 1; };
    std::function<void(const S&, int)> go = [&](const S& b, int left) {
        for (size_t i = 0; i < k && !seq::out_of_time(); ++i) if (test(b + atoms[i]) && left > 1) go(b + atoms[i], left - 1);
    };
    for (size_t i = 0; i < k; ++i) {        // the first two levels are split over the shards
        if (shard == 0) test(atoms[i]);
        if (len < 2 || want(pre + atoms[i], false).st != 1) continue;
        for (size_t j = 0; j < k; ++j) if ((int) (unit++ % n) == shard) { S b = atoms[i] + atoms[j]; if (test(b) && len > 2) go(b, len - 2); }
    }
}
static std::vector<S> bytes(const S& s) { std::vector<S> r; for (char c : s) r.push_back(S(1, c)); return r; }
static void code_units(int shard, int n, bool wide) {
    char b[40];
    for (unsigned v = shard; v < 65536; v += n) for (const char* f : {"\"\\u%04x\"", "\"\\u%04X\"", "[\"x\\u%04xy\"]", "{\"\\u%04x\":1}"}) { snprintf(b, 40, f, v); S t = b; if (!wide && *f != '"' && v % 16) continue; bool odd = v < 0x100 || (v & 0xff) < 2 || (v & 0xff) > 0xfd || v / 0x400 == 0xd800 / 0x400; cuts(t, false); if (odd && f[3] == 'u') cuts(t, true); }
    std::vector<unsigned> hi{0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdaaa, 0xdbfe, 0xdbff, 0xdc00, 0x0041}, lo{0xdbff, 0xdc00, 0xdc01, 0xde0a, 0xdead, 0xdffe, 0xdfff, 0xe000, 0x0041};
    int k = 0; for (unsigned h : hi) for (unsigned l : lo) for (const char* f : {"\"\\u%04x\\u%04x\"", "\"\\u%04X\\u%04X\"", "\"\\u%04x\\u%04X\"", "\"\\u%04X\\u%04x\"", "\"\\u%04X\\n%04x\"", "\"\\u%04X-u%04x\""}) if (k++ % n == shard) { snprintf(b, 40, f, h, l); cuts(b, true); }
    for (unsigned h = 0xd800 + shard; h < 0xdc00; h += n) for (unsigned l : {0xdc00u, 0xdc00u + (h & 0x3ff), 0xdfffu}) { snprintf(b, 40, "\"\\u%04x\\u%04x\"", h, l); cuts(b, false); }
}
static void code_points(int shard, int n, unsigned step) {
    for (unsigned v = 1 + shard; v < 0x110000; v += (v < 0x3000 || (v >= 0xd700 && v < 0x10100) ? n : n * step)) {
        if (v >= 0xd800 && v < 0xe000) continue;
        S s; put8(s, v); S t = "\"" + s + "\""; if (v >= 32 && v != '"' && v != '\\') cuts(t, s.size() < 4);
        seq::begin_case(); Json j(mkstr("a" + s + "z")); S u = str(j.unparse()); Want w = want(u, true); if (w.st || w.used != u.size() || w.v.s != "a" + s + "z") SEQ_FAIL("unparse of the string U+%04X: %s", v, seq::hex(u).c_str());
        if (v != 0xfffe && v != 0xffff) { Json k; if (!k.assign_parse(mkstr(u)) || !eq(k, w.v)) SEQ_FAIL("U+%04X does not survive unparse and parse", v); }
    }
}
static void integers() {
    std::vector<S> r; __int128 one = 1;
    for (int k = 0; k <= 66; ++k) for (int d = -2; d <= 2; ++d) { __int128 p = (one << k) + d; if (p >= 0) { r.push_back(istr(p)); r.push_back("-" + istr(p)); } }
    S nines, one0 = "1"; for (int k = 0; k < 25; ++k) { nines += '9'; r.push_back(nines); r.push_back("-" + nines); r.push_back(one0); r.push_back("-" + one0); one0 += '0'; S x = nines; x.back() = '0'; r.push_back(x); }
    for (S t : {"18446744073709551616", "36893488147419103232", "184467440737095516160", "99999999999999999999", "340282366920938463463374607431768211456", "0.1", "1e308", "1e309", "-1e-400", "1.7976931348623157e308", "123456789012345678.5", "0e0", "-0", "-0.0", "1E+2", "1e-2", "00", "01", "-01", "1.", "1.e1", ".5", "+1", "1e", "1e+", "-", "--1", "0x10", "1_0", "Infinity", "NaN"}) r.push_back(t);
    for (auto& t : r) for (S pre : {"", "[", "[0,", "{\"a\":"}) { S e = pre.empty() ? "" : pre[0] == '[' ? "]" : "}"; for (S post : {"", " ", ",1", "\n"}) cuts(pre + t + post + e, false); }
}
static V vi(__int128 i) { V v; v.t = 'i'; v.i = i; return v; }
static V vs(const S& s) { V v; v.t = 's'; v.s = s; return v; }
static Json build(const V& v) {
    switch (v.t) {
    case 'n': return Json(); case 'b': return Json(v.i != 0); case 'i': return v.i > INT64_MAX ? Json((uint64_t) v.i) : Json((int64_t) v.i); case 'd': return Json(v.d); case 's': return Json(mkstr(v.s));
    case 'a': { Json j = Json::make_array(); for (auto& x : v.a) j.push_back(build(x)); return j; }
    default: { Json j = Json::make_object(); for (auto& x : v.o) j.set(mkstr(x.first), build(x.second)); return j; }
    }
}
static void undo(const V& v) {
    Json j = build(v); if (!eq(j, v)) SEQ_FAIL("building %s", show(v).c_str());
    for (int m = 0; m < 12; ++m) {
        seq::begin_case();
        Json::unparse_manipulator u = Json::indent_depth(m % 3 == 2 ? 9 : m % 3).tab_width(m & 1 ? 2 : 0).newline_terminator(m & 2).space_separator(m & 4);
        S t = str(m ? j.unparse(u) : j.unparse()); P c{(const u8_t*) t.data(), (const u8_t*) t.data() + t.size(), true}; V w; int st = rvalue(c, w); ws(c);
        if (st || c.p != c.e || show(w) != show(v)) SEQ_FAIL("unparse of %s: %s", show(v).c_str(), seq::hex(t).substr(0, 300).c_str());
        StringAccum sa; sa << "x"; j.unparse(sa, u); if (m && str(sa.take_string()) != "x" + t) SEQ_FAIL("unparse into an accumulator differs");
        Json k(1); if (!k.assign_parse(mkstr(t)) || !eq(k, v)) SEQ_FAIL("%s does not survive unparse and parse", show(v).c_str());
        if (m == 3 && t.size() < 300) cuts(t, false);
    }
    if (!eq(j, v)) SEQ_FAIL("unparse changed the value");
}
static void values(int shard, int n, bool wide) {
    std::vector<V> lv; V z; lv.push_back(z); z.t = 'b'; lv.push_back(z); z.i = 1; lv.push_back(z);
    for (__int128 i : {(__int128) 0, (__int128) 7, (__int128) -1, (__int128) INT64_MAX, (__int128) INT64_MIN, (__int128) INT64_MAX + 1, (__int128) UINT64_MAX}) lv.push_back(vi(i));
    for (S s : {S(""), S("a"), S("\"\\/\b\f\n\r\t"), S("\x01\x1f\x7f"), S("\xe2\x80\xa8\xe2\x80\xa9\xe2\x80\xaa"), S("\xf0\x9f\x98\x80"), S(100, 'x'), S("0"), S("null")}) lv.push_back(vs(s));
    std::vector<V> all = lv; V a; a.t = 'a'; V o; o.t = 'o'; all.push_back(a); all.push_back(o);
    std::vector<S> ks{"", "a", "1", "\"", S(60, 'k')};
    for (size_t i = 0; i < lv.size() + 2; ++i) { V x = a; x.a = {all[i]}; all.push_back(x); for (size_t k = 0; k < ks.size(); ++k) { V y = o; y.o[ks[k]] = all[i]; all.push_back(y); } }
    size_t two = all.size(); for (size_t i = 0; i < two; ++i) for (size_t j = 0; j < two; j += wide ? 1 : 3) { V x = a; x.a = {all[i], all[(i + j) % two]}; all.push_back(x); V y = o; y.o[ks[i % 5]] = all[i]; y.o[ks[(i + j + 1) % 5]] = all[(i + j) % two]; all.push_back(y); }
    for (int k : {3, 5, 6, 7, 8, 9, 16, 17, 40, 100, 1000, 1023, 1024, 1025, 3000}) { V x = a, y = o; for (int i = 0; i < k; ++i) { x.a.push_back(i % 7 ? vi(i) : i == 14 ? vs(S(50, 'q')) : all[i % two]); y.o["k" + std::to_string(i * 7919 % 10007)] = vi(i); } all.push_back(x); all.push_back(y); V q = a; q.a = {y, x}; all.push_back(q); }
    for (size_t i = shard; i < all.size(); i += n) { undo(all[i]); if (seq::out_of_time()) return; }
    if (shard == 0) for (int d : {1, 2, 100, 2047, 2048, 4096, 100000}) for (int k = 0; k < 3; ++k) { S t; for (int i = 0; i < d; ++i) t += k == 0 || (k == 2 && i % 2) ? "[" : "{\"a\":"; t += "1"; for (int i = d; i-- > 0;) t += k == 0 || (k == 2 && i % 2) ? "]" : "}"; Json j; bool ok = j.assign_parse(mkstr(t)); if (ok != (d <= 2048)) SEQ_FAIL("nesting of %d is %s", d, ok ? "accepted" : "refused"); if (ok && str(j.unparse()) != t) SEQ_FAIL("nesting of %d", d); }
    // one parser used again
    if (shard == 1 % n) for (const char* x : {"{\"a\":[1", "[1,{\"a\"", "\"a\\u12", "tru", "12", "[1]", "{\"z\":1}", "!", "[\"\xc3"}) for (const char* y : {"{\"b\":2}", "[2]", "\"q\"", "true ", "34 ", "null"}) { seq::begin_case(); Json::streaming_parser sp; sp.consume(x, strlen(x)); Json keep = sp.done() ? sp.result() : Json(); S ks0 = str(keep.unparse()); sp.reset(); size_t u = sp.consume(y, strlen(y)); if (!sp.success() || !eq(sp.result(), want(y, true).v) || u != want(y, true).used) SEQ_FAIL("'%s' after a reset parser (before: '%s')", y, x); if (str(keep.unparse()) != ks0) SEQ_FAIL("a result changed when its parser was used again"); }
}
// ---- operations on values
struct Ops : seq::System {
    struct Op { S name; std::function<bool()> on; std::function<const char*()> go; };
    std::vector<Op> ops; int start; Json* j[2]; V v[2]; long base = 0;
    static const char* K(int i) { return i == 0 ? "a" : i == 1 ? "1" : "b"; }
    static void obj(V& x) { if (x.t == 'o') return; V y; y.t = 'o'; if (x.t == 'a') for (size_t i = 0; i < x.a.size(); ++i) y.o[std::to_string(i)] = x.a[i]; x = y; }
    static V& ins(V& x, int i) { if (x.t == 'o') return x.o[std::to_string(i)]; if (x.t != 'a') { x = V(); x.t = 'a'; } if ((int) x.a.size() <= i) x.a.resize(i + 1); return x.a[i]; }
    static V get(const V& x, const S& k) { if (x.t == 'o') { auto f = x.o.find(k); return f == x.o.end() ? V() : f->second; } if (x.t == 'a' && (k == "1" || k == "0") && (int) x.a.size() > k[0] - '0') return x.a[k[0] - '0']; return V(); }
    static V geti(const V& x, int i) { if (x.t == 'o') return get(x, std::to_string(i)); return x.t == 'a' && i < (int) x.a.size() ? x.a[i] : V(); }
    static size_t weight(const V& x) { size_t n = 1; for (auto& y : x.a) n += weight(y); for (auto& y : x.o) n += weight(y.second); return n; }
    void add(const S& n, std::function<bool()> on, std::function<const char*()> go) { ops.push_back({n, on, go}); }
    explicit Ops(int s) : start(s) {
        auto always = [] { return true; };
        for (int x = 0; x < 2; ++x) {
            int y = 1 - x; S X = x ? "B" : "A", Y = x ? "A" : "B"; auto OK = [] { return (const char*) nullptr; };
            auto isA = [=] { return v[x].t == 'a'; }; auto isAn = [=] { return v[x].t == 'a' || v[x].t == 'n'; }; auto isO = [=] { return v[x].t == 'o'; }; auto hasA = [=] { return v[x].t == 'a' && !v[x].a.empty(); };
            auto small = [=] { return weight(v[0]) + weight(v[1]) < 200; };
            if (!x) { add(X + "=null", always, [=] { *j[x] = Json(); v[x] = V(); return OK(); }); add(X + "=5", always, [=] { *j[x] = 5; v[x] = vi(5); return OK(); }); }
            add(X + "=str", always, [=] { *j[x] = mkstr("a string that is long"); v[x] = vs("a string that is long"); return OK(); });
            if (!x) add(X + "=[]", always, [=] { *j[x] = Json::make_array(); v[x] = V(); v[x].t = 'a'; return OK(); });
            add(X + "={}", always, [=] { *j[x] = Json::make_object(); v[x] = V(); v[x].t = 'o'; return OK(); });
            add(X + "=" + Y, always, [=] { *j[x] = *j[y]; v[x] = v[y]; return OK(); });
            if (!x) { add("A=A", always, [=] { Json& r = *j[0]; *j[0] = r; return OK(); }); add("swap", always, [=] { if (weight(v[0]) & 1) j[0]->swap(*j[1]); else swap(*j[0], *j[1]); std::swap(v[0], v[1]); return OK(); }); }
            add(X + "=move(" + Y + ")", always, [=] { *j[x] = std::move(*j[y]); *j[y] = Json(); v[x] = v[y]; v[y] = V(); return OK(); });
            for (int k = 0; k < 2; ++k) {
                S kk = K(k); String ks = mkstr(kk);
                add(X + ".set(" + kk + ",7)", always, [=] { Json& r = j[x]->set(mkstr(kk), 7); obj(v[x]); v[x].o[kk] = vi(7); return &r == j[x] ? nullptr : "set() returns something else"; });
                if (!x) add(X + ".set(" + kk + "," + Y + ")", small, [=] { j[x]->set(mkstr(kk), *j[y]); V t = v[y]; obj(v[x]); v[x].o[kk] = t; return OK(); });
                if (!x) add(X + ".set(" + kk + "," + X + ")", small, [=] { j[x]->set(mkstr(kk), *j[x]); V t = v[x]; obj(v[x]); v[x].o[kk] = t; return OK(); });
                if (!x || k) add(X + "[" + kk + "]=" + Y, small, [=] { (*j[x])[K(k)] = *j[y]; V t = v[y]; obj(v[x]); v[x].o[kk] = t; return OK(); });
                if (!x) add(X + "[" + kk + "]=" + X, small, [=] { (*j[x])[mkstr(kk)] = *j[x]; V t = v[x]; obj(v[x]); v[x].o[kk] = t; return OK(); });
                add(X + "[new]=" + X + "[" + kk + "]", small, [=] { V t = get(v[x], kk); obj(v[x]); S n = "new" + std::to_string(v[x].o.size()); if (v[x].o.size() & 1) (*j[x])[mkstr(n)] = (*j[x])[mkstr(kk)]; else (*j[x])[n.c_str()] = (*j[x])[kk.c_str()]; v[x].o[n] = t; return OK(); });
                if (!x) add(X + "[" + kk + "]=" + Y + "[0]", small, [=] { (*j[x])[K(k)] = (*j[y])[0]; V t = geti(v[y], 0); obj(v[x]); v[x].o[kk] = t; return OK(); });
                add(X + ".set(new," + X + "[" + kk + "])", small, [=] { V t = get(v[x], kk); obj(v[x]); S n = "set" + std::to_string(v[x].o.size()); j[x]->set(mkstr(n), (*j[x])[kk.c_str()]); v[x].o[n] = t; return OK(); });
                add(X + "[" + kk + "][b]=2", always, [=] { (*j[x])[K(k)]["b"] = Json(2); obj(v[x]); V& t = v[x].o[kk]; obj(t); t.o["b"] = vi(2); return OK(); });
                if (!x) add(X + ".get_insert(" + kk + ")[1]=3", always, [=] { j[x]->get_insert(K(k))[1] = Json(3); obj(v[x]); ins(v[x].o[kk], 1) = vi(3); return OK(); });
                if (!x) add(X + "=" + X + ".get(" + kk + ")", always, [=] { *j[x] = j[x]->get(K(k)); V t = get(v[x], kk); v[x] = t; return OK(); });
                add(X + "=" + X + "[" + kk + "]", always, [=] { *j[x] = (*j[x])[K(k)]; V t = get(v[x], kk); v[x] = t; return OK(); });
                if (!x) add(X + "=" + Y + ".get(" + kk + ")", always, [=] { *j[x] = j[y]->get(K(k)); v[x] = get(v[y], kk); return OK(); });
                add(X + ".unset(" + kk + ")", always, [=] { j[x]->unset(K(k)); if (v[x].t == 'o') v[x].o.erase(kk); return OK(); });
                if (!x) add(X + ".erase(" + kk + ")", isO, [=] { size_t n = j[x]->erase(K(k)); return n == v[x].o.erase(kk) ? nullptr : "erase() counts wrongly"; });
                if (!x) add(X + ".insert(" + kk + ")", isO, [=] { auto r = j[x]->insert(Json::object_value_type(mkstr(kk), Json("inserted"))); bool isnew = !v[x].o.count(kk); if (isnew) v[x].o[kk] = vs("inserted"); if (r.second != isnew) return "insert() reports the wrong novelty"; return str(r.first.key()) == kk && eq(r.first.value(), v[x].o[kk]) ? nullptr : "insert() returns a wrong iterator"; });
                if (!x) add(X + ".merge(" + X + ".get(" + kk + "))", [=] { if (v[x].t != 'o') return false; char t = get(v[x], kk).t; return t == 'o' || t == 'n'; }, [=] { j[x]->merge(j[x]->get(K(k))); V t = get(v[x], kk); for (auto& i : t.o) v[x].o[i.first] = i.second; return OK(); });
            }
            add(X + ".merge(" + Y + ")", [=] { return (v[x].t == 'o' || v[x].t == 'n') && (v[y].t == 'o' || v[y].t == 'n') && !(v[x].t == 'n' && v[y].o.empty()); }, [=] { j[x]->merge(*j[y]); if (v[y].t == 'o') { obj(v[x]); V t = v[y]; for (auto& i : t.o) v[x].o[i.first] = i.second; } return OK(); });
            if (!x) add(X + ".merge(" + X + ")", isO, [=] { j[x]->merge(*j[x]); return OK(); });
            if (!x) add(X + ".erase(obegin)", [=] { return v[x].t == 'o' && !v[x].o.empty(); }, [=] { auto it = j[x]->obegin(); auto nx = it; ++nx; S k = str(it.key()), nk = nx == j[x]->oend() ? S("-") : str(nx.key()); auto r = j[x]->erase(it); v[x].o.erase(k); return (r == j[x]->oend() ? S("-") : str(r.key())) == nk ? nullptr : "erase() does not return the next item"; });
            if (!x) add(X + " each value=8", isO, [=] { for (auto it = j[x]->obegin(); it != j[x]->oend(); ++it) it.value() = Json(8); for (auto& i : v[x].o) i.second = vi(8); return OK(); });
            add(X + ".push_back(1)", isAn, [=] { j[x]->push_back(1); v[x].t = 'a'; v[x].a.push_back(vi(1)); return OK(); });
            add(X + ".push_back(" + Y + ")", [=] { return isAn() && small(); }, [=] { j[x]->push_back(*j[y]); V t = v[y]; v[x].t = 'a'; v[x].a.push_back(t); return OK(); });
            if (!x) add(X + ".push_back(" + X + ")", [=] { return isA() && small(); }, [=] { j[x]->push_back(*j[x]); V t = v[x]; v[x].a.push_back(t); return OK(); });
            if (!x) add(X + ".push_back(" + X + "[0])", [=] { return isA() && small(); }, [=] { j[x]->push_back((*j[x])[0]); V t = geti(v[x], 0); v[x].a.push_back(t); return OK(); });
            add(X + ".pop_back", hasA, [=] { j[x]->pop_back(); v[x].a.pop_back(); return OK(); });
            if (!x) { add(X + ".insert(0," + X + "[0])", [=] { return isA() && small(); }, [=] { auto it = j[x]->insert(j[x]->abegin(), (*j[x])[0]); V t = geti(v[x], 0); v[x].a.insert(v[x].a.begin(), t); return eq(*it, t) ? nullptr : "insert() returns a wrong iterator"; });
            add(X + ".insert(end-1," + Y + ")", [=] { return hasA() && small(); }, [=] { j[x]->insert(j[x]->aend() - 1, *j[y]); V t = v[y]; v[x].a.insert(v[x].a.end() - 1, t); return OK(); }); }
            add(X + ".erase(abegin)", hasA, [=] { j[x]->erase(j[x]->abegin()); v[x].a.erase(v[x].a.begin()); return OK(); });
            if (!x) { add(X + ".erase(1..end)", hasA, [=] { j[x]->erase(j[x]->abegin() + 1, j[x]->aend()); v[x].a.resize(1); return OK(); });
            for (int n : {0, 2, 9}) add(X + ".resize(" + std::to_string(n) + ")", isAn, [=] { j[x]->resize(n); v[x].t = 'a'; v[x].a.resize(n); return OK(); });
            add(X + ".reserve(20)", isAn, [=] { j[x]->reserve(20); v[x].t = 'a'; return OK(); });
            add(X + ".back=3", hasA, [=] { j[x]->back() = Json(3); v[x].a.back() = vi(3); return OK(); }); }
            add(X + "[0]=" + X + "[1]", small, [=] { (*j[x])[0] = (*j[x])[1]; V t = geti(v[x], 1); ins(v[x], 0) = t; return OK(); });
            if (!x) add(X + "[9]=" + X + "[0]", small, [=] { (*j[x])[9] = (*j[x])[0]; V t = geti(v[x], 0); ins(v[x], 9) = t; return OK(); });
            if (!x) add(X + "[0]=" + X, small, [=] { (*j[x])[0] = *j[x]; V t = v[x]; ins(v[x], 0) = t; return OK(); });
            add(X + ".clear", always, [=] { j[x]->clear(); char t = v[x].t; v[x] = V(); if (t == 'a' || t == 'o') v[x].t = t; return OK(); });
            if (!x) add(X + "=" + X + ".as_s", [=] { return v[x].t == 's'; }, [=] { *j[x] = j[x]->as_s(); return OK(); });
            if (!x) add(X + ".parse(unparse)", small, [=] { if (!j[x]->assign_parse(j[x]->unparse())) return "its own text is refused"; return OK(); });
            add("++" + X, [=] { return v[x].t == 'n' || v[x].t == 'i'; }, [=] { ++*j[x]; v[x] = vi(v[x].i + 1); return OK(); });
            if (!x) add(X + "+=" + Y, [=] { return (v[x].t == 'n' || v[x].t == 'i') && (v[y].t == 'n' || v[y].t == 'i') && v[y].i < (1l << 60) && (v[x].i < (1l << 60) || v[x].i >= (__int128) 1 << 63); }, [=] { *j[x] += *j[y]; if (v[y].t == 'i') v[x] = vi(v[x].i + v[y].i); return OK(); });
            if (!x) add(X + "-=" + Y, [=] { return v[x].t == 'i' && v[y].t == 'i' && v[x].i >= v[y].i; }, [=] { *j[x] -= *j[y]; v[x] = vi(v[x].i - v[y].i); return OK(); });
        }
    }
    void setup() override {
        j[0] = new Json; j[1] = new Json;
        switch (start) {
        case 1: for (int i = 0; i < 7; ++i) { S k = i == 0 ? S("a") : i == 1 ? S("1") : "k" + std::to_string(i); j[0]->set(mkstr(k), i); obj(v[0]); v[0].o[k] = vi(i); } break;
        case 2: for (int i = 0; i < 8; ++i) { S k = i == 0 ? S("a") : i == 1 ? S("1") : "k" + std::to_string(i); j[0]->set(mkstr(k), mkstr("value " + k)); obj(v[0]); v[0].o[k] = vs("value " + k); } break;
        case 3: case 4: *j[0] = Json::make_array(); v[0].t = 'a'; for (int i = 0; i < start + 4; ++i) { j[0]->push_back(mkstr("item " + std::to_string(i))); v[0].a.push_back(vs("item " + std::to_string(i))); } break;
        case 5: { V t; obj(t); t.o["a"] = vi(1); t.o["b"] = vs("nested string"); V a; a.t = 'a'; a.a = {t, vi(2), t}; obj(v[0]); v[0].o["a"] = t; v[0].o["1"] = a; v[1] = v[0]; *j[0] = build(v[0]); *j[1] = *j[0]; break; }
        case 6: v[0] = vi((__int128) 1 << 63); *j[0] = Json((uint64_t) 1 << 63); v[1] = vi(3); *j[1] = Json(3u); break;
        case 7: { V t; t.t = 'a'; t.a = {vs("deep string"), vi(4)}; V o; obj(o); o.o["1"] = t; o.o["a"] = o.o["1"]; v[0].t = 'a'; v[0].a = {o, o}; *j[1] = build(o); *j[0] = Json::make_array(); j[0]->push_back(*j[1]); j[0]->push_back(*j[1]); v[1] = o; break; }
        }
    }
    int nops() const override { return ops.size(); }
    bool enabled(int o) override { return ops[o].on(); }
    const char* step(int o) override { return ops[o].go(); }
    const char* check() override {
        for (int x = 0; x < 2; ++x) if (!eq(*j[x], v[x])) return seq::msg("%c is %s, not %s", 'A' + x, str(j[x]->unparse()).substr(0, 300).c_str(), show(v[x]).c_str());
        return nullptr;
    }
    const char* finish() override { delete j[0]; delete j[1]; return nullptr; }
    S opname(int o) const override { return ops[o].name; }
};
// after any sequence of distinct insertions and removals of many keys
static void many_keys(int shard, int n) {
    for (int cnt : {5, 8, 9, 16, 33, 64, 65, 130, 300}) for (int mult = 1 + shard; mult < 60; mult += n) for (int del = 0; del < 4; ++del) {
        Json j = Json::make_object(); std::map<S, int> m; auto key = [&](int i) { return "k" + std::to_string((i * mult * 7 + i / 3) % 500); };
        for (int i = 0; i < cnt; ++i) {
            S k = key(i); if (i & 1) j.set(mkstr(k), i); else j.get_insert(k.c_str()) = Json(i); m[k] = i;
            if (del && i % (del + 1) == 0) { S d = key(i / 2); size_t r = j.erase(Str(d.data(), d.size())); if (r != m.erase(d)) SEQ_FAIL("erase counts wrongly"); }
            seq::begin_case(); if ((size_t) j.size() != m.size()) SEQ_FAIL("size is %d, not %zu", (int) j.size(), m.size());
            if (i % 7 == 0 || i == cnt - 1) { Json c = j; V v; v.t = 'o'; for (auto& x : m) v.o[x.first] = vi(x.second); if (!eq(j, v) || !eq(c, v)) SEQ_FAIL("%d keys, multiplier %d, removing %d: %s", cnt, mult, del, show(v).c_str()); if (i % 3 == 0) { c.set("other", 1); if (!eq(j, v)) SEQ_FAIL("a copy's change shows"); } for (int q = 0; q < 500; q += 3) { S k = "k" + std::to_string(q); if ((j.count(mkstr(k)) != 0) != (m.count(k) != 0)) SEQ_FAIL("count(%s)", k.c_str()); } }
        }
    }
}
int main(int argc, char** argv) {
    bool thorough = false; for (int i = 1; i < argc; ++i) if (S(argv[i]) == "--thorough") thorough = true;
    std::vector<seq::Scenario> sc;
    static std::vector<S> names; names.reserve(200);
    auto add = [&](const S& n, int shards, std::function<void()> f) { seq::Scenario s; s.name = n; s.depth = 0; s.run = f; s.shards = shards; sc.push_back(s); };
    auto T = [&](const S& n, int shards, std::vector<S> atoms, int len, const S& pre, const S& post, bool all) { add(n, shards, [=] { tree(atoms, len, pre, post, all, seq::seq_shard, seq::seq_nshards); }); };
    for (int st = 0; st < 8; ++st) { seq::Scenario s; s.name = "operations/" + std::to_string(st); s.depth = thorough ? 4 : 3; s.make = [st] { return new Ops(st); }; sc.push_back(s); }
    S every; for (int i = 0; i < 256; ++i) every += char(i);
    int q = thorough ? 1 : 0;
    T("bytes/2", 8, bytes(every), 2, "", "", true);
    T("bytes/[2", 8, bytes(every), 2, "[", "]", true);
    T("bytes/\"2", 8, bytes(every), 2, "\"", "\"", true);
    T("structure", 64, {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", " "}, 6 + q, "", "", false);
    T("structure/[", 64, {"{", "}", "[", "]", ",", ":", "\"a\"", "2", " "}, 6 + q, "[{\"x\":", "}]", false);
    T("tokens", 64, {"{\"a\":", "\"b\"", "}", "]", "[", ",", "-2.5e1", "true", "false", "\n", "\"a\":", "0"}, 5 + q, "", "", false);
    T("space", 32, {" ", "\t", "\n", "\r", "[", "]", "\v", "1", ","}, 5 + q, "", "", true);
    T("string", 64, bytes("a\"\\/u\x1f\x7f\x80\xbf\xc1\xc2\xdf\xe0\x9f\xa0\xed\xef\xf0\x8f\x90\xf4\xf5\xff"), 4 + q, "\"", "\"", true);
    T("utf8", 64, bytes("\x80\x8f\x90\x9f\xa0\xbf\xc2\xe0\xe1\xed\xf0\xf1\xf4"), 5 + q, "\"", "a\"", true);
    T("escape", 32, bytes("\\\"/bfnrtuaq0\n"), 4 + q, "\"x", "\"", true);
    T("hex", 64, bytes("0189afAFgdD\\u\""), 5 + q, "\"\\u", "\"", false);
    T("surrogate", 64, bytes("d8Dc0fF\\u9"), 5 + q, "\"\\uD83D\\u", "\"", false);
    T("surrogate/2", 64, bytes("dDcC8bB0\\u\""), 5 + q, "\"\\u", "\"", false);
    T("number", 64, bytes("019-+.eE, "), 6 + q, "", "", true);
    T("number/[", 64, bytes("01-+.eE,]"), 6 + q, "[", "]", false);
    T("number/{", 32, bytes("09-.e} "), 5 + q, "{\"n\":", "}", false);
    T("word", 32, bytes("nultrefasNT "), 5 + q, "", "", true);
    T("word/[", 32, bytes("nultrefas],"), 6, "[", "]", false);
    T("key", 32, {"\"", "k", "\\n", ":", "1", "}", ",", " ", "\\u00e9", "\xc3\xa9"}, 5 + q, "{\"", "\":1}", false);
    T("value string", 32, {"\"", "k", "\\n", ":", "}", ",", "\\ud83d\\ude00", "\xf0\x9f\x98\x80"}, 5 + q, "{\"v\":\"", "\"}", false);
    add("code units", 64, [=] { code_units(seq::seq_shard, seq::seq_nshards, thorough); });
    add("code points", 64, [=] { code_points(seq::seq_shard, seq::seq_nshards, thorough ? 1 : 17); });
    add("integers", 1, [=] { integers(); });
    add("values", 64, [=] { values(seq::seq_shard, seq::seq_nshards, thorough); });
    add("many keys", 16, [=] { many_keys(seq::seq_shard, seq::seq_nshards); });
    return seq::drive(argc, argv, sc);
}
