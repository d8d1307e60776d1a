// C17: the MessagePack codec against an independent decoder, for every short byte string, every small value in every
// encoding, and every way to cut the input.
#include "kvthread.hh"
#include "msgpack.hh"
#include "json.hh"
#include "straccum.hh"
#include "seq.hh"
#include <map>
#include <math.h>
using lcdf::Json; using lcdf::String; using lcdf::StringAccum; using lcdf::Str;
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
typedef std::string S; typedef unsigned char u8_t;
extern "C" { void mt_verif_relax(void) {} void mt_verif_alloc(void*, size_t, int) {} void mt_verif_retire(void*, size_t, int) {} void mt_verif_free(void*, size_t, int) {} }

struct V { char t = 'n'; __int128 i = 0; double d = 0; S s; std::vector<V> a; std::map<S, V> o; };     // n null, b bool, i int, d double, s string, a array, o object
static S istr(__int128 v) { if (v < 0) return "-" + istr(-v); S r; do { r = char('0' + int(v % 10)) + r; v /= 10; } while (v); return r; }
static S show(const V& v) { S r; switch (v.t) { case 'n': return "null"; case 'b': return v.i ? "true" : "false"; case 'i': return istr(v.i); case 'd': return std::to_string(v.d); case 's': return "'" + seq::hex(v.s.substr(0, 30)) + "'"; case 'a': for (auto& x : v.a) { r += (r.empty() ? "" : ",") + show(x); if (r.size() > 100) break; } return "[" + r + "]"; default: for (auto& x : v.o) { r += (r.empty() ? "" : ",") + seq::hex(x.first.substr(0, 30)) + ":" + show(x.second); if (r.size() > 100) break; } return "{" + r + "}"; } }
static bool eq(const Json& j, const V& v) {
    switch (v.t) {
    case 'n': return j.is_null();
    case 'b': return j.is_b() && j.as_b() == (v.i != 0);
    case 'i': return j.is_i() && (j.is_u() ? (__int128) j.as_u() : (__int128) j.as_i()) == v.i;
    case 'd': return j.is_d() && ((isnan(v.d) && isnan(j.as_d())) || (j.as_d() == v.d && signbit(j.as_d()) == signbit(v.d)));
    case 's': return j.is_s() && j.as_s().length() == (int) v.s.size() && !memcmp(j.as_s().data(), v.s.data(), v.s.size());
    case 'a': if (!j.is_a() || j.size() != (int) v.a.size()) return false; for (size_t i = 0; i < v.a.size(); ++i) if (!eq(j[i], v.a[i])) return false; return true;
    default: if (!j.is_o() || j.size() != (int) v.o.size()) return false; for (auto& x : v.o) { String k(x.first.data(), x.first.size()); if (!j.count(k) || !eq(j[k], x.second)) return false; } return true;
    }
}
// ---- the reference decoder: 0 a value, 1 incomplete, 2 malformed
struct Dec { const u8_t* p; const u8_t* e; bool lax = false; };
static unsigned long be(const u8_t* p, int n) { unsigned long v = 0; for (int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
static int decode(Dec& d, V& v, bool key) {
    if (d.p == d.e) return 1;
    u8_t c = *d.p; long n = -1; char kind = 0;
    auto need = [&](long k) { return d.e - d.p >= k; };
    auto num = [&](int k, bool sg) { v.t = 'i'; unsigned long x = be(d.p + 1, k); v.i = sg ? (__int128) ((long) (x << (64 - 8 * k)) >> (64 - 8 * k)) : (__int128) x; d.p += 1 + k; };
    if (c < 0x80 || c >= 0xe0) { v.t = 'i'; v.i = (signed char) c; ++d.p; return 0; }
    if (c < 0x90) { kind = 'o'; n = c & 15; ++d.p; }
    else if (c < 0xa0) { kind = 'a'; n = c & 15; ++d.p; }
    else if (c < 0xc0) { kind = 's'; n = c & 31; ++d.p; }
    else switch (c) {
        case 0xc0: if (key) return 2; v.t = 'n'; ++d.p; return 0;
        case 0xc2: case 0xc3: if (key) return 2; v.t = 'b'; v.i = c & 1; ++d.p; return 0;
        case 0xc4: case 0xc5: case 0xc6: case 0xd9: case 0xda: case 0xdb: { int k = 1 << (c >= 0xd9 ? c - 0xd9 : c - 0xc4); if (!need(1 + k)) return 1; n = be(d.p + 1, k); d.p += 1 + k; kind = 's'; break; }
        case 0xca: { if (!need(5)) return 1; if (key) return 2; uint32_t x = be(d.p + 1, 4); float f; memcpy(&f, &x, 4); v.t = 'd'; v.d = f; d.p += 5; return 0; }
        case 0xcb: { if (!need(9)) return 1; if (key) return 2; uint64_t x = be(d.p + 1, 8); memcpy(&v.d, &x, 8); v.t = 'd'; d.p += 9; return 0; }
        case 0xcc: case 0xcd: case 0xce: case 0xcf: { int k = 1 << (c - 0xcc); if (!need(1 + k)) return 1; num(k, false); return 0; }
        case 0xd0: case 0xd1: case 0xd2: case 0xd3: { int k = 1 << (c - 0xd0); if (!need(1 + k)) return 1; num(k, true); return 0; }
        case 0xdc: case 0xdd: case 0xde: case 0xdf: { int k = c & 1 ? 4 : 2; if (!need(1 + k)) return 1; n = be(d.p + 1, k); d.p += 1 + k; kind = c < 0xde ? 'a' : 'o'; break; }
        default: return 2;
    }
    if (n > 0x7fffffff) return 2;
    if (kind == 's') { if (!need(n)) return 1; v.t = 's'; v.s.assign((const char*) d.p, n); d.p += n; return 0; }
    if (key) return 2;
    v.t = kind;
    for (long i = 0; i < n; ++i) {
        if (kind == 'a') { v.a.emplace_back(); if (int r = decode(d, v.a.back(), false)) return r; continue; }
        V k; if (int r = decode(d, k, true)) return r;
        V x; if (int r = decode(d, x, false)) return r;
        v.o[k.t == 's' ? k.s : istr(k.i)] = x;
    }
    return 0;
}
struct Want { int st; size_t used; V v; };
static Want want(const S& b) { Want w; Dec d{(const u8_t*) b.data(), (const u8_t*) b.data() + b.size()}; w.st = decode(d, w.v, false); w.used = d.p - (const u8_t*) b.data(); return w; }

// ---- feeding a parser.  Each piece is put right before poisoned memory, and the memory is overwritten afterwards.
static const size_t GUARD = 4 << 20; static char* gbuf;
static char* guard(const char* p, size_t n) {
    if (!gbuf) { gbuf = (char*) __real_malloc(GUARD + 64); gbuf = (char*) (((uintptr_t) gbuf + 15) & ~15ul); }
#if SEQ_HAS_ASAN
    static size_t last = GUARD; if (last != n) { __asan_unpoison_memory_region(gbuf + GUARD - 64, 64 + 32); }
    char* s = gbuf + GUARD - ((n + 7) & ~7ul); memcpy(s, p, n); __asan_poison_memory_region(s + n, gbuf + GUARD + 32 - (s + n)); last = n;
    return s;
#else
    char* s = gbuf + GUARD - n; memcpy(s, p, n); return s;
#endif
}
static const char* compare(const char* how, const msgpack::streaming_parser& sp, size_t used, const S& b, const Want& w, const char* extra = "") {
    const char* names[] = {"a value", "incomplete", "malformed"};
    int st = !sp.done() ? 1 : sp.success() ? 0 : 2;
    if (sp.done() && !sp.success() && !sp.error()) return seq::msg("%s of %s: done, but neither success nor error", how, seq::hex(b).c_str());
    if (st != w.st) return seq::msg("%s of %s%s: %s, not %s", how, seq::hex(b).substr(0, 300).c_str(), extra, names[st], names[w.st]);
    if (st == 0 && used != w.used) return seq::msg("%s of %s%s: used %zu bytes, not %zu", how, seq::hex(b).substr(0, 300).c_str(), extra, used, w.used);
    if (st == 0 && !eq(sp.result(), w.v)) return seq::msg("%s of %s%s: value is %s, not %s", how, seq::hex(b).substr(0, 300).c_str(), extra, S(sp.result().unparse().c_str()).substr(0, 200).c_str(), show(w.v).substr(0, 200).c_str());
    if (st == 1 && used != b.size()) return seq::msg("%s of %s%s: stopped after %zu bytes without a result", how, seq::hex(b).substr(0, 300).c_str(), extra, used);
    if (st == 1 && sp.empty() != b.empty()) return seq::msg("%s of %s%s: empty() is wrong", how, seq::hex(b).substr(0, 300).c_str(), extra);
    return nullptr;
}
// mask: bit i set: cut after byte i
static size_t feed(msgpack::streaming_parser& sp, const S& b, const std::vector<size_t>& cuts, const String* own) {
    size_t at = 0;
    for (size_t k = 0; k <= cuts.size() && !sp.done(); ++k) {
        size_t to = k < cuts.size() ? cuts[k] : b.size();
        // consume() may stop early, at a place where it wants to be called again
        do {
            size_t u;
            if (own) u = sp.consume(own->data() + at, to - at, *own);
            else { char* g = guard(b.data() + at, to - at); u = sp.consume(g, to - at); memset(g, 0x5b, to - at); }
            if (u > to - at) SEQ_FAIL("consumed more than it was given");
            if (!u && at != to && !sp.done()) SEQ_FAIL("no progress on %s at %zu", seq::hex(b).substr(0, 200).c_str(), at);
            at += u;
        } while (!sp.done() && at != to);
    }
    return at;
}
static void check1(const S& b, const Want& w, const std::vector<size_t>& cuts, bool own, const char* how) {
    seq::begin_case();
    msgpack::streaming_parser sp; size_t used;
    if (own) { String s(b.data(), b.size()); used = feed(sp, b, cuts, &s); s = String(); }
    else used = feed(sp, b, cuts, nullptr);
    char ex[200]; int n = 0; ex[0] = 0; for (size_t i = 0; i < cuts.size() && n < 150; ++i) n += snprintf(ex + n, sizeof ex - n, "%s%zu", i ? "," : " cut at ", cuts[i]);
    if (const char* e = compare(how, sp, used, b, w, ex)) seq::fail(e);
}
static void all_cuts(const S& b, const char* how) {
    Want w = want(b);
    if (b.empty()) { check1(b, w, {}, false, how); return; }
    for (unsigned m = 0; m < 1u << (b.size() - 1); ++m) { std::vector<size_t> c; for (size_t i = 0; i + 1 < b.size(); ++i) if (m >> i & 1) c.push_back(i + 1); check1(b, w, c, false, how); }
    check1(b, w, {}, true, how);
}
static void strings(const S& alpha, int len, int shard, int n, const char* how, const S& pre = S()) {
    size_t k = alpha.size(), top = k; if (len > 1) top = k * k;
    for (size_t f = shard; f < (len > 1 ? top : k); f += n) {
        std::vector<size_t> ix(len, 0); ix[0] = f % k; if (len > 1) ix[1] = f / k;
        while (true) {
            S b = pre; for (int i = 0; i < len; ++i) b += alpha[ix[i]];
            all_cuts(b, how);
            int p = len - 1; while (p >= 2 && ++ix[p] == k) ix[p--] = 0;
            if (p < 2) break;
        }
        if (seq::out_of_time()) return;
    }
}
// ---- values in every encoding
static S be_s(unsigned long v, int n) { S r; for (int i = n - 1; i >= 0; --i) r += char(v >> (8 * i)); return r; }
struct E { S b; V v; };
static void ints(std::vector<E>& r, __int128 x) {
    auto add = [&](S b) { E e; e.b = b; e.v.t = 'i'; e.v.i = x; r.push_back(e); };
    if (x >= -32 && x < 128) add(S(1, char((int) x)));
    for (int k = 0; k < 4; ++k) { int bits = 8 << k; if (x >= 0 && x < (__int128) 1 << bits) add(S(1, char(0xcc + k)) + be_s((unsigned long) x, 1 << k)); if (x >= -((__int128) 1 << (bits - 1)) && x < (__int128) 1 << (bits - 1)) add(S(1, char(0xd0 + k)) + be_s((unsigned long) x, 1 << k)); }
}
static std::vector<__int128> int_values() { std::vector<__int128> r; for (int k = 0; k <= 64; ++k) for (int d = -1; d <= 1; ++d) { __int128 p = ((__int128) 1 << k) + d; if (p <= (__int128) ~0ul) r.push_back(p); if (-p >= -((__int128) 1 << 63)) r.push_back(-p); } for (int x : {-33, -32, -31, 5}) r.push_back(x); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
static void strs(std::vector<E>& r, size_t n) {
    S s; for (size_t i = 0; i < n; ++i) s += char(i * 7 + n);
    auto add = [&](S h) { E e; e.b = h + s; e.v.t = 's'; e.v.s = s; r.push_back(e); };
    if (n < 32) add(S(1, char(0xa0 + n)));
    for (int k = 0; k < 3; ++k) if (n < 1ul << (8 << k)) { add(S(1, char(0xd9 + k)) + be_s(n, 1 << k)); add(S(1, char(0xc4 + k)) + be_s(n, 1 << k)); }
}
static void others(std::vector<E>& r) {
    E e; e.b = "\xc0"; r.push_back(e); e.v.t = 'b'; e.b = "\xc2"; r.push_back(e); e.v.i = 1; e.b = "\xc3"; r.push_back(e);
    for (double d : {0.0, -0.0, 1.5, -3.25e20, 1e300, (double) INFINITY, (double) NAN}) { E x; x.v.t = 'd'; x.v.d = d; uint64_t u; memcpy(&u, &d, 8); x.b = S("\xcb") + be_s(u, 8); r.push_back(x); if (d != 1e300) { float f = d; uint32_t w; memcpy(&w, &f, 4); x.v.d = f; x.b = S("\xca") + be_s(w, 4); r.push_back(x); } }
}
static std::vector<S> heads(char kind, size_t n) { std::vector<S> r; if (n < 16) r.push_back(S(1, char((kind == 'a' ? 0x90 : 0x80) + n))); if (n < 65536) r.push_back(S(1, char(kind == 'a' ? 0xdc : 0xde)) + be_s(n, 2)); r.push_back(S(1, char(kind == 'a' ? 0xdd : 0xdf)) + be_s(n, 4)); return r; }
static E mk(char kind, const S& h, const std::vector<E>& xs) {      // for 'o', xs alternates keys and values
    E e; e.b = h; e.v.t = kind; for (size_t i = 0; i < xs.size(); ++i) { e.b += xs[i].b; if (kind == 'a') e.v.a.push_back(xs[i].v); else if (i % 2) { const V& k = xs[i - 1].v; e.v.o[k.t == 's' ? k.s : istr(k.i)] = xs[i].v; } }
    return e;
}
static std::vector<E> leaves(bool many) {
    std::vector<E> r; others(r);
    if (many) { for (auto x : int_values()) ints(r, x); for (size_t n : {0, 1, 2, 30, 31, 32, 33, 255, 256, 257, 1000}) strs(r, n); }
    else { for (__int128 x : {(__int128) 5, (__int128) -1, (__int128) 200, (__int128) -40000, (__int128) ~0ul}) ints(r, x); for (size_t n : {0, 1, 2}) strs(r, n); strs(r, 40); }
    return r;
}
static std::vector<E> trees(const std::vector<E>& lv, bool wide) {
    std::vector<E> r = lv, c; std::vector<E> ks; for (auto& x : lv) if (x.v.t == 's' || x.v.t == 'i') ks.push_back(x);
    for (auto& h : heads('a', 0)) c.push_back(mk('a', h, {})); for (auto& h : heads('o', 0)) c.push_back(mk('o', h, {}));
    for (auto& h : heads('a', 1)) for (auto& x : lv) c.push_back(mk('a', h, {x}));
    for (auto& h : heads('o', 1)) for (auto& k : ks) for (size_t i = 0; i < lv.size(); i += wide ? 1 : 7) c.push_back(mk('o', h, {k, lv[i]}));
    for (auto& h : heads('a', 2)) for (size_t i = 0; i < lv.size(); ++i) for (size_t j = 0; j < lv.size(); j += wide ? 1 : 5) c.push_back(mk('a', h, {lv[i], lv[(i + j) % lv.size()]}));
    for (auto& h : heads('o', 2)) for (size_t i = 0; i < ks.size(); ++i) for (size_t j = 0; j < ks.size(); j += wide ? 2 : 5) c.push_back(mk('o', h, {ks[i], lv[(i * 3 + j) % lv.size()], ks[j], lv[(i + j) % lv.size()]}));
    size_t n = c.size();
    for (size_t i = 0; i < n; i += wide ? 3 : 11) { c.push_back(mk('a', "\x91", {c[i]})); c.push_back(mk('a', "\x93", {lv[i % lv.size()], c[i], lv[(i + 3) % lv.size()]})); c.push_back(mk('o', "\x81", {ks[i % ks.size()], c[i]})); c.push_back(mk('o', S("\xdf\0\0\0\2", 5), {ks[i % ks.size()], c[i], ks[(i + 2) % ks.size()], c[(i + 40) % n]})); c.push_back(mk('a', S("\xdc\0\2", 3), {mk('a', "\x91", {mk('o', "\x81", {ks[i % ks.size()], c[i]})}), c[(i * 5) % n]})); }
    r.insert(r.end(), c.begin(), c.end()); return r;
}
static std::vector<size_t> interesting(size_t n) { std::vector<size_t> r; for (size_t i = 1; i < n; ++i) if (n <= 40 || i < 14 || i + 14 > n || i % 97 == 0 || (i & (i - 1)) == 0) r.push_back(i); if (n > 20000) { std::vector<size_t> q; for (size_t i : {1ul, 2ul, 3ul, 5ul, 6ul, 40ul, 4096ul, 4097ul, n / 2, n - 3, n - 2, n - 1}) q.push_back(i); return q; } if (r.size() > 200) { std::vector<size_t> q; for (size_t i = 0; i < r.size(); ++i) if (i < 40 || i + 40 > r.size() || i % (r.size() / 100) == 0) q.push_back(r[i]); r = q; } return r; }
static void cut2(const E& e, bool two) {
    Want w = want(e.b); if (w.st || w.used != e.b.size() || show(w.v) != show(e.v)) SEQ_FAIL("the reference decoder is wrong on %s: %d", seq::hex(e.b).substr(0, 200).c_str(), w.st);
    S b = e.b + "\x93\xc1"; std::vector<size_t> p = interesting(b.size());
    check1(b, w, {}, false, "value"); check1(b, w, {}, true, "value");
    for (size_t i = 0; i < p.size(); ++i) { check1(b, w, {p[i]}, false, "value"); check1(b, w, {p[i]}, true, "value"); if (two) for (size_t j = i + 1; j < p.size(); ++j) check1(b, w, {p[i], p[j]}, false, "value"); }
    std::vector<size_t> every; for (size_t i = 1; i < b.size() && i < 100000; ++i) every.push_back(i); check1(b, w, every, false, "value byte by byte");
    for (size_t i : p) if (i < e.b.size()) { S t = e.b.substr(0, i); check1(t, want(t), {}, false, "prefix"); }
}
static Json build(const V& v) {
    switch (v.t) {
    case 'n': return Json(); case 'b': return Json(v.i != 0); case 'i': return v.i > INT64_MAX ? Json((uint64_t) v.i) : Json((int64_t) v.i); case 'd': return Json(v.d); case 's': return Json(String(v.s.data(), v.s.size()));
    case 'a': { Json j = Json::make_array(); for (auto& x : v.a) j.push_back(build(x)); return j; }
    default: { Json j = Json::make_object(); for (auto& x : v.o) j.set(String(x.first.data(), x.first.size()), build(x.second)); return j; }
    }
}
static void decodes(const S& b, const V& v, const char* how) {
    seq::begin_case(); Want w = want(b);
    if (w.st || w.used != b.size() || show(w.v) != show(v)) SEQ_FAIL("%s of %s wrote %s", how, show(v).c_str(), seq::hex(b).substr(0, 300).c_str());
}
static S str(const String& s) { return S(s.data(), s.length()); }
static S strv(StringAccum& sa) { String s = sa.take_string(); return str(s); }
template <typename T> static void int_type(__int128 x, const std::vector<E>& encs, const char* name) {
    if ((__int128) (T) x != x) return;
    StringAccum sa; msgpack::unparser<StringAccum> u(sa); u << (T) x; V v; v.t = 'i'; v.i = x; S b = strv(sa); decodes(b, v, "an integer");
    T y = 77; msgpack::parser p0(b.c_str()); p0 >> y; if (y != (T) x || p0.position() != b.c_str() + b.size()) SEQ_FAIL("parser >> %s of its own %s", name, seq::hex(b).c_str());
    for (auto& e : encs) { seq::begin_case(); T z = 77; char* g = guard(e.b.data(), e.b.size()); msgpack::parser p(g); p >> z; if ((__int128) z != x || p.position() != g + e.b.size()) SEQ_FAIL("parser >> %s of %s gave %s at %zd", name, seq::hex(e.b).c_str(), istr(z).c_str(), p.position() - g); }
}
static void unparse_all(bool wide) {
    for (auto x : int_values()) {
        std::vector<E> encs; ints(encs, x);
        int_type<int>(x, encs, "int"); int_type<unsigned>(x, encs, "unsigned"); int_type<long>(x, encs, "long"); int_type<unsigned long>(x, encs, "unsigned long"); int_type<long long>(x, encs, "long long"); int_type<unsigned long long>(x, encs, "unsigned long long");
        StringAccum sa; msgpack::unparser<StringAccum> u(sa); V v; v.t = 'i'; v.i = x;
        if (x >= 0) { u.write_wide((uint64_t) x); S b = strv(sa); if (b.size() != 9) SEQ_FAIL("write_wide wrote %zu bytes", b.size()); decodes(b, v, "a wide integer"); }
        if (x <= INT64_MAX) { u.write_wide((int64_t) x); S b = strv(sa); if (b.size() != 9) SEQ_FAIL("write_wide wrote %zu bytes", b.size()); decodes(b, v, "a wide integer"); }
    }
    for (double d : {0.0, -0.0, 1.5, -3.25e20, 1e300, (double) INFINITY}) { StringAccum sa; msgpack::unparser<StringAccum> u(sa); u << d; V v; v.t = 'd'; v.d = d; S b = strv(sa); decodes(b, v, "a double"); double y = 0; msgpack::parser p(b.c_str()); p >> y; if (y != d) SEQ_FAIL("parser >> double"); if (d != 1e300) { u << (float) d; v.d = (float) d; decodes(strv(sa), v, "a float"); } }
    for (size_t n : {0, 1, 5, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 4095, 4096, 5000, 65534, 65535, 65536, 65537, 200000}) {
        S s; for (size_t i = 0; i < n; ++i) s += char(i * 11 + 3); V v; v.t = 's'; v.s = s;
        for (int how = 0; how < 3; ++how) { StringAccum sa; msgpack::unparser<StringAccum> u(sa); u << 1; if (how == 0) u << Str(s.data(), n); else if (how == 1) u << String(s.data(), n); else u << Json(String(s.data(), n)); S b = strv(sa); if (b.empty() || b[0] != 1) SEQ_FAIL("unparsed strings are misplaced"); decodes(b.substr(1), v, "a string"); }
        std::vector<E> encs; strs(encs, n);
        for (auto& e : encs) { seq::begin_case(); char* g = guard(e.b.data(), e.b.size()); Str x; msgpack::parser p(g); p >> x; if (S(x.s, x.len) != e.v.s || p.position() != g + e.b.size()) SEQ_FAIL("parser >> Str"); String y; msgpack::parser p2(g); p2 >> y; if (str(y) != e.v.s || p2.position() != g + e.b.size()) SEQ_FAIL("parser >> String"); { String own(e.b.data(), e.b.size()); msgpack::parser p3(own); p3 >> y; } if (str(y) != e.v.s) SEQ_FAIL("parser >> String from a String"); }
    }
    for (size_t n : {0, 1, 14, 15, 16, 17, 255, 256, 65534, 65535, 65536, 65537, 1000000}) for (char k : {'a', 'o'}) {
        StringAccum sa; msgpack::unparser<StringAccum> u(sa); if (k == 'a') u << msgpack::array(n); else u << msgpack::object(n); S b = strv(sa); bool ok = false; for (auto& h : heads(k, n)) ok = ok || h == b; if (!ok) SEQ_FAIL("header of a container of %zu elements: %s", n, seq::hex(b).c_str());
        if (k == 'a') { u.write_array_header(n); if (strv(sa) != b) SEQ_FAIL("write_array_header"); for (auto& h : heads(k, n)) { seq::begin_case(); char* g = guard(h.data(), h.size()); unsigned m = 7; msgpack::parser p(g); p.read_array_header(m); if (m != n || p.position() != g + h.size()) SEQ_FAIL("read_array_header of %zu", n); msgpack::parser q(g); q.skip_array_size(); if (q.position() != g + h.size()) SEQ_FAIL("skip_array_size of %zu", n); } }
    }
    for (bool b : {false, true}) { StringAccum sa; msgpack::unparser<StringAccum> u(sa); u << Json(b); bool y = !b; S w = strv(sa); msgpack::parser p(w.c_str()); p >> y; if (y != b) SEQ_FAIL("parser >> bool"); u.null(); w = strv(sa); msgpack::parser q(w.c_str()); if (!q.try_read_null() || q.position() != w.c_str() + 1) SEQ_FAIL("null"); }
    auto lv = leaves(true); for (auto& a : lv) for (size_t k = 0; k < lv.size(); k += 5) { seq::begin_case(); S b = a.b + lv[k].b; char* g = guard(b.data(), b.size()); msgpack::parser p(g); p.skip_primitives(2); if (p.position() != g + b.size()) SEQ_FAIL("skip_primitives over %s", seq::hex(b).substr(0, 200).c_str()); msgpack::parser q(g); q.skip_primitive(); if (q.position() != g + a.b.size()) SEQ_FAIL("skip_primitive over %s", seq::hex(a.b).substr(0, 200).c_str()); }
    for (auto& e : trees(leaves(wide), wide)) {
        if (isnan(e.v.d) && e.v.t == 'd') continue;
        Json j = build(e.v); if (!eq(j, e.v)) continue;
        String b = msgpack::unparse(j); Want w = want(str(b)); seq::begin_case(); if (w.st || w.used != (size_t) b.length() || !eq(j, w.v)) SEQ_FAIL("unparse of %s: %s", show(e.v).c_str(), seq::hex(str(b)).substr(0, 300).c_str());
        if (!eq(msgpack::parse(b), w.v) || !eq(msgpack::parse(b.begin(), b.end()), w.v)) SEQ_FAIL("msgpack::parse does not undo unparse for %s", show(e.v).c_str());
        Json k; S bb = e.b + S(1, '\7'); char* g = guard(bb.data(), bb.size()); msgpack::parser p(g); int x = 0; p >> k; p >> x; if (!eq(k, e.v) || x != 7) SEQ_FAIL("parser >> Json of %s", seq::hex(e.b).substr(0, 200).c_str());
    }
}
// one parser for several values: abandoned anywhere, reset, used again; several values in one buffer
static void reuse(const std::vector<E>& t, int shard, int n, size_t stride) {
    for (size_t i = shard; i < t.size(); i += n) for (size_t j = i % stride; j < t.size(); j += stride) {
        const E& a = t[i]; const E& c = t[j]; std::vector<size_t> p = interesting(a.b.size()); if (p.size() > 8) p.resize(8); p.push_back(a.b.size());
        for (size_t at : p) {
            seq::begin_case();
            msgpack::streaming_parser sp; S f = a.b.substr(0, at); feed(sp, f, {}, nullptr); sp.reset(); if (!sp.empty() || sp.done()) SEQ_FAIL("reset() leaves the parser busy"); size_t u = feed(sp, c.b, {}, nullptr);
            Want w; w.st = 0; w.used = c.b.size(); w.v = c.v; if (const char* e = compare("value after a reset parser", sp, u, c.b, w, (" (before: " + seq::hex(f).substr(0, 200) + ")").c_str())) seq::fail(e);
            if (at == a.b.size()) {      // the result taken away must not change with the parser's later work
                msgpack::streaming_parser q; feed(q, a.b, {}, nullptr); Json keep = q.result(); q.reset(); feed(q, c.b, {c.b.size() / 2}, nullptr); if (!eq(keep, a.v)) SEQ_FAIL("a result changed when its parser was used again: %s then %s", seq::hex(a.b).substr(0, 200).c_str(), seq::hex(c.b).substr(0, 200).c_str());
                S both = a.b + c.b; msgpack::streaming_parser r; char* g = guard(both.data(), both.size()); size_t u1 = r.consume(g, both.size()); r.reset(); size_t u2 = r.consume(g + u1, both.size() - u1); if (u1 != a.b.size() || u2 != c.b.size() || !eq(r.result(), c.v)) SEQ_FAIL("two values in one buffer: %s", seq::hex(both).substr(0, 300).c_str());
            }
        }
        if (!(j & 63) && seq::out_of_time()) return;
    }
    for (const char* bad : {"\xc1", "\x91\xc1", "\x81\xc0", "\x81\x90", "\x82\x01\x02\xcb\0\0\0\0\0\0\0\0"}) for (size_t j = 0; j < t.size(); j += 3) { seq::begin_case(); msgpack::streaming_parser sp; S b(bad, bad[0] == '\x82' ? 12 : strlen(bad)); feed(sp, b, {}, nullptr); if (!sp.error()) SEQ_FAIL("%s is accepted", seq::hex(b).c_str()); if (sp.consume("\1", 1) != 0) SEQ_FAIL("a parser in the error state consumes"); sp.reset(); size_t u = feed(sp, t[j].b, {}, nullptr); if (!sp.success() || u != t[j].b.size() || !eq(sp.result(), t[j].v)) SEQ_FAIL("after malformed input and a reset: %s", seq::hex(t[j].b).substr(0, 200).c_str()); }
}
static void big(int shard, int n0) {
    std::vector<E> r; for (size_t n : {65534, 65535, 65536, 65537, 200000}) strs(r, n);
    for (size_t n : {14, 15, 16, 17, 255, 256, 65534, 65535, 65536, 70000}) for (auto& h : heads('a', n)) { std::vector<E> xs; for (size_t i = 0; i < n; ++i) { std::vector<E> q; if (i % 3) ints(q, i % 3 == 1 ? (__int128) i : -(__int128) i); else strs(q, i % 40); xs.push_back(q[i % q.size()]); } r.push_back(mk('a', h, xs)); }
    for (size_t n : {14, 15, 16, 17, 255, 256, 3000, 65535, 65536}) for (auto& h : heads('o', n)) { std::vector<E> xs; for (size_t i = 0; i < n; ++i) { E k; char b[20]; int l = snprintf(b, 20, "k%zu", i); k.v.t = 's'; k.v.s = b; k.b = S(1, char(0xa0 + l)) + b; xs.push_back(k); std::vector<E> q; ints(q, i); xs.push_back(q[i % q.size()]); } r.push_back(mk('o', h, xs)); }
    for (int d : {1, 2, 3, 4, 5, 8, 20, 100}) for (int m = 0; m < 3; ++m) { std::vector<E> lf; ints(lf, 300); E e = lf[0]; for (int i = 0; i < d; ++i) { bool ob = m == 1 || (m == 2 && i % 2); std::vector<E> k; strs(k, 1 + i % 3); e = ob ? mk('o', "\x82", {k[0], e, lf[1], lf[0]}) : mk('a', "\x92", {e, lf[2]}); } r.push_back(e); }
    for (size_t i = shard; i < r.size(); i += n0) cut2(r[i], false);
}
static void lengths() {
    for (S b : {S("\xdd\xff\xff\xff\xff", 5), S("\xdd\x80\0\0\0", 5), S("\xdf\xff\xff\xff\xff", 5), S("\xdb\xff\xff\xff\xff", 5), S("\xdb\x80\0\0\0", 5), S("\xc6\xff\xff\xff\xf0" "abc", 8), S("\x92\xdb\xff\xff\xff\xff", 6), S("\xdf\x80\0\0\0\1\1", 7)}) all_cuts(b, "length of 2^31 or more");
    for (S b : {S("\xdb\x7f\xff\xff\xff" "abc", 8), S("\xc6\x01\0\0\0", 5), S("\xdf\x7f\xff\xff\xff\xa1x\x01", 8)}) all_cuts(b, "long, not all there");
}
int main(int argc, char** argv) {
    bool thorough = false; for (int i = 1; i < argc; ++i) if (S(argv[i]) == "--thorough") thorough = true;
    std::vector<seq::Scenario> sc;
    auto add = [&](const char* n, int shards, std::function<void()> f) { seq::Scenario s; s.name = n; s.depth = 0; s.run = f; s.shards = shards; sc.push_back(s); };
    S all; for (int i = 0; i < 256; ++i) all += char(i);
    S mid("\x00\x01\x02\x61\x81\x82\x91\x92\xa0\xa1\xa2\xc0\xc3\xcc\xd1\xd9\xde", 17), few("\x01\x81\x91\x92\xa1\xd9\xc0", 7), heads3("\x00\x01\x7f\x80\x81\x8f\x90\x91\x9f\xa0\xa1\xbf\xc0\xc1\xc2\xc3\xc4\xc5\xc6\xc7\xca\xcb\xcc\xcd\xce\xcf\xd0\xd1\xd2\xd3\xd4\xd8\xd9\xda\xdb\xdc\xdd\xde\xdf\xe0\xff", 41);
    add("bytes/1", 1, [=] { all_cuts("", "nothing"); strings(all, 1, 0, 1, "one byte"); });
    add("bytes/2", 8, [=] { strings(all, 2, seq::seq_shard, seq::seq_nshards, "two bytes"); });
    add("bytes/3", 16, [=] { strings(thorough ? all : heads3, 3, seq::seq_shard, seq::seq_nshards, "three bytes"); });
    add("bytes/4", 32, [=] { strings(thorough ? heads3 : mid, 4, seq::seq_shard, seq::seq_nshards, "four bytes"); });
    add("bytes/5", 64, [=] { strings(mid, thorough ? 6 : 5, seq::seq_shard, seq::seq_nshards, "five or six bytes"); });
    add("bytes/7", 49, [=] { strings(few, thorough ? 8 : 7, seq::seq_shard, seq::seq_nshards, "seven or eight bytes"); });
    for (S h : {S("\xdc\0", 2), S("\xdd\0\0\0", 4), S("\xdf\0\0\0", 4), S("\xdb\0\0\0", 4), S("\xc5\0", 2)}) { static char nm[5][20]; static int ni = 0; snprintf(nm[ni], 20, "headers/%02x", (u8_t) h[0]); add(nm[ni++], 49, [=] { strings(few + S("\0\2", 2), 4, seq::seq_shard, seq::seq_nshards, "a long header", h); }); }
    add("values", 64, [=] { auto t = trees(leaves(thorough), thorough); for (size_t i = seq::seq_shard; i < t.size(); i += seq::seq_nshards) { cut2(t[i], t[i].b.size() < 30); if (seq::out_of_time()) return; } });
    add("leaves", 16, [=] { auto t = leaves(true); for (size_t i = seq::seq_shard; i < t.size(); i += seq::seq_nshards) cut2(t[i], true); });
    add("reuse", 64, [=] { reuse(trees(leaves(false), false), seq::seq_shard, seq::seq_nshards, thorough ? 7 : 61); });
    add("unparse", 1, [=] { unparse_all(thorough); });
    add("big", 32, [=] { big(seq::seq_shard, seq::seq_nshards); });
    add("lengths", 1, [=] { lengths(); });
    return seq::drive(argc, argv, sc);
}
