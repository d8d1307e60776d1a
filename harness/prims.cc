// C19: the building blocks of the tree's nodes, each over an exhaustively enumerated space of states and arguments
// against a plain model: permuters, bound searches, key slices, keys, string bags, version words, small vectors,
// wrapping integers, and the bit, byte-order and atomic functions under them.
#include "kvthread.hh"
#include "kpermuter.hh"
#include "ksearch.hh"
#include "string_slice.hh"
#include "masstree_key.hh"
#include "stringbag.hh"
#include "small_vector.hh"
#include "circular_int.hh"
#include "nodeversion.hh"
#include "seq.hh"
#include <math.h>
#include <algorithm>
using lcdf::String; using lcdf::Str;
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
extern "C" { void mt_verif_relax(void) {} void mt_verif_alloc(void*, size_t, int) {} void mt_verif_retire(void*, size_t, int) {} void mt_verif_free(void*, size_t, int) {} }
typedef std::string S;
static int bad;
#define CHECK(c, ...) do { if (!(c)) SEQ_FAIL(__VA_ARGS__); } while (0)

// ---- permuters
struct PV { int n; std::vector<int> v; };
static S show(const PV& p) { S s; for (size_t i = 0; i <= p.v.size(); ++i) { if ((int) i == p.n) s += ':'; if (i < p.v.size()) s += "0123456789abcdef"[p.v[i]]; } return s; }
template <int W> struct Perm {
    typedef kpermuter<W> K;
    static K load(const PV& p) { typename K::value_type x = 0; for (int i = W - 1; i >= 0; --i) x = (x | p.v[i]) << 4; return K(x | p.n); }
    static bool same(const K& k, const PV& p) {
        if (k.size() != p.n || K::size(k.value()) != p.n || k.width() != W || k.back() != p.v[W - 1]) return false;
        for (int i = 0; i < W; ++i) if (k[i] != p.v[i] || (int) (k.value_from(i) & 15) != p.v[i]) return false;
        String u = k.unparse(); return S(u.data(), u.length()) == show(p);
    }
    template <typename F> static void each_op(const K& k, const PV& p, F f) {      // every operation with every allowed argument
        char name[60];
        auto done = [&](K q, const PV& m, const char* op, int a, int b) {
            seq::begin_case(); snprintf(name, sizeof name, "%s(%d,%d)", op, a, b); seq::path(show(p) + " " + name);
            CHECK(same(q, m), "width %d: %s then %s gives %s, not %s", W, show(p).c_str(), name, S(q.unparse().data(), q.unparse().length()).c_str(), show(m).c_str());
            f(q, m);
        };
        if (p.n < W) {
            for (int i = 0; i <= p.n; ++i) { K q = k; PV m = p; int x = q.insert_from_back(i); CHECK(x == p.v[W - 1], "insert_from_back returned %d", x); m.v.pop_back(); m.v.insert(m.v.begin() + i, x); ++m.n; done(q, m, "insert_from_back", i, 0); }
            for (int d = 0; d <= p.n; ++d) for (int s = p.n; s < W; ++s) { K q = k; PV m = p; q.insert_selected(d, s); int x = m.v[s]; m.v.erase(m.v.begin() + s); m.v.insert(m.v.begin() + d, x); ++m.n; done(q, m, "insert_selected", d, s); }
        }
        for (int i = 0; i < p.n; ++i) {
            { K q = k; PV m = p; q.remove(i); int x = m.v[i]; m.v.erase(m.v.begin() + i); m.v.insert(m.v.begin() + p.n - 1, x); --m.n; done(q, m, "remove", i, 0); }
            { K q = k; PV m = p; q.remove_to_back(i); int x = m.v[i]; m.v.erase(m.v.begin() + i); m.v.push_back(x); --m.n; done(q, m, "remove_to_back", i, 0); }
        }
        if (p.n == W) for (int i = 0; i <= W; ++i) for (int j = i; j <= W; ++j) { K q = k; PV m = p; q.rotate(i, j); std::rotate(m.v.begin() + i, m.v.begin() + j, m.v.end()); done(q, m, "rotate", i, j); }
        for (int i = 0; i < W; ++i) for (int j = 0; j < W; ++j) {
            { K q = k; PV m = p; q.exchange(i, j); std::swap(m.v[i], m.v[j]); done(q, m, "exchange", i, j); }
            { K q = k; PV m = p; q.exchange_values(i, j); for (int& x : m.v) x = x == i ? j : x == j ? i : x; done(q, m, "exchange_values", i, j); }
        }
        for (int n = 0; n <= W; ++n) { K q = k; PV m = p; q.set_size(n); m.n = n; done(q, m, "set_size", n, 0); }
    }
    static void deep(const K& k, const PV& p, int d) { each_op(k, p, [&](K q, const PV& m) { if (d > 1 && !seq::out_of_time()) deep(q, m, d - 1); }); }
    static void run(int shard, int n, bool thorough) {
        PV e; e.n = 0; for (int i = 0; i < W; ++i) e.v.push_back(W - 1 - i);
        std::reverse(e.v.begin(), e.v.end());
        K k = K::make_empty(); int c = 0;
        { PV m = e; std::reverse(m.v.begin(), m.v.end()); CHECK(same(k, m), "an empty permuter of width %d is %s", W, S(k.unparse().data(), k.unparse().length()).c_str()); }
        for (int i = 0; i < W; ++i) CHECK(k.insert_from_back(i) == i, "element %d is not allocated in order", i);       // documented order
        for (int z = 0; z <= W; ++z) {
            K s = K::make_sorted(z); PV m; m.n = z; for (int i = 0; i < z; ++i) m.v.push_back(i); for (int i = W - 1; i >= z; --i) m.v.push_back(i);
            CHECK(same(s, m), "make_sorted(%d) of width %d is %s", z, W, S(s.unparse().data(), s.unparse().length()).c_str());
            { K t = s; for (int i = z; i < W; ++i) CHECK(t.insert_from_back(i) == i, "after make_sorted(%d) element %d is not allocated in order", z, i); }
            if (c++ % n == shard) deep(s, m, thorough && W < 12 ? 3 : W <= 5 ? 3 : 2);
        }
        if (W <= (thorough ? 8 : 7)) {           // every state there is
            std::vector<int> v = e.v; do for (int z = 0; z <= W; ++z) if (c++ % n == shard) { PV m; m.n = z; m.v = v; each_op(load(m), m, [](K, const PV&) {}); } while (std::next_permutation(v.begin(), v.end()) && !seq::out_of_time());
        }
    }
};

// ---- searches
template <bool P> struct Node {};
template <> struct Node<false> { int n, key[64]; int size() const { return n; } int compare_key(int k, int p) const { return k < key[p] ? -1 : k > key[p]; } };
template <> struct Node<true> : Node<false> { typedef kpermuter<15> permuter_type; permuter_type pm; permuter_type permutation() const { return pm; } };
template <typename B, bool P> static void search_one(const Node<P>& nd, const std::vector<int>& slot, const char* what) {      // keys 2,4,..,2n; slot[i] holds the i-th
    int n = slot.size();
    auto cmp = [](int k, const Node<P>& x, int p) { return x.compare_key(k, p); };
    for (int k = 1; k <= 2 * n + 1; ++k) {
        seq::begin_case(); int lo = (k - 1) / 2; bool found = !(k & 1); int up = k / 2;
        for (int by = 0; by < 2; ++by) {
            key_indexed_position r = by ? B::lower_by(k, nd, cmp) : B::lower(k, nd);
            CHECK(r.i == lo && r.p == (found ? slot[lo] : -1), "%s lower bound of %d among %d keys is (%d,%d), not (%d,%d)", what, k, n, r.i, r.p, lo, found ? slot[lo] : -1);
        }
        int u = B::upper(k, nd); CHECK(u == up, "%s upper bound of %d among %d keys is %d, not %d", what, k, n, u, up);
    }
}
template <bool P> static void search_all(const Node<P>& nd, const std::vector<int>& slot) {
    search_one<key_bound_binary, P>(nd, slot, "binary"); search_one<key_bound_linear, P>(nd, slot, "linear");
    search_one<typename key_bound<15, bound_method_fast>::type, P>(nd, slot, "fast"); search_one<typename key_bound<40, bound_method_fast>::type, P>(nd, slot, "fast/40");
    search_one<typename key_bound<15, bound_method_binary>::type, P>(nd, slot, "chosen binary"); search_one<typename key_bound<15, bound_method_linear>::type, P>(nd, slot, "chosen linear");
    for (int k = 1; k <= 2 * (int) slot.size() + 1; ++k) CHECK(key_upper_bound(k, nd) == k / 2 && key_lower_bound(k, nd).i == (k - 1) / 2, "key_upper_bound or key_lower_bound of %d", k);
}
static void searches(int shard, int n) {
    for (int z = 0; z <= 64; ++z) { Node<false> nd; nd.n = z; std::vector<int> s; for (int i = 0; i < z; ++i) { nd.key[i] = 2 * i + 2; s.push_back(i); } if (z % n == shard) search_all(nd, s); }
    int c = 0;
    auto one = [&](const std::vector<int>& full, int z) {
        if (c++ % n != shard) return;
        Node<true> nd; nd.n = z; PV m; m.n = z; m.v = full; nd.pm = Perm<15>::load(m); for (int i = 0; i < 64; ++i) nd.key[i] = 1000 - 7 * i;
        std::vector<int> s(full.begin(), full.begin() + z); for (int i = 0; i < z; ++i) nd.key[s[i]] = 2 * i + 2;
        search_all(nd, s);
    };
    std::vector<int> id; for (int i = 0; i < 15; ++i) id.push_back(i);
    for (int z = 0; z <= 15; ++z) for (int rot = 0; rot < 15; ++rot) for (int rev = 0; rev < 2; ++rev) for (int st : {1, 2, 4, 7}) { std::vector<int> v; for (int i = 0; i < 15; ++i) v.push_back((i * st + rot) % 15); if (rev) std::reverse(v.begin(), v.end()); one(v, z); }
    std::vector<int> v = id; do for (int z = 0; z <= 6; ++z) one(v, z); while (std::next_permutation(v.begin(), v.begin() + 6));
}

// ---- slices.  Memory [s - size - 1, s + len + size) is filled with a byte the result must not depend on
template <typename T> static void slices(int shard, int n, int maxlen, const S& alphabet) {
    typedef string_slice<T> SL; typedef typename mass::make_unsigned<T>::type U; const int Z = sizeof(T);
    std::vector<S> all{""}; for (size_t i = 0, e; (int) all[i].size() < maxlen; ++i) { for (char a : alphabet) all.push_back(all[i] + a); (void) e; }
    std::vector<std::pair<S, U>> vals; int c = 0;
    for (const S& s : all) {
        S pad = s.substr(0, Z); pad.resize(Z, 0); U want = 0; for (unsigned char x : pad) want = want * (Z > 1 ? 256 : 0) + x;
        char* h = (char*) malloc(s.size() ? s.size() : 1); memcpy(h, s.data(), s.size());       // exactly the string: make may look at nothing else
        U cmp = SL::make_comparable(h, s.size()); T raw = SL::make(h, s.size());
        vals.push_back(std::make_pair(pad, cmp));
        seq::begin_case(); CHECK(cmp == want, "the comparable slice of %s is %llx, not %llx", seq::hex(s).c_str(), (unsigned long long) cmp, (unsigned long long) want);
        CHECK(!memcmp(&raw, pad.data(), Z), "the slice of %s", seq::hex(s).c_str());
        if (c++ % n == shard) {
            for (int f : {0, 0xff, 97}) {
                char buf[120]; memset(buf, f, sizeof buf); char* q = buf + 20; memcpy(q, s.data(), s.size());
                CHECK((U) SL::make_comparable_sloppy(q, s.size()) == want && SL::make_sloppy(q, s.size()) == raw, "a sloppy slice of %s among %02x", seq::hex(s).c_str(), f);
            }
            for (int bl = 0; bl <= Z + 1; ++bl) {
                for (int l = -1; l <= Z + 1; ++l) {
                    S w; if (l < 0) { w = pad; while (!w.empty() && !w.back()) w.pop_back(); } else w = pad.substr(0, std::min(l, Z)); w = w.substr(0, bl);
                    char* o = (char*) malloc(bl ? bl : 1); int r = l < 0 ? SL::unparse_comparable(o, bl, cmp) : SL::unparse_comparable(o, bl, cmp, l);
                    CHECK(r == (int) w.size() && !memcmp(o, w.data(), r), "unparsing the slice of %s into %d bytes, length %d", seq::hex(s).c_str(), bl, l); free(o);
                }
            }
        }
        free(h);
    }
    std::sort(vals.begin(), vals.end());
    for (size_t i = 1; i < vals.size(); ++i) { bool same = vals[i - 1].first == vals[i].first; CHECK(same ? vals[i - 1].second == vals[i].second : vals[i - 1].second < vals[i].second, "the slices of %s and %s do not compare as the strings", seq::hex(vals[i - 1].first).c_str(), seq::hex(vals[i].first).c_str()); }
}
template <typename T> static void slice_equality(int shard, int n) {       // one difference at every place, inside and outside the length
    const int Z = sizeof(T); int c = 0;
    for (int len = 0; len <= 2 * Z + 2; ++len) for (int at = -Z; at < len + Z; ++at) for (int bit = 0; bit < 8; ++bit) for (int f : {0, 0xff, 0x80}) for (int side = 0; side < 2; ++side) {
        if (c++ % n != shard) continue;
        char a[80], b[80]; memset(a, f, 80); memset(b, f, 80); (side ? a : b)[30 + at] ^= 1 << bit; seq::begin_case();
        bool want = !(at >= 0 && at < len); CHECK(string_slice<T>::equals_sloppy(a + 30, b + 30, len) == want, "equals_sloppy of %d bytes differing at %d is %d", len, at, !want);
        for (int at2 = 0; at2 < len; ++at2) { (side ? b : a)[30 + at2] ^= 0x11; bool w2 = at2 == at && bit == 99; bool g = string_slice<T>::equals_sloppy(a + 30, b + 30, len); (side ? b : a)[30 + at2] ^= 0x11; if (g != w2 && !(memcmp(a + 30, b + 30, len) == 0)) CHECK(!g, "equals_sloppy of %d bytes differing at %d and %d", len, at, at2); }
    }
}

// ---- keys
template <typename I> static std::vector<S> key_strings(bool thorough) {
    const int Z = sizeof(I); std::vector<S> chunks, tails{""}, out;
    for (int last : {0, 1, 97, 0xff}) for (int fill : {0, 97, 0xff}) { S s(Z, char(fill)); s[Z - 1] = char(last); chunks.push_back(s); }
    for (int fill : {0, 97, 0xff}) for (int last : {0, 98, 0xff}) for (int l = 1; l <= Z; ++l) { S s(l, char(fill)); s[l - 1] = char(last); tails.push_back(s); }
    std::sort(tails.begin(), tails.end()); tails.erase(std::unique(tails.begin(), tails.end()), tails.end());
    std::vector<S> pre{""}; for (int d = 0; d <= (thorough ? 3 : 2); ++d) { std::vector<S> nx; for (auto& p : pre) { for (auto& t : tails) out.push_back(p + t); for (auto& c : chunks) nx.push_back(p + c); } pre.swap(nx); }
    return out;
}
static S ks(Str s) { return S(s.s, s.len); }
template <typename I> static int layered(Masstree::key<I> a, Masstree::key<I> b) { while (true) { int c = a.compare(b); if (c || !a.has_suffix()) return c; a.shift(); b.shift(); } }
template <typename I> static void keys(int shard, int n, bool thorough) {
    typedef Masstree::key<I> K; const int Z = sizeof(I); std::vector<S> all = key_strings<I>(thorough); int c = 0;
    auto want_ikey = [&](const S& s) { I v = 0; for (int i = 0; i < Z; ++i) v = v << 8 | (i < (int) s.size() ? (unsigned char) s[i] : 0); return v; };
    for (const S& s : all) {
        if (c++ % n != shard) continue;
        seq::begin_case(); seq::path(seq::hex(s)); int L = s.size();
        char* h = (char*) malloc(L ? L : 1); memcpy(h, s.data(), L); K k(h, L), k0((Str(h, L)));
        CHECK(k.compare(k0) == 0 && k.ikey() == k0.ikey() && k.length() == k0.length(), "two constructors differ");
        S rest = s; int depth = 0;
        while (true) {
            CHECK(k.ikey() == want_ikey(rest) && k.length() == (int) rest.size() && k.has_suffix() == ((int) rest.size() > Z) && k.empty() == rest.empty(), "at depth %d the key is %llx/%d", depth, (unsigned long long) k.ikey(), k.length());
            CHECK(k.is_shifted() == (depth > 0) && k.prefix_length() == Z * depth && ks(k.prefix_string()) == s.substr(0, Z * depth) && ks(k.full_string()) == s && ks((Str) k) == s, "at depth %d prefix or full string", depth);
            CHECK(k.compare(K(rest.data(), rest.size())) == 0, "at depth %d compare with the suffix's own key", depth);
            String u = k.unparse(); CHECK(S(u.data(), u.length()) == rest, "at depth %d it unparses as %s", depth, seq::hex(S(u.data(), u.length())).c_str());
            for (int dl = 0; dl <= (int) rest.size() + 1; ++dl) { char* o = (char*) malloc(dl ? dl : 1); int r = k.unparse(o, dl), m = std::min<int>(dl, rest.size()); CHECK(r == m && !memcmp(o, rest.data(), m), "unparse into %d bytes", dl); free(o); }
            { K z = k; z.unshift_all(); CHECK(z.ikey() == want_ikey(s) && z.length() == L && !z.is_shifted() && ks(z.full_string()) == s, "unshift_all at depth %d", depth); }
            if (!k.has_suffix()) break;
            CHECK(ks(k.suffix()) == rest.substr(Z) && k.suffix_length() == (int) rest.size() - Z, "suffix at depth %d", depth);
            k.shift(); rest = rest.substr(Z); ++depth;
        }
        if (depth) { K z = k; z.unshift(); CHECK(z.prefix_length() == Z * (depth - 1) && z.ikey() == want_ikey(s.substr(Z * (depth - 1), Z)) && z.length() == Z + 1, "unshift"); }
        if (L <= Z) {
            K e(want_ikey(s), L); CHECK(e.ikey() == want_ikey(s) && e.length() == L && !e.has_suffix() && e.compare(k0) == 0, "the key of an ikey and a length");
            S t = s; while (!t.empty() && !t.back()) t.pop_back(); K f(want_ikey(s)); CHECK(f.ikey() == want_ikey(s) && f.length() == (int) t.size(), "the key of an ikey is %d long, not %zu", f.length(), t.size());
            String u = K::unparse_ikey(want_ikey(s)); CHECK(S(u.data(), u.length()) == t, "unparse_ikey");
        } else {
            S sf = s; K e(want_ikey(s), Str(sf.data() + Z, sf.size() - Z)); CHECK(e.ikey() == want_ikey(s) && e.length() == L && ks(e.suffix()) == s.substr(Z) && e.compare(k0) == 0, "the key of an ikey and a suffix");
        }
        // the scan's use: a key over a buffer, moved to another string of the same layer, or of the next
        for (int j = 0; j < 40 && j < (int) all.size(); ++j) {
            const S& t = all[(size_t) j * 7919 % all.size()]; char buf[400]; memset(buf, 'z', sizeof buf); memcpy(buf, s.data(), L); K q(buf, L);
            for (int d = 0; d < depth && q.has_suffix(); ++d) q.shift();
            S head = s.substr(0, q.prefix_length()); q.assign_store_ikey(want_ikey(t)); int l = t.size();
            if (l > Z) { int r = q.assign_store_suffix(Str(t.data() + Z, l - Z)); CHECK(r == l, "assign_store_suffix returned %d", r); }
            q.assign_store_length(l); CHECK(ks(q.full_string()) == head + t && q.ikey() == want_ikey(t) && q.length() == l, "a stored key reads %s", seq::hex(ks(q.full_string())).c_str());
            K up = q; up.shift_clear(); CHECK(up.ikey() == 0 && up.length() == 0 && up.prefix_length() == q.prefix_length() + Z, "shift_clear");
            K dn = q; dn.shift_clear_reverse(); CHECK(dn.ikey() == (I) ~I(0) && dn.length() > Z && dn.prefix_length() == q.prefix_length() + Z, "shift_clear_reverse");
        }
        // increment: nothing lies between a key's last position and its increment's
        { K q(h, L); bool wrapped = q.increment(); if (!wrapped) { CHECK(q.compare(k0) > 0, "increment does not increase"); for (size_t j = 0; j < all.size(); j += thorough ? 1 : 5) { K o(all[j].data(), all[j].size()); if (o.compare(k0) > 0) CHECK(o.compare(q) >= 0, "increment passes over %s", seq::hex(all[j]).c_str()); else CHECK(o.compare(q) < 0, "increment stays at %s", seq::hex(all[j]).c_str()); } } else CHECK(L > Z && want_ikey(s) == (I) ~I(0), "increment says it wrapped"); }
        for (size_t j = 0; j < all.size(); j += thorough ? 1 : 3) {
            const S& t = all[j]; K o(t.data(), t.size()); int w = s.compare(t), g = layered(k0, o); CHECK((w < 0) == (g < 0) && (w > 0) == (g > 0), "it compares as %d with %s", g, seq::hex(t).c_str());
            int cc = k0.compare(o.ikey(), o.length()); CHECK(cc == k0.compare(o) || (cc < 0) == (k0.compare(o) < 0), "the two compares differ on %s", seq::hex(t).c_str());
        }
        free(h);
        if (seq::out_of_time()) return;
    }
}

// ---- string bags in exactly their capacity
template <typename T> struct Bags {
    typedef stringbag<T> B; int W; size_t cap; std::vector<int> lens; int depth;
    struct St { char* mem; std::vector<S> m; };
    S fill(int p, int l, int d) { S s; for (int i = 0; i < l; ++i) s += char('a' + (p * 31 + d * 7 + i) % 26); return s; }
    const char* good(B* b, const St& st) {
        if (b->capacity() != cap) return "capacity changed"; if (b->used_capacity() > cap || b->used_capacity() < B::overhead(W)) return "used capacity out of range";
        for (int p = 0; p < W; ++p) {
            Str g = b->get(p), g2 = (*b)[p]; if (g.len != (int) st.m[p].size() || memcmp(g.s, st.m[p].data(), g.len) || g2.len != g.len || g2.s != g.s) return "a string is lost";
            if (g.len && (g.s < (char*) b + B::overhead(W) || g.s + g.len > (char*) b + cap)) return "a string lies outside";
            for (int q = 0; q < p; ++q) { Str h = b->get(q); if (h.len && g.len && h.s < g.s + g.len && g.s < h.s + h.len) return "two strings overlap"; }
            char z[1024]; memset(z, 7, sizeof z); memcpy(z + 20, st.m[p].data(), g.len); if (!string_slice<uintptr_t>::equals_sloppy(g.s, z + 20, g.len)) return "equals_sloppy";
        }
        return nullptr;
    }
    void go(const St& st, int d, S trail) {
        if (d == depth || seq::out_of_time()) return;
        for (int p = 0; p < W; ++p) for (int l : lens) {
            St n; n.mem = (char*) malloc(cap); memcpy(n.mem, st.mem, cap); n.m = st.m; B* b = (B*) n.mem; S s = fill(p, l, d);
            seq::begin_case(); char t[60]; snprintf(t, sizeof t, " %d=%d", p, l); seq::path(trail + t); size_t used = b->used_capacity();
            char* src = (char*) malloc(l ? l : 1); memcpy(src, s.data(), l);
            bool ok = d & 1 ? b->assign(p, Str(src, l)) : b->assign(p, src, l); free(src);
            if (ok) n.m[p] = s;
            const char* e = good(b, n); if (e) seq::fail(seq::msg("capacity %zu width %d: %s after assign(%d, %d bytes) %s", cap, W, e, p, l, ok ? "succeeded" : "failed"));
            if (!ok) { if (b->used_capacity() != used) seq::fail("a failed assign used capacity"); if (used + std::max<size_t>(l, sizeof(uintptr_t)) < cap) seq::fail("assign failed with room to spare"); if (l <= (int) st.m[p].size()) seq::fail("assign failed where the string before was as long"); }
            if (!e) go(n, d + 1, trail + t);
            free(n.mem);
        }
    }
    void run() { St st; st.mem = (char*) malloc(cap); memset(st.mem, 0x5a, cap); new ((void*) st.mem) B(W, cap); st.m.resize(W); const char* e = good((B*) st.mem, st); if (e) seq::fail(e); char t[60]; snprintf(t, sizeof t, "width %d capacity %zu:", W, cap); go(st, 0, t); free(st.mem); }
};
template <typename T> static void bags(int shard, int n, bool thorough) {
    int c = 0; size_t top = std::min<size_t>(stringbag<T>::max_size(), 700);
    for (int W : {1, 2, 3}) for (size_t extra = sizeof(uintptr_t); extra <= 40; extra += 1) { size_t cap = stringbag<T>::overhead(W) + extra; if (cap <= top && c++ % n == shard) { Bags<T> b{W, cap, {0, 1, 5, 7, 8, 9, 13}, W == 1 ? 5 : thorough ? 5 : 3}; b.run(); } }
    for (int W : {2, 15}) for (size_t cap = top - 20; cap <= top; ++cap) if (c++ % n == shard) { Bags<T> b{W, cap, {1, 8, 60, 100}, W == 2 ? 6 : 2}; b.run(); }
    for (int W : {1, 2}) if (c++ % n == shard) { int r = top - stringbag<T>::overhead(W); Bags<T> b{W, top, {0, 3, r - 8, r - 1, r}, 4}; b.run(); }
    // the documented capacity is enough for every way to spread the bytes
    for (int W = 1; W <= 4; ++W) for (unsigned total = 0; total <= 24; ++total) {
        std::vector<int> len(W, 0);
        std::function<void(int, int)> f = [&](int p, int left) {
            if (p == W - 1) {
                len[p] = left; size_t cap = stringbag<T>::safe_size(W, total); if (cap > top || c++ % n != shard) return;
                for (int rev = 0; rev < 2; ++rev) { char* mem = (char*) malloc(cap); auto* b = new ((void*) mem) stringbag<T>(W, cap); seq::begin_case(); for (int i = 0; i < W; ++i) { int q = rev ? W - 1 - i : i; S s(len[q], char('a' + q)); CHECK(b->assign(q, s.data(), s.size()), "no room for string %d of %d bytes in a bag of safe_size(%d, %u)", q, len[q], W, total); } for (int i = 0; i < W; ++i) CHECK(ks(b->get(i)) == S(len[i], char('a' + i)), "a string is lost"); free(mem); }
            } else for (int l = 0; l <= left; ++l) { len[p] = l; f(p + 1, left - l); }
        };
        f(0, total);
    }
}

// ---- version words
template <typename V> static void versions(int shard, int n) {
    typedef nodeversion_parameters<V> P; typedef nodeversion<P> N; int c = 0;
    const V insmask = P::vsplit_lowbit - P::vinsert_lowbit, splmask = P::unused1_bit - P::vsplit_lowbit;
    auto mk = [](V v) { N x; memcpy((void*) &x, &v, sizeof v); return x; };
    std::vector<V> ins{0, P::vinsert_lowbit, insmask - P::vinsert_lowbit, insmask}, spl{0, P::vsplit_lowbit, splmask - P::vsplit_lowbit, splmask};
    for (V i : ins) for (V s : spl) for (int fl = 0; fl < 8; ++fl) {
        if (c++ % n != shard) continue;
        V v0 = i | s | (fl & 1 ? P::isleaf_bit : 0) | (fl & 2 ? P::root_bit : 0) | (fl & 4 ? P::deleted_bit : 0); char nm[40]; snprintf(nm, sizeof nm, "%llx", (unsigned long long) v0);
        for (int op = 0; op < 160; ++op) {         // lock in one of four ways, any of mark_insert, mark_split, mark_change, mark_deleted, mark_deleted_tree, then unlock in one of two
            int how = op % 4, un = op / 4 % 2, mark = op / 8; N x = mk(v0); const N before = x; seq::begin_case(); seq::path(S(nm) + " op " + std::to_string(op));
            CHECK(!x.locked() && !x.inserting() && !x.splitting() && x.isleaf() == !!(fl & 1) && x.is_root() == !!(fl & 2) && x.deleted() == !!(fl & 4), "a version reads wrong");
            CHECK(!x.has_changed(before) && !x.has_split(before) && !x.simple_has_split(before) && x.stable().version_value() == v0, "a version differs from itself");
            N l = before; if (how == 0) l = x.lock(); else if (how == 1) l = x.lock(before); else if (how == 2) { CHECK(x.try_lock(), "try_lock failed"); l = x; } else l = x.lock(mk(v0 ^ P::vinsert_lowbit));     // the last after the version moved on
            CHECK(x.locked() && l.locked() && l.version_value() == x.version_value() && !x.try_lock(do_nothing()), "locking");
            CHECK(!x.has_changed(before) && !x.has_split(before) && x.unlocked_version_value() == before.unlocked_version_value() && !(x.stable().has_changed(before)), "locking alone counts as a change");
            bool mi = false, ms = false, md = false; const char* what = "nothing";
            switch (mark) {
            case 0: break;
            case 1: x.mark_insert(); mi = true; what = "mark_insert"; break;
            case 2: l = x.mark_insert(l); CHECK(l.version_value() == x.version_value(), "mark_insert returns another version"); mi = true; what = "mark_insert(version)"; break;
            case 3: x.mark_split(); ms = true; what = "mark_split"; break;
            case 4: x.mark_change(false); mi = true; what = "mark_change(false)"; break;
            case 5: x.mark_change(true); ms = true; what = "mark_change(true)"; break;
            case 6: x.mark_insert(); x.mark_split(); mi = ms = true; what = "mark_insert, mark_split"; break;
            case 7: l = x.mark_deleted(); CHECK(l.version_value() == x.version_value(), "mark_deleted returns another version"); ms = md = true; what = "mark_deleted"; break;
            case 8: if (!(fl & 2)) break; x.mark_deleted_tree(); md = true; what = "mark_deleted_tree"; break;
            case 9: x.mark_nonroot(); what = "mark_nonroot"; break;
            case 10: x.mark_root(); what = "mark_root"; break;
            case 11: x.mark_insert(); x.mark_deleted(); mi = ms = md = true; what = "mark_insert, mark_deleted"; break;
            case 12: if (!(fl & 2)) break; x.mark_insert(); x.mark_deleted_tree(); mi = md = true; what = "mark_insert, mark_deleted_tree"; break;
            case 13: x.mark_split(); x.mark_nonroot(); ms = true; what = "mark_split, mark_nonroot"; break;
            case 14: x.mark_insert(); x.mark_nonroot(); mi = true; what = "mark_insert, mark_nonroot"; break;
            default: continue;
            }
            CHECK(x.locked() && x.inserting() == mi && x.splitting() == ms && x.isleaf() == !!(fl & 1) && x.deleted() == (!!(fl & 4) || md), "marks after %s", what);
            if (mi || ms) CHECK(x.has_changed(before), "a change under way after %s does not show", what);
            if (mi || ms) { V d = x.version_value(); CHECK(d & P::dirty_mask, "not dirty after %s", what); }
            bool root = mark == 10 ? true : mark == 9 || mark == 13 || mark == 14 ? false : !!(fl & 2);
            CHECK(x.is_root() == root, "root after %s", what);
            if (un) x.unlock(x); else x.unlock();
            CHECK(!x.locked() && !x.inserting() && !x.splitting() && x.isleaf() == !!(fl & 1) && x.deleted() == (!!(fl & 4) || md), "unlocking after %s leaves %llx", what, (unsigned long long) x.version_value());
            CHECK(x.is_root() == (root && !ms), "root after %s and unlock", what);
            if (mi || ms) CHECK(x.has_changed(before), "%s and unlock do not count as a change", what);
            if (ms) CHECK(x.has_split(before) && x.simple_has_split(before), "%s and unlock do not count as a split", what);
            if (!mi && !ms && mark != 8 && mark != 9 && mark != 10) CHECK(!x.has_changed(before), "locking and unlocking counts as a change");
            if (mi && !ms && !md && mark != 14 && i != insmask) CHECK(!x.has_split(before), "an insert counts as a split");
            CHECK(x.stable().version_value() == x.version_value() && x.unlocked_version_value() == x.version_value(), "an unlocked version is not stable");
        }
    }
    if (shard == 0) {       // no number of inserts up to a full turn, and no number of splits, leads back
        N x = mk(P::isleaf_bit | P::root_bit); const N b = x; long turn = (long) (insmask / P::vinsert_lowbit) + 1, splits = (long) (splmask / P::vsplit_lowbit); if (splits > 600000) splits = 600000;
        for (long k = 1; k <= 3 * turn; ++k) { seq::begin_case(); x.lock(); x.mark_insert(); x.unlock(); CHECK(x.has_changed(b), "%ld inserts lead back to the version before", k); if (k < turn) CHECK(!x.has_split(b), "%ld inserts count as a split", k); CHECK(x.is_root() && x.isleaf() && !x.deleted(), "%ld inserts change flags", k); }
        x = b; for (long k = 1; k <= splits; ++k) { if (k % 64 == 1) seq::begin_case(); x.lock(); if (k % 3 == 0) x.mark_insert(); x.mark_split(); x.unlock(); CHECK(x.has_split(b) && x.has_changed(b), "%ld splits do not count", k); CHECK(x.isleaf() && !x.deleted() && !x.is_root(), "%ld splits change flags", k); }
        N nl(true), ni(false); CHECK(nl.isleaf() && !ni.isleaf() && !nl.locked() && !ni.is_root() && !nl.deleted(), "a new version"); ni.assign_version(nl); CHECK(ni.version_value() == nl.version_value(), "assign_version");
        typedef singlethreaded_nodeversion<P> SN; SN s(true); CHECK(s.isleaf() && !s.is_root() && s.try_lock() && !s.locked(), "a single-threaded version"); s.mark_root(); CHECK(s.is_root(), "mark_root"); SN o = s; s.mark_change(false); CHECK(s.is_root() && !s.has_changed(o), "mark_change(false)"); s.mark_change(true); CHECK(!s.is_root() && s.isleaf(), "mark_change(true)"); s.mark_root(); s.mark_nonroot(); CHECK(!s.is_root() && !s.deleted(), "mark_nonroot");
    }
}

// ---- small vectors of things that must be built and destroyed exactly once
struct Tok { static long* livep; int* p; Tok(int v = -1) : p(new int(v)) { ++*livep; } Tok(const Tok& o) : p(new int(*o.p)) { ++*livep; } Tok(Tok&& o) : p(o.p) { o.p = new int(-99); ++*livep; } Tok& operator=(const Tok& o) { if (this != &o) *p = *o.p; return *this; } Tok& operator=(Tok&& o) { std::swap(p, o.p); return *this; } ~Tok() { delete p; p = (int*) 16; --*livep; } };
long* Tok::livep;
template <unsigned N> struct Vec : seq::System {
    typedef small_vector<Tok, N> V; V* v[2]; std::vector<int> m[2]; int next; long live; std::vector<std::pair<S, std::function<bool(bool)>>> ops;
    static bool same(const V& a, const std::vector<int>& b) {
        if (a.size() != b.size() || a.empty() != b.empty() || !a != b.empty() || (bool) (typename V::unspecified_bool_type) a == b.empty() || a.capacity() < a.size() || a.capacity() < N) return false;
        for (size_t i = 0; i < b.size(); ++i) if (*a[i].p != b[i]) return false;
        size_t i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) if (i >= b.size() || *it->p != b[i]) return false; if (i != b.size()) return false;
        for (auto it = a.rbegin(); it != a.rend(); ++it) if (*it->p != b[--i]) return false;
        return b.empty() || (*a.front().p == b.front() && *a.back().p == b.back());
    }
    Vec() {
        auto add = [&](const char* n, std::function<bool(bool)> f) { ops.push_back({n, f}); };
        for (int x = 0; x < 2; ++x) {
            auto nm = [&](const char* s) { static char b[60]; snprintf(b, sizeof b, "%c.%s", 'A' + x, s); return b; };
            add(nm("push_back(copy)"), [=](bool go) { if (go) { Tok t(next); v[x]->push_back(t); m[x].push_back(next++); } return true; });
            add(nm("push_back(move)"), [=](bool go) { if (go) { v[x]->push_back(Tok(next)); m[x].push_back(next++); } return true; });
            add(nm("emplace_back"), [=](bool go) { if (go) { v[x]->emplace_back(next); m[x].push_back(next++); } return true; });
            add(nm("push_back(front())"), [=](bool go) { if (m[x].empty()) return false; if (go) { v[x]->push_back(v[x]->front()); m[x].push_back(m[x].front()); } return true; });
            add(nm("emplace_back(back())"), [=](bool go) { if (m[x].empty()) return false; if (go) { v[x]->emplace_back(v[x]->back()); m[x].push_back(m[x].back()); } return true; });
            add(nm("pop_back"), [=](bool go) { if (m[x].empty()) return false; if (go) { v[x]->pop_back(); m[x].pop_back(); } return true; });
            add(nm("clear"), [=](bool go) { if (m[x].empty()) return false; if (go) { v[x]->clear(); m[x].clear(); } return true; });
            for (int n : {0, 1, 2, 3, 5, 9}) add(nm(("resize " + std::to_string(n)).c_str()), [=](bool go) { if (go) { Tok t(next); v[x]->resize(n, t); m[x].resize(n, next++); } return true; });
            add(nm("resize(size+1, front)"), [=](bool go) { if (m[x].empty()) return false; if (go) { v[x]->resize(m[x].size() + 1, v[x]->front()); int f = m[x].front(); m[x].resize(m[x].size() + 1, f); } return true; });
            for (int i = 0; i < 3; ++i) add(nm(("erase " + std::to_string(i)).c_str()), [=](bool go) { if ((int) m[x].size() <= i) return false; if (go) { auto r = v[x]->erase(v[x]->begin() + i); m[x].erase(m[x].begin() + i); if (r != v[x]->begin() + i) bad = 1; } return true; });
            for (int i = 0; i < 3; ++i) for (int j = i; j < 4; ++j) if (j != i + 1) add(nm(("erase " + std::to_string(i) + ".." + std::to_string(j)).c_str()), [=](bool go) { if ((int) m[x].size() < j) return false; if (go) { auto r = v[x]->erase(v[x]->begin() + i, v[x]->begin() + j); m[x].erase(m[x].begin() + i, m[x].begin() + j); if (r != v[x]->begin() + i) bad = 1; } return true; });
            add(nm("= other"), [=](bool go) { if (go) { *v[x] = *v[!x]; m[x] = m[!x]; } return true; });
            add(nm("= itself"), [=](bool go) { if (go) { V& r = *v[x]; *v[x] = r; } return true; });
            add(nm("replaced by a copy of other"), [=](bool go) { if (go) { V* c = new V(*v[!x]); delete v[x]; v[x] = c; m[x] = m[!x]; } return true; });
            add(nm("[last] = new"), [=](bool go) { if (m[x].empty()) return false; if (go) { (*v[x])[m[x].size() - 1] = Tok(next); m[x].back() = next++; } return true; });
        }
    }
    void setup() override { live = 0; Tok::livep = &live; v[0] = new V; v[1] = new V; m[0].clear(); m[1].clear(); next = 1; bad = 0; }
    int nops() const override { return ops.size(); }
    bool enabled(int o) override { return ops[o].second(false); }
    const char* step(int o) override { ops[o].second(true); return bad ? "erase returned the wrong place" : nullptr; }
    const char* check() override { if (!same(*v[0], m[0]) || !same(*v[1], m[1])) return "a vector's contents are wrong"; if (live != (long) (m[0].size() + m[1].size())) return "elements were not built and destroyed once each"; return nullptr; }
    const char* finish() override { delete v[0]; delete v[1]; return live ? "elements outlive their vectors" : nullptr; }
    S opname(int o) const override { return ops[o].first; }
};

// ---- wrapping integers: every pair of 8-bit values, and every 16-bit value against steps
template <typename T, typename U, typename D> static void circular_pair(U a, U b, bool order) {
    typedef circular_int<T> C; C x(a), y(b); U d = U(a - b); const U half = U(U(1) << (sizeof(U) * 8 - 1)); seq::begin_case();
    CHECK(x.value() == a && (x == y) == (a == b) && (x != y) == (a != b) && !x == (a == 0) && (bool) (typename C::unspecified_bool_type) x == (a != 0), "%llu: value or equality", (unsigned long long) a);
    CHECK((x - y) == (D) d && (x + (unsigned) b).value() == U(a + b) && (x - (unsigned) b).value() == U(a - b) && (x + (int) (D) b).value() == U(a + b) && (x - (int) (D) b).value() == U(a - b), "%llu and %llu: sum or difference", (unsigned long long) a, (unsigned long long) b);
    { C z = x; z += (unsigned) b; CHECK(z.value() == U(a + b), "+="); z -= (unsigned) b; CHECK(z.value() == a, "-="); z += (int) (D) b; CHECK(z.value() == U(a + b), "+= int"); z -= (int) (D) b; CHECK(z.value() == a, "-= int"); }
    if (order && d != half) { bool lt = d > half, eq = d == 0; CHECK((x < y) == lt && (x <= y) == (lt || eq) && (x > y) == (!lt && !eq) && (x >= y) == !lt && C::less(a, b) == lt && C::less_equal(a, b) == (lt || eq), "%llu and %llu compare wrongly", (unsigned long long) a, (unsigned long long) b); }
    { C z = x; C r = z.cmpxchg(y, C(U(b + 1))); CHECK(r.value() == a && z.value() == (a == b ? U(b + 1) : a), "cmpxchg of %llu", (unsigned long long) a); z = x; r = ::cmpxchg(&z, y, C(U(a ^ 3))); CHECK(r.value() == a && z.value() == (a == b ? U(a ^ 3) : a), "::cmpxchg of %llu", (unsigned long long) a); }
}
template <typename T, typename U> static void circular_one(U a) {
    typedef circular_int<T> C; C x(a); U nz = U(a + 1) ? U(a + 1) : 1; seq::begin_case(); CHECK(x.next_nonzero().value() == nz && C::next_nonzero(a) == nz, "the next nonzero after %llu", (unsigned long long) a);
    { C z = x; C r = z++; CHECK(r.value() == a && z.value() == U(a + 1), "x++ at %llu", (unsigned long long) a); r = z--; CHECK(r.value() == U(a + 1) && z.value() == a, "x-- at %llu", (unsigned long long) a); CHECK((++z).value() == U(a + 1) && (--z).value() == a, "++x at %llu", (unsigned long long) a); }
}
static void circulars() {
    for (int a = 0; a < 256; ++a) { circular_one<uint8_t, uint8_t>(a); circular_one<int8_t, uint8_t>(a); for (int b = 0; b < 256; ++b) { circular_pair<uint8_t, uint8_t, int8_t>(a, b, true); circular_pair<int8_t, uint8_t, int8_t>(a, b, true); } }
    for (int a = 0; a < 65536; ++a) { circular_one<uint16_t, uint16_t>(a); for (int b : {0, 1, 2, 255, 256, 32766, 32767, 32769, 65534, 65535}) { circular_pair<uint16_t, uint16_t, int16_t>(a, a + b, true); circular_pair<uint16_t, uint16_t, int16_t>(a, b, true); } }
    std::vector<uint64_t> e; for (int s = 0; s < 64; ++s) for (int k = -2; k <= 2; ++k) e.push_back((uint64_t(1) << s) + k);
    for (uint64_t a : e) { circular_one<uint64_t, uint64_t>(a); circular_one<uint32_t, uint32_t>(a); for (uint64_t b : e) {
        circular_pair<uint32_t, uint32_t, int32_t>(a, b, true);
        circular_int<uint64_t> x(a), y(b); uint64_t d = a - b; seq::begin_case(); CHECK((x - y) == (int64_t) d, "a 64-bit difference"); if (d != uint64_t(1) << 63) CHECK((x < y) == (d >> 63) && (x <= y) == ((d >> 63) || !d) && (x > y) == (!(d >> 63) && d) && (x >= y) == !(d >> 63), "%llx and %llx compare wrongly", (unsigned long long) a, (unsigned long long) b);
        CHECK((x + (unsigned) b).value() == a + (unsigned) b && (x - (unsigned) b).value() == a - (unsigned) b && (x + (int) b).value() == a + (int64_t) (int) b && (x - (int) b).value() == a - (int64_t) (int) b, "64-bit steps");
    } }
}

// ---- bits and byte order
template <typename T> static void bits_of(T x) {
    typedef typename mass::make_unsigned<T>::type U; U u = x; const int B = sizeof(T) * 8; seq::begin_case(); int lead = 0, trail = 0;
    if (u) { while (!(u >> (B - 1 - lead) & 1)) ++lead; while (!(u >> trail & 1)) ++trail; CHECK(clz(x) == lead && ctz(x) == trail, "clz or ctz of %llx", (unsigned long long) u); }
    int nib = -1; for (int i = B / 4 - 1; i >= 0; --i) if (!(u >> (4 * i) & 15)) nib = i;
    CHECK(find_lowest_zero_nibble(u) == nib, "the lowest zero nibble of %llx is %d, not %d", (unsigned long long) u, find_lowest_zero_nibble(u), nib);
    CHECK(ffs_msb(u) == (u ? lead + 1 : 0), "ffs_msb of %llx", (unsigned long long) u);
    if (u) { CHECK(ifloor_log2(u) == U(U(1) << (B - 1 - lead)), "ifloor_log2 of %llx", (unsigned long long) u); if (u <= U(U(1) << (B - 1))) { U w = U(1) << (B - 1 - lead); if (w != u) w <<= 1; CHECK(iceil_log2(u) == w, "iceil_log2 of %llx is %llx", (unsigned long long) u, (unsigned long long) iceil_log2(u)); } }
}
template <typename T> static void order_of(T x) {
    unsigned char raw[sizeof(T)], net[sizeof(T)]; memcpy(raw, &x, sizeof x); for (size_t i = 0; i < sizeof x; ++i) net[i] = raw[sizeof x - 1 - i]; seq::begin_case();
    T h = host_to_net_order(x); CHECK(!memcmp(&h, net, sizeof h), "host_to_net_order of %zu bytes %s", sizeof x, seq::hex(S((char*) raw, sizeof x)).c_str());
    T k = net_to_host_order(h); CHECK(!memcmp(&k, raw, sizeof k), "net_to_host_order of %zu bytes %s", sizeof x, seq::hex(S((char*) net, sizeof x)).c_str());
    for (int al = 0; al < (int) sizeof(T) + 1; al += sizeof(T) > 2 ? 3 : 1) for (int u = 0; u < 2; ++u) {
        char b[40]; memset(b, 0x77, sizeof b); char* s = b + 8 + al; char* e = u ? (char*) write_in_net_order<T>((uint8_t*) s, x) : write_in_net_order<T>(s, x);
        CHECK(e == s + sizeof(T) && !memcmp(s, net, sizeof(T)) && s[-1] == 0x77 && *e == 0x77, "write_in_net_order of %zu bytes %s writes %s", sizeof x, seq::hex(S((char*) raw, sizeof x)).c_str(), seq::hex(S(s, sizeof x)).c_str());
        T r = u ? read_in_net_order<T>((const uint8_t*) s) : read_in_net_order<T>((const char*) s); CHECK(!memcmp(&r, raw, sizeof r), "read_in_net_order of %zu bytes %s", sizeof x, seq::hex(S((char*) net, sizeof x)).c_str());
        e = u ? (char*) write_in_host_order<T>((uint8_t*) s, x) : write_in_host_order<T>(s, x); r = u ? read_in_host_order<T>((const uint8_t*) s) : read_in_host_order<T>((const char*) s);
        CHECK(e == s + sizeof(T) && !memcmp(s, raw, sizeof(T)) && s[-1] == 0x77 && *e == 0x77 && !memcmp(&r, raw, sizeof r), "host order of %zu bytes", sizeof x);
    }
}
template <typename F, typename U> static F as(U u) { F f; memcpy(&f, &u, sizeof f); return f; }
static void bit_functions(int shard, int n) {
    std::vector<uint64_t> val; for (int s = 0; s < 64; s += 4) for (int k = 0; k < 256; ++k) { val.push_back(uint64_t(k) << s); val.push_back(~(uint64_t(k) << s)); val.push_back(0x1111111111111111ULL * (k & 15) ^ (uint64_t(k) << s)); }
    for (int s = 0; s < 64; ++s) for (int t = 0; t < 64; ++t) { val.push_back((uint64_t(1) << s) | (uint64_t(1) << t)); val.push_back((uint64_t(1) << s) - (uint64_t(1) << t)); val.push_back(0x123456789abcdef1ULL << s >> t); }
    for (size_t i = shard; i < val.size(); i += n) { uint64_t v = val[i]; bits_of<unsigned>(v); bits_of<unsigned long>(v); bits_of<unsigned long long>(v); order_of<unsigned long>(v); order_of<long>(v); order_of<long long>(v); order_of<unsigned long long>(v); order_of<unsigned>(v); order_of<int>(v); order_of<double>(as<double>(v)); order_of<float>(as<float>((uint32_t) v)); order_of<float>(as<float>((uint32_t) (v >> 32))); CHECK(htonq(v) == __builtin_bswap64(v) && ntohq(v) == __builtin_bswap64(v), "htonq"); }
    for (unsigned v = shard; v < 65536; v += n) { order_of<unsigned short>(v); order_of<short>(v); bits_of<unsigned>(v); bits_of<unsigned>(v << 16); if (v < 256) { order_of<unsigned char>(v); order_of<signed char>(v); order_of<char>(v); } for (unsigned y : {1u, 2u, 3u, 8u, 10u, 64u, 4096u}) CHECK(iceil(v, y) == (v + y - 1) / y * y, "iceil(%u, %u)", v, y); for (unsigned y : {0u, v, v + 1, v - 1, 40000u}) { CHECK(compare(v, y) == (v < y ? -1 : v > y), "compare"); CHECK(compare((short) v, (short) y) == ((short) v < (short) y ? -1 : (short) v > (short) y), "compare"); } }
}

// ---- atomic functions, one at a time: the result, and nothing else touched
template <typename T> struct Cell { unsigned char a[8]; T x; unsigned char b[8]; Cell(T v) : x(v) { memset(a, 0x5c, 8); memset(b, 0x5c, 8); } bool clean() const { for (int i = 0; i < 8; ++i) if (a[i] != 0x5c || b[i] != 0x5c) return false; return true; } } __attribute__((aligned(16)));
template <typename T> static __attribute__((noinline)) T do_xchg(T* p, T v) { return xchg(p, v); }
template <typename T> static __attribute__((noinline)) T do_cmpxchg(T* p, T e, T v) { return cmpxchg(p, e, v); }
template <typename T> static __attribute__((noinline)) bool do_bool_cmpxchg(T* p, T e, T v) { return bool_cmpxchg(p, e, v); }
template <typename T> static __attribute__((noinline)) T do_add(T* p, T v) { return fetch_and_add(p, v); }
template <typename T> static __attribute__((noinline)) void do_or(T* p, T v) { atomic_or(p, v); }
template <typename T> static void atomics_of(const std::vector<uint64_t>& val, const char* name) {
    for (uint64_t a : val) for (uint64_t b : val) {
        T x = T(a), y = T(b); seq::begin_case(); seq::path(S(name) + " " + seq::hex(S((char*) &x, sizeof x)) + " " + seq::hex(S((char*) &y, sizeof y)));
        { Cell<T> c(x); T r = do_xchg(&c.x, y); CHECK(r == x && c.x == y && c.clean(), "xchg"); }
        { Cell<T> c(x); T r = do_add(&c.x, y); CHECK(r == x && c.x == T(x + y) && c.clean(), "fetch_and_add"); }
        { Cell<T> c(x); do_or(&c.x, y); CHECK(c.x == T(x | y) && c.clean(), "atomic_or leaves %llx", (unsigned long long) c.x); }
        for (uint64_t e : {b, a, a + 1, uint64_t(0)}) { T ex = T(e); bool hit = ex == x; { Cell<T> c(x); T r = do_cmpxchg(&c.x, ex, y); CHECK(r == x && c.x == (hit ? y : x) && c.clean(), "cmpxchg"); } { Cell<T> c(x); bool r = do_bool_cmpxchg(&c.x, ex, y); CHECK(r == hit && c.x == (hit ? y : x) && c.clean(), "bool_cmpxchg"); } }
    }
    { Cell<T> c(0); test_and_set_acquire(&c.x); CHECK(c.x == 1 && c.clean(), "test_and_set_acquire"); test_and_set_release(&c.x); CHECK(c.x == 0 && c.clean(), "test_and_set_release"); }
}
static void atomics() {
    std::vector<uint64_t> small; for (int i = 0; i < 256; ++i) small.push_back(i);
    atomics_of<char>(small, "char"); atomics_of<unsigned char>(small, "unsigned char"); atomics_of<signed char>(small, "signed char");
    std::vector<uint64_t> v; for (int s = 0; s < 64; ++s) for (int k = -1; k <= 1; ++k) v.push_back((uint64_t(1) << s) + k);
    atomics_of<short>(v, "short"); atomics_of<unsigned short>(v, "unsigned short"); atomics_of<int>(v, "int"); atomics_of<unsigned>(v, "unsigned"); atomics_of<long>(v, "long"); atomics_of<unsigned long>(v, "unsigned long"); atomics_of<long long>(v, "long long"); atomics_of<unsigned long long>(v, "unsigned long long");
    for (long a : {0, 3, 100}) for (int d : {-3, 0, 1, 7}) { static int arr[300]; Cell<int*> c(arr + 50 + a); int* r = fetch_and_add(&c.x, d); CHECK(r == arr + 50 + a && c.x == arr + 50 + a + d && c.clean(), "fetch_and_add on a pointer"); int* q = xchg(&c.x, arr); CHECK(q == arr + 50 + a + d && c.x == arr, "xchg on a pointer"); q = cmpxchg(&c.x, arr, arr + 9); CHECK(q == arr && c.x == arr + 9, "cmpxchg on a pointer"); CHECK(!bool_cmpxchg(&c.x, arr, arr + 2) && c.x == arr + 9 && c.clean(), "bool_cmpxchg on a pointer"); }
}

int main(int argc, char** argv) {
    bool thorough = false; for (int i = 1; i < argc; ++i) if (S(argv[i]) == "--thorough") thorough = true;
    std::vector<seq::Scenario> sc;
    auto add = [&](const S& n, int shards, std::function<void()> f) { seq::Scenario s; s.name = n; s.depth = 0; s.run = f; s.shards = shards; sc.push_back(s); };
#define RUN seq::seq_shard, seq::seq_nshards
#define PERM(W) add("permuter/" #W, 16, [=] { Perm<W>::run(RUN, thorough); })
    PERM(1); PERM(2); PERM(3); PERM(4); PERM(5); PERM(6); PERM(7); PERM(8); PERM(9); PERM(10); PERM(11); PERM(12); PERM(13); PERM(14); PERM(15);
    add("search", 8, [=] { searches(RUN); });
    S a5("\0\1a\x80\xff", 5), a3("\0a\xff", 3), a2("\0\xff", 2);
    add("slice/1", 1, [=] { S e; for (int i = 0; i < 256; ++i) e += char(i); slices<uint8_t>(RUN, 2, e); });
    add("slice/2", 4, [=] { slices<uint16_t>(RUN, thorough ? 5 : 4, S("\0\1\x7f" "a\x80\xfe\xff", 7)); });
    add("slice/4", 8, [=] { slices<uint32_t>(RUN, thorough ? 7 : 6, a5); });
    add("slice/8", 16, [=] { slices<uint64_t>(RUN, thorough ? 11 : 9, a3); slices<unsigned long>(RUN, 10, a2); });
    add("slice equality", 8, [=] { slice_equality<uint8_t>(RUN); slice_equality<uint16_t>(RUN); slice_equality<uint32_t>(RUN); slice_equality<uint64_t>(RUN); });
    add("key/8", 64, [=] { keys<uint64_t>(RUN, thorough); });
    add("key/4", 64, [=] { keys<uint32_t>(RUN, thorough); });
    add("bag/8", 32, [=] { bags<uint8_t>(RUN, thorough); });
    add("bag/16", 32, [=] { bags<uint16_t>(RUN, thorough); });
    add("bag/32", 32, [=] { bags<uint32_t>(RUN, thorough); });
    add("version/32", 8, [=] { versions<uint32_t>(RUN); });
    add("version/64", 8, [=] { versions<uint64_t>(RUN); });
    { seq::Scenario s; s.name = "vector/1"; s.depth = thorough ? 5 : 4; s.make = [] { return new Vec<1>; }; sc.push_back(s); s.name = "vector/2"; s.make = [] { return new Vec<2>; }; sc.push_back(s); s.name = "vector/3"; s.make = [] { return new Vec<3>; }; sc.push_back(s); }
    add("wrapping integers", 1, circulars);
    add("bits", 8, [=] { bit_functions(RUN); });
    add("atomics", 1, atomics);
    return seq::drive(argc, argv, sc);
}
