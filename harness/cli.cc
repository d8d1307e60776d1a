// C22: command lines.  Every short command line over chosen words, and every short word over chosen characters, for
// several tables of options and meanings of initial characters, against a plain reading of clp.h and clp.c's comments.
#include "kvthread.hh"
#include "clp.c"
#include "seq.hh"
#include <ctype.h>
#include <math.h>
#include <limits.h>
int clp_parse_suffixdouble(Clp_Parser* clp, const char* vstr, int complain, void*);
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvepoch_t global_log_epoch = 0;
extern "C" { void mt_verif_relax(void) {} void mt_verif_alloc(void*, size_t, int) {} void mt_verif_retire(void*, size_t, int) {} void mt_verif_free(void*, size_t, int) {} }
typedef std::string S; typedef unsigned char u8_t;
#define BAD(...) do { SEQ_FAIL(__VA_ARGS__); } while (0)
enum { SUFFIX = Clp_ValFirstUser, LIST, LISTNUM };
static const struct { const char* s; int v; } animals[] = {{"cat", 1}, {"cattle", 2}, {"dog", 3}, {"dogged", 3}, {"di-go", 4}, {"dingo", 5}};
struct Config { S name; std::vector<Clp_Option> opt; std::vector<std::pair<int, int>> chars; bool utf8; std::vector<S> words; S group; };

// ---- the reading
static bool number(const S& s, bool sign, long& v) {
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || (sign && s[i] == '-'))) neg = s[i++] == '-';
    int base = 10; if (s.size() > i + 2 && s[i] == '0' && (s[i + 1] | 32) == 'x') base = 16, i += 2; else if (s.size() > i + 1 && s[i] == '0') base = 8, ++i;
    if (i >= s.size()) return false;
    for (v = 0; i < s.size(); ++i) { const char* p = s[i] ? strchr("0123456789abcdef", tolower((u8_t) s[i])) : 0; if (!p || p - "0123456789abcdef" < 0) return false; static const char D[] = "0123456789abcdef"; int d = strchr(D, tolower((u8_t) s[i])) - D; if (d >= base) return false; v = v * base + d; }
    if (neg) v = -v; return true;
}
static bool real(const S& s, bool suffix, double& d) {
    if (s.empty() || isspace((u8_t) s[0])) return false;
    char* e; d = strtod(s.c_str(), &e); if (e == s.c_str()) return false;
    if (suffix && *e) { const char* p = strchr("KkMmBbGg", *e); if (p) { static const double m[] = {1e3, 1e3, 1e6, 1e6, 1e9, 1e9, 1e9, 1e9}; d *= m[p - strchr("KkMmBbGg", 'K')]; ++e; } }
    return !*e;
}
// how much of a name a word abbreviates, or -1; dashes may be left out of the word if fd
static int abbrev(const S& name, const S& w, bool fd) {
    size_t r = 0, i = 0;
    while (1) { while (r < name.size() && i < w.size() && name[r] == w[i]) ++r, ++i; if (fd && i < w.size() && r + 1 < name.size() && name[r] == '-' && name[r + 1] == w[i]) { ++r; continue; } break; }
    return i < w.size() ? -1 : (int) r;
}
struct Value { long i = 0; double d = 0; S s; };
static bool animal(const S& s, bool nums, long& v) {
    for (int fd = 0; fd < 2; ++fd) {
        bool any = false;
        for (auto& a : animals) { int n = abbrev(a.s, s, fd); if (n < 0) continue; any = true; bool ok = n > 0; if (n < (int) strlen(a.s)) for (auto& b : animals) if (b.v != a.v && !strncmp(a.s, b.s, n)) ok = false; if (ok) { v = a.v; return true; } }
        if (any) break;
    }
    return nums && number(s, true, v);
}
static bool parse(int vt, const S& s, Value& v) {
    v = Value(); v.s = s;
    switch (vt) {
    case Clp_ValInt: case Clp_ValLong: return number(s, true, v.i);
    case Clp_ValUnsigned: case Clp_ValUnsignedLong: return number(s, false, v.i);
    case Clp_ValDouble: return real(s, false, v.d);
    case SUFFIX: return real(s, true, v.d);
    case LIST: return animal(s, false, v.i);
    case LISTNUM: return animal(s, true, v.i);
    case Clp_ValBool: { S l; for (char c : s) l += tolower((u8_t) c); if (l.empty()) return false; for (S t : {"true", "yes", "1"}) if (!t.compare(0, l.size(), l)) { v.i = 1; return true; } for (S t : {"false", "no", "0"}) if (!t.compare(0, l.size(), l)) { v.i = 0; return true; } return false; }
    default: return true;
    }
}
struct Out { int id; bool neg = false, have = false; S vstr; Value v; int opt = -1; bool named = true; S name; std::vector<S> maybe; };
struct Reading {
    const Config& c; std::vector<S> a; size_t at = 0; S grp, lead; size_t gi = 0; bool ingrp = false, wneg = false, on = true;
    Reading(const Config& c_, const std::vector<S>& a_) : c(c_), a(a_) {}
    bool lng(const Clp_Option& o) { return o.long_name; }
    S nm(const Clp_Option& o) { S n = o.long_name; return n.compare(0, 3, "no-") ? n : n.substr(3); }
    bool pos(const Clp_Option& o) { return !(o.flags & Clp_OnlyNegated) && !(o.long_name && !strncmp(o.long_name, "no-", 3)); }
    bool neg(const Clp_Option& o) { return !pos(o) || (o.flags & Clp_Negate); }
    size_t clen(const S& s, size_t i) { if (!c.utf8 || u8_t(s[i]) < 0xc0) return 1; size_t n = 1; while (i + n < s.size() && (u8_t(s[i + n]) & 0xc0) == 0x80) ++n; return n; }
    int chr(const S& s, size_t i) { size_t n = clen(s, i); int r = n == 1 ? u8_t(s[i]) : u8_t(s[i]) & (0x7f >> n); for (size_t j = 1; j < n; ++j) r = r << 6 | (u8_t(s[i + j]) & 63); return r; }
    int cls(const S& s) { int r = 0; if (s.empty()) return 0; int k = chr(s, 0); if (k == '-') r = Clp_Short; for (auto& p : c.chars) if (p.first == k || p.first == 0) r = p.second; return r; }
    int longopt(const S& w, bool ng, bool couldshort, std::vector<S>& maybe, const S& lead) {
        for (int fd = 0; fd < 2; ++fd) {
            bool any = false;
            for (size_t i = 0; i < c.opt.size(); ++i) {
                auto& o = c.opt[i]; if (!lng(o) || !(ng ? neg(o) : pos(o))) continue;
                S n = nm(o); int l = abbrev(n, w, fd); if (l < 0) continue; any = true; bool ok = l > 0;
                for (auto& p : c.opt) {
                    if (p.option_id == o.option_id || !(ng ? neg(p) && neg(o) : pos(p) && pos(o))) continue;
                    if (l < (int) n.size() && lng(p) && !nm(p).compare(0, l, n, 0, l) && !((o.flags & Clp_PreferredMatch) && !nm(p).compare(0, n.size(), n))) ok = false;
                    if (couldshort && l == 1 && p.short_name && p.short_name == u8_t(n[0]) && !(o.flags & Clp_PreferredMatch)) ok = false;
                }
                if (ok) return i;
                maybe.push_back(lead + n);
            }
            if (any) return -1;
        }
        return -1;
    }
    int shortopt(int k, bool ng) { for (size_t i = 0; i < c.opt.size(); ++i) if (c.opt[i].short_name == k && k && (!ng || neg(c.opt[i]))) return i; return -1; }
    bool plain(const S& s) { int k = cls(s); return !(s.size() > 1 && s[0] == '-' && s[1] == '-') && (k == 0 || k == Clp_LongImplicit || s.size() == clen(s, 0)); }      // may be a value that is not an option
    Out next() {
        Out r; bool ng = false, couldshort = false, isshort = false; int o = -1; r.id = Clp_BadOption;
        if (ingrp) { gi += clen(grp, gi); if (gi >= grp.size()) ingrp = false; }
        if (!ingrp) {
            wneg = false;
            if (at == a.size()) { r.id = Clp_Done; return r; }
            S t = a[at++]; int k = cls(t); bool dbl = t.size() > 1 && t[0] == '-' && t[1] == '-'; size_t cl = t.empty() ? 0 : clen(t, 0);
            if (!on || (!dbl && (k == 0 || (k != Clp_LongImplicit && t.size() == cl)))) { r.id = Clp_NotOption; r.have = true; r.vstr = t; return r; }
            if (t == "--") { on = false; return next(); }
            if (dbl || (k & (Clp_Long | Clp_LongNegated | Clp_LongImplicit))) {
                lead = dbl ? "--" : k == Clp_LongImplicit ? "" : t.substr(0, cl); S w = t.substr(lead.size()); size_t eq = w.find('='); S arg = w.substr(0, eq); couldshort = !dbl && (k & (Clp_Short | Clp_ShortNegated));
                ng = wneg = !dbl && (k & Clp_LongNegated);
                o = longopt(arg, ng, couldshort, r.maybe, lead);
                while (o < 0 && !arg.compare(0, 3, "no-")) { arg = arg.substr(3); ng = !ng; o = longopt(arg, ng, couldshort, r.maybe, lead + "no-"); }
                if (o >= 0) { if (eq != S::npos) { r.have = true; r.vstr = w.substr(eq + 1); } r.name = lead + (ng && !wneg ? "no-" : "") + nm(c.opt[o]); r.named = !(wneg && !ng); }
            }
            if (o < 0 && !dbl && (k & (Clp_Short | Clp_ShortNegated))) { lead = t.substr(0, cl); grp = t.substr(cl); gi = 0; ingrp = true; wneg = k & Clp_ShortNegated; }
        }
        if (ingrp) { isshort = true; ng = wneg; o = shortopt(chr(grp, gi), ng); if (o >= 0) { r.name = lead + grp.substr(gi, clen(grp, gi)); ng = ng || !pos(c.opt[o]); } }
        if (o < 0) return r;
        auto& p = c.opt[o]; r.opt = o; r.neg = ng;
        if (ng || !p.val_type) { if (r.have) { r.have = false; return r; } r.id = p.option_id; return r; }
        bool opt = p.flags & Clp_Optional; S rest = isshort ? grp.substr(gi + clen(grp, gi)) : S();
        if (!r.have && isshort && !rest.empty()) {
            r.vstr = rest[0] == '=' ? rest.substr(1) : rest;
            if (parse(p.val_type, r.vstr, r.v)) { r.have = true; ingrp = false; r.id = p.option_id; }
            else if (opt) { r.vstr.clear(); r.id = p.option_id; } else ingrp = false;
            return r;
        }
        if (!r.have && opt) { r.id = p.option_id; return r; }
        if (!r.have) {
            if (at == a.size() || ((p.val_type == Clp_ValStringNotOption || p.val_type == SUFFIX) && !plain(a[at]))) return r;
            r.vstr = a[at++]; r.have = true; if (ingrp) ingrp = false;
        }
        if (parse(p.val_type, r.vstr, r.v)) r.id = p.option_id; else r.have = false;
        return r;
    }
    bool midgroup() { return ingrp && gi + clen(grp, gi) < grp.size(); }
    bool shift(bool all, S& out) { ingrp = false; if (at == a.size() || (!all && !plain(a[at]))) return false; out = a[at++]; return true; }
};

// ---- the parser
static int errors;
static S message;
static void err(Clp_Parser*, const char* m) { ++errors; message = m ? m : ""; if (!m || !*m || strlen(m) > 100000) errors += 100; }
static void quiet(Clp_Parser*, const char*) {}
struct Real {
    Clp_Parser* p; std::vector<char*> argv; const Config& c;
    Real(const Config& c_, const std::vector<S>& a, bool later) : c(c_) {
        if (!later) argv.push_back(strdup("prog"));
        for (auto& x : a) { char* t = (char*) malloc(x.size() + 1); memcpy(t, x.c_str(), x.size() + 1); argv.push_back(t); }
        p = later ? Clp_NewParser(0, 0, 0, 0) : Clp_NewParser(argv.size(), argv.data(), c.opt.size(), c.opt.data());
        Clp_SetErrorHandler(p, err); Clp_SetUTF8(p, c.utf8);
        Clp_AddType(p, SUFFIX, Clp_DisallowOptions, clp_parse_suffixdouble, 0);
        const char* s[6]; int v[6]; for (int i = 0; i < 6; ++i) s[i] = animals[i].s, v[i] = animals[i].v;
        Clp_AddStringListTypeVec(p, LIST, 0, 6, s, v);
        Clp_AddStringListType(p, LISTNUM, Clp_AllowNumbers, "cat", 1, "cattle", 2, "dog", 3, "dogged", 3, "di-go", 4, "dingo", 5, (const char*) 0);
        for (auto& k : c.chars) Clp_SetOptionChar(p, k.first, k.second);
        if (later) { errors = 0; Clp_SetOptions(p, c.opt.size(), c.opt.data()); if (errors) BAD("the table %s is refused: %s", c.name.c_str(), message.c_str()); static unsigned k = 0; static const char* before[][2] = {{"--", "x"}, {"+fk", "y"}, {"-pp", "z"}}; Clp_SetErrorHandler(p, quiet); if (++k % 4) { Clp_SetArguments(p, 2, before[k % 4 - 1]); Clp_Next(p); } Clp_SetErrorHandler(p, err); Clp_SetArguments(p, argv.size(), argv.data()); }
    }
    ~Real() { Clp_DeleteParser(p); for (auto x : argv) free(x); }
};
static S show(const std::vector<S>& a) { S r; for (auto& x : a) r += (r.empty() ? "" : " ") + ("'" + seq::hex(x) + "'"); return r; }
static void agree(Real& r, const Out& w, int id, const std::vector<S>& a, int step) {
    auto& p = *r.p; S where = show(a);
    if (id != w.id) BAD("step %d of %s gives %d, not %d", step, where.c_str(), id, w.id);
    if ((errors > 0) != (id == Clp_BadOption) || errors > 1) BAD("step %d of %s: %d error messages for result %d", step, where.c_str(), errors, id);
    if (id == Clp_NotOption) { if (!p.vstr || w.vstr != p.vstr || p.val.s != p.vstr) BAD("step %d of %s: the argument is '%s'", step, where.c_str(), p.vstr ? p.vstr : "NULL"); return; }
    if (id == Clp_Done) { if (p.have_val || p.vstr) BAD("a value after the end of %s", where.c_str()); return; }
    if (id == Clp_BadOption) { if (w.opt < 0 && w.maybe.size() <= 4) for (auto& x : w.maybe) if (message.find("'" + x + "'") == S::npos && !r.c.utf8) BAD("step %d of %s: the message '%s' does not offer '%s'", step, where.c_str(), message.c_str(), x.c_str()); return; }
    auto& o = r.c.opt[w.opt];
    if (p.negated != w.neg || !!p.have_val != w.have) BAD("step %d of %s: negated %d, has value %d", step, where.c_str(), p.negated, p.have_val);
    if (p.option != &o) BAD("step %d of %s: another option", step, where.c_str());
    if (w.have ? !p.vstr || w.vstr != p.vstr : p.vstr != 0) BAD("step %d of %s: the value is '%s'", step, where.c_str(), p.vstr ? p.vstr : "NULL");
    if (w.have) {
        bool ok = true; long i = w.v.i; double d = w.v.d;
        switch (o.val_type) { case Clp_ValInt: case LIST: case LISTNUM: case Clp_ValBool: ok = p.val.i == (int) i; break; case Clp_ValUnsigned: ok = p.val.u == (unsigned) i; break; case Clp_ValLong: ok = p.val.l == i; break; case Clp_ValUnsignedLong: ok = p.val.ul == (unsigned long) i; break;
        case Clp_ValDouble: case SUFFIX: ok = p.val.d == d || (isnan(d) && isnan(p.val.d)); break; default: ok = p.val.s == p.vstr; }
        if (!ok) BAD("step %d of %s: the parsed value of '%s' is wrong", step, where.c_str(), w.vstr.c_str());
    }
    if (w.named) {
        if (w.name != Clp_CurOptionName(&p)) BAD("step %d of %s: the option is called '%s', not '%s'", step, where.c_str(), Clp_CurOptionName(&p), w.name.c_str());
        for (int n : {0, 1, 2, 3, (int) w.name.size(), (int) w.name.size() + 1, 40}) { if (r.c.utf8) continue; char* b = (char*) malloc(n + 1); b[n] = 'Z'; int k = Clp_CurOptionNameBuf(&p, b, n); S want = n ? w.name.substr(0, n - 1) : S(); if (k != (int) want.size() || (n && strcmp(b, want.c_str())) || b[n] != 'Z') BAD("the option's name in %d bytes, step %d of %s", n, step, where.c_str()); free(b); }
    }
    if (!Clp_IsLong(&p, o.long_name ? o.long_name : "x") != !o.long_name || (o.short_name && !Clp_IsShort(&p, o.short_name)) || Clp_IsShort(&p, 1) || Clp_IsLong(&p, "unlikely")) BAD("step %d of %s: Clp_IsLong or Clp_IsShort", step, where.c_str());
}
static void line(const Config& c, const std::vector<S>& a, unsigned mode = 0) {
    seq::begin_case(); seq::path(c.name + ": " + show(a));
    Real r(c, a, mode & 1); Reading w(c, a); std::vector<Out> outs; std::vector<Clp_ParserState*> st; errors = 0;
    for (int k = 0; k < 40; ++k) {
        st.push_back(Clp_NewParserState()); Clp_SaveParser(r.p, st.back());
        errors = 0; int id = Clp_Next(r.p); outs.push_back(w.next()); agree(r, outs.back(), id, a, k);
        if (id == Clp_Done) break;
        if (k == 39) BAD("no end of %s", show(a).c_str());
    }
    errors = 0; if (Clp_Next(r.p) != Clp_Done || errors) BAD("something after the end of %s", show(a).c_str());
    // from every saved state the same follows, in this parser and in another one
    Real other(c, {"--", "-x", "y"}, !(mode & 1)); Clp_Next(other.p);
    for (size_t k = outs.size(); k-- > 0;) for (Real* q : {&r, &other}) {
        if (q == &other && k != outs.size() / 2) continue;
        Clp_RestoreParser(q->p, st[k]);
        for (size_t j = k; j < outs.size() && j < k + 2; ++j) { errors = 0; int id = Clp_Next(q->p); agree(*q, outs[j], id, a, 1000 + j); }
    }
    for (auto s : st) Clp_DeleteParserState(s);
}
// arguments taken without parsing in between
static void shifts(const Config& c, const std::vector<S>& a) {
    for (int plan = 0; plan < 81; ++plan) {
        seq::begin_case(); seq::path(c.name + ": " + show(a) + " plan " + std::to_string(plan));
        Real r(c, a, false); Reading w(c, a); int q = plan;
        for (int k = 0; k < 4; ++k, q /= 3) {
            if (q % 3 == 0 || w.midgroup()) { errors = 0; int id = Clp_Next(r.p); Out o = w.next(); agree(r, o, id, a, k); }
            else { S t; bool ok = w.shift(q % 3 == 2, t); const char* g = Clp_Shift(r.p, q % 3 == 2); if (ok ? !g || t != g : g != 0) BAD("shift %d of %s gives '%s'", k, show(a).c_str(), g ? g : "NULL"); }
        }
    }
}
static void words(const S& al, int maxlen, const std::function<void(const S&)>& f, int shard = 0, int n = 1) {
    std::function<void(S&, long&)> go = [&](S& s, long& k) { if (k++ % n == shard) f(s); if ((int) s.size() < maxlen) for (char ch : al) { s += ch; go(s, k); s.pop_back(); } };
    S s; long k = 0; go(s, k);
}
static void lines(const std::vector<S>& v, int maxlen, const std::function<void(const std::vector<S>&)>& f, int shard, int n) {
    std::vector<S> a; long k = 0;
    std::function<void()> go = [&] { if (seq::out_of_time()) return; if (k++ % n == shard) f(a); if ((int) a.size() < maxlen) for (auto& x : v) { a.push_back(x); go(); a.pop_back(); } };
    go();
}
// a fresh state is that of a parser without arguments; option characters are remembered as set
static void parsers() {
    static const Clp_Option o[] = {{"all", 'a', 1, 0, Clp_Negate}}; const char* a[] = {"prog", "-aa", "x"};
    for (int after = 0; after < 5; ++after) { seq::begin_case(); Clp_Parser* p = Clp_NewParser(3, a, 1, o); Clp_ParserState* f = Clp_NewParserState(), *s = Clp_NewParserState(); for (int i = 0; i < after; ++i) Clp_Next(p); Clp_SaveParser(p, s); int next = Clp_Next(p); Clp_RestoreParser(p, f); for (int i = 0; i < 2; ++i) if (Clp_Next(p) != Clp_Done || p->have_val) SEQ_FAIL("a fresh state has arguments"); Clp_RestoreParser(p, s); if (Clp_Next(p) != next) SEQ_FAIL("a saved state is lost"); Clp_DeleteParserState(f); Clp_DeleteParserState(s); Clp_DeleteParser(p); }
    static const int types[] = {0, Clp_Short, Clp_Long, Clp_ShortNegated, Clp_LongNegated, Clp_LongImplicit, Clp_Short | Clp_Long, Clp_ShortNegated | Clp_LongNegated};
    for (int t1 : types) for (int t2 : types) for (int c1 : {0, int('-'), int('+'), 200, 255}) for (int c2 : {0, int('-'), int('x'), 200}) {
        seq::begin_case(); Clp_Parser* p = Clp_NewParser(3, a, 1, o); Clp_SetUTF8(p, 0); Clp_SetErrorHandler(p, quiet); int want[256]; for (int& w : want) w = 0; want['-'] = Clp_Short;
        for (auto x : {std::make_pair(c1, t1), std::make_pair(c2, t2)}) { int r = Clp_SetOptionChar(p, x.first, x.second); if (x.first && r != want[x.first]) SEQ_FAIL("Clp_SetOptionChar returns %d", r); if (x.first) want[x.first] = x.second; else for (int& w : want) w = x.second; }
        for (int c = 1; c < 256; ++c) if (Clp_OptionChar(p, c) != want[c]) SEQ_FAIL("Clp_OptionChar(%d)", c);
        for (int bad : {-1, 256, 0x110000}) if (Clp_SetOptionChar(p, bad, Clp_Short) != -1) SEQ_FAIL("option character %d", bad); if (Clp_SetOptionChar(p, 'q', Clp_Short | Clp_LongNegated) != -1 || Clp_OptionChar(p, 'q') != want['q']) SEQ_FAIL("a mixed type");
        int k = 0; for (int c = 1; c < 40; ++c) { int r = Clp_SetOptionChar(p, c, Clp_Long); if (r == -1) ++k; else want[c] = Clp_Long; } if (k < 20) SEQ_FAIL("more option characters than there is room for"); for (int c = 1; c < 256; ++c) if (Clp_OptionChar(p, c) != want[c]) SEQ_FAIL("Clp_OptionChar(%d) when full", c);
        Clp_DeleteParser(p);
    }
}
// messages: the text of every option shown in full, whatever its length, and formatted text within any buffer
static int print(Clp_Parser* p, char* b, size_t n, const char* f, ...) { va_list v; va_start(v, f); int r = Clp_vsnprintf(p, b, n, f, v); va_end(v); return r; }
static S utf8(int c) { S r; if (c < 0x80) r += char(c); else if (c < 0x800) r += char(0xc0 | c >> 6), r += char(0x80 | (c & 63)); else r += char(0xe0 | c >> 12), r += char(0x80 | (c >> 6 & 63)), r += char(0x80 | (c & 63)); return r; }
static S oct(int c, bool u) { char b[8]; if (c >= 32 && c < 127) return S(1, char(c)); if (c < 32) return S("^") + char(c + 64); if (u) return utf8(c); snprintf(b, sizeof b, "\\%03o", c); return b; }
static void unknown(const Config& c, int n) {
    seq::begin_case(); seq::path("option of length " + std::to_string(n));
    for (int kind = 0; kind < 4; ++kind) {
        S got[2]; for (int full = 0; full < 2; ++full) {
            S z(full ? n : 1, '~'); std::vector<S> a; a.push_back(kind == 0 ? "--" + z : kind == 1 ? "--threads=" + z : kind == 2 ? "--pin=" + z : "-j" + z); if (kind == 3) a.push_back(z);
            Real r(c, a, false); errors = 0; if (Clp_Next(r.p) != Clp_BadOption || errors != 1) BAD("'%s' is not refused", a[0].c_str()); got[full] = message;
            if (message.compare(0, 6, "prog: ") || message.back() != '\n') BAD("the message '%s'", message.c_str());
            if (kind == 2 && message.find("--pin") == S::npos) BAD("the message '%s'", message.c_str());
            if (kind == 2 && got[0] != got[full]) BAD("the message '%s'", message.c_str());
        }
        if (kind == 2) continue;
        size_t at = got[0].find('~'); if (at == S::npos || got[0].find('~', at + 1) != S::npos) BAD("the message '%s' does not show what was refused", got[0].c_str());
        S want = got[0]; want.replace(at, 1, S(n, '~')); if (want != got[1]) BAD("the message for an option of length %d is '%s'", n, got[1].c_str());
    }
}
static void formats(const Config& c, bool u, int pad, int a, int b) {
    seq::begin_case(); seq::path(seq::msg("formats: utf8 %d, padding %d, pieces %d %d", u, pad, a, b)); Config cc = c; cc.utf8 = u; Real r(cc, {"--thr=5"}, false); errors = 0; if (Clp_Next(r.p) != 7) BAD("--thr=5 is refused");
    static const int chars[] = {0, 1, 9, 31, 32, 'A', 126, 127, 128, 200, 233, 255}; const int nc = 12, total = 2 * nc + 12; (void) total;
    S f, want; long args[2]; int na = 0; S text[2]; f = "%s"; S padding(pad, 'p'); want = padding;
    for (int k : {a, b}) {
        if (k < nc) { f += "%c"; args[na++] = chars[k]; want += oct(chars[k], u); }
        else if (k < 2 * nc) { int ch = chars[k - nc]; if (!ch) ch = 2; f += "%C"; text[na] = (u ? utf8(ch) : S(1, char(ch))) + "t"; args[na] = (long) text[na].c_str(); ++na; want += oct(ch, u); }
        else switch (k - 2 * nc) {
            case 0: f += "%d"; args[na++] = -2147483647 - 1; want += "-2147483648"; break; case 1: f += "%d"; args[na++] = 0; want += "0"; break;
            case 2: f += "%s"; text[na] = "text"; args[na] = (long) text[na].c_str(); ++na; want += "text"; break; case 3: f += "%O"; want += "--threads"; break; case 4: f += "%V"; want += "--threads=5"; break;
            case 5: f += "%%"; want += "%"; break; case 6: f += "%<"; want += u ? "\342\200\230" : "'"; break; case 7: f += "%>"; want += u ? "\342\200\231" : "'"; break; case 8: f += "%,"; want += u ? "\342\200\231" : "'"; break;
            case 9: f += "plain"; want += "plain"; break; case 10: f += "-"; want += "-"; break; default: break;
        }
    }
    int L = want.size(); for (int n : {0, 1, 2, L - 1, L, L + 1, L + 9}) {
        if (n < 0) continue; char* o = (char*) malloc(n + 1); memset(o, 'Z', n + 1); int k = na == 0 ? print(r.p, o, n, f.c_str(), padding.c_str()) : na == 1 ? print(r.p, o, n, f.c_str(), padding.c_str(), args[0]) : print(r.p, o, n, f.c_str(), padding.c_str(), args[0], args[1]);
        if (k != L) BAD("the length of '%s' is given as %d", seq::hex(want).c_str(), k);
        if (o[n] != 'Z') BAD("written beyond %d bytes", n);
        if (n && S(o) != want.substr(0, n - 1)) BAD("in %d bytes '%s' is formatted as '%s'", n, seq::hex(want).c_str(), seq::hex(o).c_str());
        free(o);
    }
    if (L < 2000) { errors = 0; if (na == 0) Clp_OptionError(r.p, f.c_str(), padding.c_str()); else if (na == 1) Clp_OptionError(r.p, f.c_str(), padding.c_str(), args[0]); else Clp_OptionError(r.p, f.c_str(), padding.c_str(), args[0], args[1]); if (errors % 100 != 1 || message != "prog: " + want + "\n") BAD("the message for '%s' is '%s'", seq::hex(want).c_str(), seq::hex(message).c_str()); }
}
int main(int argc, char** argv) {
    bool thorough = false; for (int i = 1; i < argc; ++i) if (S(argv[i]) == "--thorough") thorough = true;
    int q = thorough; static std::vector<Config> cs;
    std::vector<Clp_Option> server = {{"pin", 'p', 1, 0, Clp_Negate}, {"logdir", 0, 2, Clp_ValString, 0}, {"ld", 0, 2, Clp_ValString, 0}, {"checkpoint", 'c', 3, Clp_ValDouble, Clp_Optional | Clp_Negate}, {"ckp", 0, 3, Clp_ValDouble, Clp_Optional | Clp_Negate}, {"ckpdir", 0, 4, Clp_ValString, 0}, {"ckdir", 0, 4, Clp_ValString, 0}, {"cd", 0, 4, Clp_ValString, 0}, {"port", 0, 5, Clp_ValInt, 0}, {"duration", 'd', 6, SUFFIX, 0}, {"threads", 'j', 7, Clp_ValUnsigned, 0}, {"print", 0, 8, 0, Clp_Negate}, {"epoch-interval", 0, 9, Clp_ValDouble, 0}, {"epoch-in", 0, 10, 0, 0}};
    std::vector<Clp_Option> mixed = {{"animal", 'a', 1, LIST, 0}, {"vegetable", 'v', 2, Clp_ValString, Clp_Negate | Clp_Optional}, {"minerals", 'm', 3, Clp_ValInt, Clp_Mandatory}, {"mine", 0, 4, LISTNUM, Clp_Optional | Clp_PreferredMatch}, {"no-color", 'k', 5, 0, 0}, {"color", 0, 13, Clp_ValString, Clp_Optional}, {"only", 'o', 6, Clp_ValInt, Clp_OnlyNegated}, {"notes", 'n', 7, Clp_ValStringNotOption, 0}, {0, 'x', 8, Clp_ValBool, Clp_Optional}, {"x-y-z", 0, 9, 0, Clp_Negate}, {"file", 'f', 10, Clp_ValUnsignedLong, Clp_Optional | Clp_Negate}, {"force", 0, 11, 0, Clp_Negate}, {"v", 0, 12, 0, 0}};
    mixed.pop_back();
    std::vector<Clp_Option> accents = {{"\xc3\xa9t\xc3\xa9", 0xe9, 1, 0, Clp_Negate}, {"b\xc3\xa9", 'b', 2, Clp_ValLong, Clp_Optional}, {"\xc3\xa8re", 0xe8, 3, Clp_ValString, 0}, {"\xed\x95\x9c", 0xd55c, 4, 0, Clp_Negate}, {"smile", 0x1f600, 5, Clp_ValInt, Clp_Optional}, {"\xe2\x82\xac", 0x20ac, 6, Clp_ValString, Clp_Optional}};
    std::vector<S> sw = {"--pin", "--no-pin", "-p", "-pc", "-c5", "-cp", "-c", "--ch=2", "--ckp", "--no-ckp", "--no-checkpoint=3", "--logdir", "--log=a=b", "--ld", "--po", "--po=0x10", "--port=", "--port=8x", "5", "-5", "1.5k", "-d", "-d2m", "-pd", "-j", "-j08", "-j=7", "-", "--", "", "--ck", "--epochinterval=1", "--epoch-in", "--epochin", "--no-no-print", "--no-port", "foo", "-q", "--bad", "--pin=1", "=", "-="};
    std::vector<S> mw = {"-acat", "-a", "dog", "--animal=c", "--an=dogg", "-v", "-vkale", "--no-v", "--no-vegetables", "-m10", "-m", "foo", "--mine", "--min=7", "--mi=di", "--mineral", "--no-color", "--color", "-k", "-o", "--no-only", "--only=3", "-n", "-n-", "--no", "--notes=", "--no-notes", "-x", "-xno", "-xk", "--xyz", "--no-xy", "-fk", "--fi=3", "--f", "--no-f", "--", "-", "+k", "+f", "^force", "^f", "force", "file=3", "f", "-no-f", "-file", "-fo", "+xf", "-kf", "^no-force", "/f", "fx"};
    std::vector<S> aw = {"-\xc3\xa9", "-\xc3\xa8x", "-\xc3\xa9\xc3\xa9", "-b\xc3\xa9", "-b5", "--\xc3\xa9t\xc3\xa9", "--no-\xc3\xa9", "--b=3", "x", "--\xc3\xa8=1", "--b\xc3\xa9", "\xc2\xb1" "b", "\xc2\xb1\xc3\xa9", "-\xc3\xa8", "--", "-\xed\x95\x9c\xc3\xa9", "--\xed\x95\x9c", "--no-\xed\x95\x9c", "\xc2\xb1\xed\x95\x9c", "-\xf0\x9f\x98\x80" "7", "-\xf0\x9f\x98\x80\xed\x95\x9c", "-\xe2\x82\xac\xe2\x82\xac", "--\xe2\x82\xac=\xe2\x82", "--sm", "5"};
    cs.push_back({"server", server, {}, false, sw, "pcdj=15x-q"});
    cs.push_back({"server, - also long", server, {{'-', Clp_Short | Clp_Long}}, false, sw, "pcdj=k-noi"});
    cs.push_back({"mixed", mixed, {{'+', Clp_ShortNegated}, {'^', Clp_LongNegated}}, false, mw, "avmkonxf=1-"});
    cs.push_back({"mixed, - and + also long", mixed, {{'-', Clp_Short | Clp_Long}, {'+', Clp_ShortNegated | Clp_LongNegated}, {'^', Clp_ShortNegated}}, false, mw, "avkonxf=1-"});
    cs.push_back({"mixed, - long, f implicit", mixed, {{'-', Clp_Long}, {'f', Clp_LongImplicit}, {'+', Clp_Short}, {'/', Clp_Short | Clp_Long}}, false, mw, "avkonxf=1-"});
    cs.push_back({"mixed, no options but --", mixed, {{'-', 0}}, false, mw, "fk-"});
    cs.push_back({"accents", accents, {{0xb1, Clp_ShortNegated}}, true, aw, "b5=EHS"});
    cs.push_back({"everything implicit", mixed, {{0, Clp_LongImplicit}, {'-', Clp_Short}, {'+', 0}}, false, mw, "avkonxf=1-"});
    cs.push_back({"everything short", mixed, {{0, Clp_Short}, {'f', 0}, {'^', Clp_LongNegated}}, false, mw, "avkonxf=1-"});
    std::vector<seq::Scenario> sc;
    auto add = [&](const S& n, int shards, std::function<void()> f) { seq::Scenario s; s.name = n; s.depth = 0; s.run = f; s.shards = shards; sc.push_back(s); };
    auto sh = [] { return seq::seq_shard; }; auto ns = [] { return seq::seq_nshards; };
    for (size_t ci = 0; ci < cs.size(); ++ci) {
        const Config& c = cs[ci];
        add("lines/" + c.name, 32, [&c, q, sh, ns] { unsigned n = 0; lines(c.words, 2 + q, [&](const std::vector<S>& a) { line(c, a, n++); }, sh(), ns()); });
        add("shifts/" + c.name, 32, [&c, q, sh, ns] { std::vector<S> few; for (size_t i = 0; i < c.words.size(); i += q ? 1 : 3) few.push_back(c.words[i]); for (S x : {"--", "-", "x"}) few.push_back(x); lines(few, 2 + 0 * q, [&](const std::vector<S>& a) { shifts(c, a); }, sh(), ns()); });
        // every abbreviation of every name, negated or not, with and without values and things following
        add("names/" + c.name, 32, [&c, sh, ns] {
            long k = 0; std::vector<S> w;
            for (auto& o : c.opt) if (o.long_name) { S n = o.long_name, nd; for (char ch : n) if (ch != '-') nd += ch; for (S x : {n, nd, n + "s", n.substr(0, n.find('-')) + "-"}) for (size_t l = 0; l <= x.size(); ++l) w.push_back(x.substr(0, l)); }
            for (S lead : {"--", "-", "+", "^", "/", "", "---"}) for (S no : {"", "no-", "no-no-", "no", "no-no"}) for (auto& x : w) for (S v : {"", "=", "=1", "=x", "=-1"}) for (int f = 0; f < 5; ++f) {
                if (k++ % ns() != sh() || seq::out_of_time()) continue;
                std::vector<S> a{lead + no + x + v}; if (f) a.push_back(f == 1 ? "5" : f == 2 ? "--" : f == 3 ? "-x" : "dog"); line(c, a, k);
            } });
        add("groups/" + c.name, 32, [&c, q, sh, ns] { words(c.group, 4 + q, [&](const S& g0) { S g; for (char ch : g0) g += !c.utf8 ? S(1, ch) : ch == 'E' ? S("\xc3\xa9") : ch == 'H' ? S("\xed\x95\x9c") : ch == 'S' ? S("\xf0\x9f\x98\x80") : S(1, ch); if (seq::out_of_time()) return; for (S lead : {"-", "+", "^"}) { line(c, {lead + g}); if (g.size() < 4) { line(c, {lead + g, "5"}, 1); line(c, {lead + g, "-p", "x"}); } } }, sh(), ns()); });
    }
    add("parsers", 1, parsers);
    add("messages/options", 16, [sh, ns, q] { for (int n = 1 + sh(); n < (q ? 5000 : 1200); n += ns()) if (!seq::out_of_time()) unknown(cs[0], n); });
    add("messages/formats", 32, [sh, ns, q] { int k = 0; for (int pad = 0; pad < 1100; pad += pad > 235 && pad < 260 ? 1 : pad > 500 && pad < 515 ? 1 : pad > 1010 && pad < 1026 ? 1 : q ? 5 : 61) for (int a = 0; a < 36; ++a) for (int b = 0; b < 36; ++b) if (k++ % ns() == sh() && !seq::out_of_time()) for (int u = 0; u < 2; ++u) formats(cs[0], u, pad, a, b); });
    // every short value of every type
    static Config vals; vals.name = "values"; vals.utf8 = false;
    static const int types[] = {Clp_ValString, Clp_ValStringNotOption, Clp_ValBool, Clp_ValInt, Clp_ValUnsigned, Clp_ValLong, Clp_ValUnsignedLong, Clp_ValDouble, SUFFIX, LIST, LISTNUM};
    static S names[11]; for (int i = 0; i < 11; ++i) { names[i] = S(1, char('a' + i)) + "-value"; vals.opt.push_back({names[i].c_str(), 'A' + i, i + 1, types[i], i % 3 == 0 ? Clp_Optional : 0}); }
    auto each = [](const S& v) { for (int i = 0; i < 11; ++i) { if ((types[i] == LIST || types[i] == LISTNUM) && v.find('=') != S::npos) continue; line(vals, {"--" + names[i] + "=" + v}); line(vals, {S("-") + char('A' + i), v}, 1); } };
    add("values/integers", 32, [=] { words("+-0x18aF ", 4 + q, [&](const S& s) { if (!seq::out_of_time()) each(s); }, sh(), ns()); });
    add("values/reals", 32, [=] { words("1.-eK", 5 + q, [&](const S& s) { if (!seq::out_of_time()) each(s); }, sh(), ns()); });
    add("values/suffixes", 32, [=] { words("1.kMbGgB", 4 + q, [&](const S& s) { if (!seq::out_of_time()) each(s); }, sh(), ns()); });
    add("values/words", 32, [=] { std::vector<S> v; for (S x : {"true", "false", "yes", "no", "0", "1", "cat", "cattle", "dog", "dogged", "di-go", "dingo", "inf", "nan", "2147483647", "-2147483648", "0x7fffffff", "00", "01", "10"}) for (size_t l = 0; l <= x.size(); ++l) for (S y : {"", "s", "-", "0", "e"}) { v.push_back(x.substr(0, l) + y); S u = v.back(); for (auto& ch : u) ch = toupper(ch); v.push_back(u); } for (size_t i = sh(); i < v.size(); i += ns()) each(v[i]); });
    add("values/abbreviations", 32, [=] { words("catlegdino-", 4 + q, [&](const S& s) { if (!seq::out_of_time()) { line(vals, {"--j=" + s}); line(vals, {"-K" + s}); } }, sh(), ns()); });
    return seq::drive(argc, argv, sc);
}
