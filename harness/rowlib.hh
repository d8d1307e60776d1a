// Rows and queries over a real table, for whichever row type is compiled in.
#ifndef ROWLIB_HH
#define ROWLIB_HH
#include "treelib.hh"
#include "kvrow.hh"
#include "msgpack.hh"
#include "json.hh"
#include "straccum.hh"
using lcdf::Json; using lcdf::String; using lcdf::StringAccum; using lcdf::Str;
#ifndef LEAFW
#define LEAFW 3
#endif
struct RP : public Masstree::nodeparams<LEAFW, LEAFW> {
    typedef row_type* value_type;
    typedef Masstree::value_print<value_type> value_print_type;
    typedef threadinfo threadinfo_type;
};
typedef Masstree::basic_table<RP> RT;
#if MASSTREE_ROW_TYPE_STR
# define ROW_STR 1
#else
# define ROW_STR 0
#endif
// ---- reference rows.  An array row is a list of columns, a put sets some of them, a longer index extends it with
// empty ones.  A string row is one string; index o + (l << 16) names the bytes [o, o + l), index 0 all of it.
typedef std::string S;
struct CV { unsigned idx; S val; };
typedef std::vector<CV> Change;
struct Ref {
    bool in = false; std::vector<S> c;          // ROW_STR: c[0] is the string
    void put(const Change& ch) {
        if (!in) { in = true; c.clear(); if (ROW_STR) c.push_back(S()); }
        if (ROW_STR) {
            for (auto& x : ch) {
                unsigned off = x.idx & 0xffff;
                if (x.idx == 0) c[0].clear();
                if (c[0].size() < off + x.val.size()) c[0].resize(off + x.val.size(), '\0');
                memcpy(&c[0][off], x.val.data(), x.val.size());
            }
        } else
            for (auto& x : ch) { if (c.size() <= x.idx) c.resize(x.idx + 1); c[x.idx] = x.val; }
    }
    void replace(const S& v) { in = true; c.assign(1, v); }
    S col(unsigned idx) const {
        if (!ROW_STR) return idx < c.size() ? c[idx] : S();
        if (idx == 0) return c[0];
        unsigned off = std::min<unsigned>(idx & 0xffff, c[0].size());
        return c[0].substr(off, std::min<unsigned>(idx >> 16, c[0].size() - off));
    }
};
#endif
