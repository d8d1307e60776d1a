// Common pieces of the tree harnesses: table types over uint64_t values.
#ifndef TREELIB_HH
#define TREELIB_HH
#include "compiler.hh"
#include "kvthread.hh"
#include "masstree.hh"
#include "masstree_key.hh"
#include "masstree_struct.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "masstree_print.hh"
#include "string.hh"
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <algorithm>

template <int LW, int IW, bool CONC = true, typename NV = uint32_t, int BOUND = bound_method_binary>
struct tparams : public Masstree::nodeparams<LW, IW> {
    static constexpr bool concurrent = CONC;
    static constexpr int bound_method = BOUND;
    typedef NV nodeversion_value_type;
    typedef uint64_t value_type;
    typedef Masstree::value_print<value_type> value_print_type;
    typedef threadinfo threadinfo_type;
};

template <typename P>
struct Tab {
    typedef Masstree::basic_table<P> table_type;
    typedef typename P::threadinfo_type ti_type;
    typedef Masstree::tcursor<P> cursor_type;
    typedef Masstree::unlocked_tcursor<P> ucursor_type;
    typedef Masstree::leaf<P> leaf_type;
    typedef typename leaf_type::nodeversion_type::value_type nv_type;

    table_type t;

    bool get(Masstree::Str k, uint64_t& v, ti_type& ti) { return t.get(k, v, ti); }
    // returns whether the key existed; old value in `old`
    bool put(Masstree::Str k, uint64_t v, uint64_t& old, ti_type& ti) {
        cursor_type lp(t, k);
        bool found = lp.find_insert(ti);
        if (found) old = lp.value(); else { old = 0; ti.observe_phantoms(lp.node()); }
        lp.value() = v;
        fence();
        lp.finish(1, ti);
        return found;
    }
    bool remove(Masstree::Str k, uint64_t& old, ti_type& ti) {
        cursor_type lp(t, k);
        bool found = lp.find_locked(ti);
        old = 0;
        if (found) old = lp.value();
        lp.finish(found ? -1 : 0, ti);
        return found;
    }
};

struct ScanOut { std::string key; uint64_t value; };

template <typename P>
struct Collect {
    // fixed storage: no allocation in explored code
    enum { MAXN = 64, MAXK = 264 };
    int n = 0, limit;
    bool overflow = false;
    struct E { int len; uint64_t v; char k[MAXK]; };
    E* e;
    Collect(E* store, int lim) : limit(lim), e(store) {}
    template <typename SS, typename K> void visit_leaf(const SS&, const K&, threadinfo&) {}
    bool visit_value(Masstree::Str key, uint64_t v, threadinfo&) {
        if (n < MAXN) {
            e[n].len = key.len; e[n].v = v;
            memcpy(e[n].k, key.s, key.len < MAXK ? key.len : MAXK);
            ++n;
        } else overflow = true;
        return n < limit && !overflow;
    }
};
#endif
