From 65fbd158da2fd1d57cb020f7e924f2e594177fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:41 +0000
Subject: [PATCH 01/72] Add MT_VERIF_HOOKS: observable atomics, spins and
 memory lifecycle (off by default)

---
 compiler.hh | 36 +++++++++++++++++++++++++++++++-----
 memdebug.hh | 25 +++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/compiler.hh b/compiler.hh
index f70fea0..fff3a83 100644
--- a/compiler.hh
+++ b/compiler.hh
@@ -49,7 +49,14 @@
 #if (__i386__ || __x86_64__) && !defined(__x86__)
 # define __x86__ 1
 #endif
-#define PREFER_X86 1
+#if MT_VERIF_HOOKS
+// Verification builds: express every atomic operation as a compiler builtin,
+// so that instrumentation can observe it, and announce every spin iteration.
+# define PREFER_X86 0
+extern "C" void mt_verif_relax(void);
+#else
+# define PREFER_X86 1
+#endif
 #define ALLOW___SYNC_BUILTINS 1
 
 #if !defined(HAVE_INDIFFERENT_ALIGMENT) && (__i386__ || __x86_64__ || __arch_um__)
@@ -96,6 +103,9 @@ inline void release_fence() {
 
     Use this in spinloops, for example. */
 inline void relax_fence() {
+#if MT_VERIF_HOOKS
+    mt_verif_relax();
+#endif
     asm volatile("pause" : : : "memory"); // equivalent to "rep; nop"
 }
 
@@ -150,10 +160,14 @@ template <int SIZE, typename BARRIER> struct sized_compiler_operations;
 template <typename B> struct sized_compiler_operations<1, B> {
     typedef char type;
     static inline type xchg(type* object, type new_value) {
+#if MT_VERIF_HOOKS
+        return __sync_lock_test_and_set(object, new_value);
+#else
         asm volatile("xchgb %0,%1"
                      : "+q" (new_value), "+m" (*object));
         B()();
         return new_value;
+#endif
     }
     static inline type val_cmpxchg(type* object, type expected, type desired) {
 #if __x86__ && (PREFER_X86 || !HAVE___SYNC_VAL_COMPARE_AND_SWAP)
@@ -189,7 +203,7 @@ template <typename B> struct sized_compiler_operations<1, B> {
 #endif
     }
     static inline void atomic_or(type* object, type addend) {
-#if __x86__
+#if __x86__ && !MT_VERIF_HOOKS
         asm volatile("lock; orb %0,%1"
                      : "=r" (addend), "+m" (*object) : : "cc");
         B()();
@@ -206,10 +220,14 @@ template <typename B> struct sized_compiler_operations<2, B> {
     typedef int16_t type;
 #endif
     static inline type xchg(type* object, type new_value) {
+#if MT_VERIF_HOOKS
+        return __sync_lock_test_and_set(object, new_value);
+#else
         asm volatile("xchgw %0,%1"
                      : "+r" (new_value), "+m" (*object));
         B()();
         return new_value;
+#endif
     }
     static inline type val_cmpxchg(type* object, type expected, type desired) {
 #if __x86__ && (PREFER_X86 || !HAVE___SYNC_VAL_COMPARE_AND_SWAP)
@@ -245,7 +263,7 @@ template <typename B> struct sized_compiler_operations<2, B> {
 #endif
     }
     static inline void atomic_or(type* object, type addend) {
-#if __x86__
+#if __x86__ && !MT_VERIF_HOOKS
         asm volatile("lock; orw %0,%1"
                      : "=r" (addend), "+m" (*object) : : "cc");
         B()();
@@ -262,10 +280,14 @@ template <typename B> struct sized_compiler_operations<4, B> {
     typedef int32_t type;
 #endif
     static inline type xchg(type* object, type new_value) {
+#if MT_VERIF_HOOKS
+        return __sync_lock_test_and_set(object, new_value);
+#else
         asm volatile("xchgl %0,%1"
                      : "+r" (new_value), "+m" (*object));
         B()();
         return new_value;
+#endif
     }
     static inline type val_cmpxchg(type* object, type expected, type desired) {
 #if __x86__ && (PREFER_X86 || !HAVE___SYNC_VAL_COMPARE_AND_SWAP)
@@ -301,7 +323,7 @@ template <typename B> struct sized_compiler_operations<4, B> {
 #endif
     }
     static inline void atomic_or(type* object, type addend) {
-#if __x86__
+#if __x86__ && !MT_VERIF_HOOKS
         asm volatile("lock; orl %0,%1"
                      : "=r" (addend), "+m" (*object) : : "cc");
         B()();
@@ -321,10 +343,14 @@ template <typename B> struct sized_compiler_operations<8, B> {
 #endif
 #if __x86_64__
     static inline type xchg(type* object, type new_value) {
+#if MT_VERIF_HOOKS
+        return __sync_lock_test_and_set(object, new_value);
+#else
         asm volatile("xchgq %0,%1"
                      : "+r" (new_value), "+m" (*object));
         B()();
         return new_value;
+#endif
     }
 #endif
     static inline type val_cmpxchg(type* object, type expected, type desired) {
@@ -382,7 +408,7 @@ template <typename B> struct sized_compiler_operations<8, B> {
 #endif
 #if __x86_64__ || HAVE___SYNC_FETCH_AND_OR_8
     static inline void atomic_or(type* object, type addend) {
-#if __x86_64__
+#if __x86_64__ && !MT_VERIF_HOOKS
         asm volatile("lock; orq %0,%1"
                      : "=r" (addend), "+m" (*object) : : "cc");
         B()();
diff --git a/memdebug.hh b/memdebug.hh
index 4695906..deee929 100644
--- a/memdebug.hh
+++ b/memdebug.hh
@@ -18,6 +18,15 @@
 #include "mtcounters.hh"
 #include <stddef.h>
 
+#if MT_VERIF_HOOKS
+// Verification builds: announce allocations, RCU retirements and frees made through threadinfo.
+// Each block gets a separate header line, which pools may use as a free link.
+// (The size is 0 for a free that follows RCU.)
+extern "C" void mt_verif_alloc(void* ptr, size_t sz, int tag);
+extern "C" void mt_verif_retire(void* ptr, size_t sz, int tag);
+extern "C" void mt_verif_free(void* ptr, size_t sz, int tag);
+#endif
+
 struct memdebug {
     static inline void* make(void* ptr, size_t sz, memtag tag);
     static inline void set_landmark(void* ptr, const char* file, int line);
@@ -58,6 +67,8 @@ private:
 enum {
 #if HAVE_MEMDEBUG
     memdebug_size = sizeof(memdebug)
+#elif MT_VERIF_HOOKS
+    memdebug_size = 64
 #else
     memdebug_size = 0
 #endif
@@ -76,6 +87,12 @@ inline void* memdebug::make(void* ptr, size_t sz, memtag tag) {
         return m + 1;
     } else
         return ptr;
+#elif MT_VERIF_HOOKS
+    if (ptr) {
+        ptr = (char*) ptr + memdebug_size;
+        mt_verif_alloc(ptr, sz, tag);
+    }
+    return ptr;
 #else
     (void) sz, (void) tag;
     return ptr;
@@ -100,6 +117,9 @@ inline void* memdebug::check_free(void* ptr, size_t sz, memtag tag) {
     free_checks(m, sz, tag, false, "deallocate");
     m->magic = magic_free_value;
     return m;
+#elif MT_VERIF_HOOKS
+    mt_verif_free(ptr, sz, tag);
+    return (char*) ptr - memdebug_size;
 #else
     (void) sz, (void) tag;
     return ptr;
@@ -111,6 +131,8 @@ inline void memdebug::check_rcu(void* ptr, size_t sz, memtag tag) {
     memdebug* m = reinterpret_cast<memdebug*>(ptr) - 1;
     free_checks(m, sz, tag, false, "deallocate_rcu");
     m->after_rcu = 1;
+#elif MT_VERIF_HOOKS
+    mt_verif_retire(ptr, sz, tag);
 #else
     (void) ptr, (void) sz, (void) tag;
 #endif
@@ -122,6 +144,9 @@ inline void* memdebug::check_free_after_rcu(void* ptr, memtag tag) {
     free_checks(m, 0, tag, true, "free_after_rcu");
     m->magic = magic_free_value;
     return m;
+#elif MT_VERIF_HOOKS
+    mt_verif_free(ptr, 0, tag);
+    return (char*) ptr - memdebug_size;
 #else
     (void) tag;
     return ptr;
-- 
2.43.0


From c3e14d5770e38847faf41c6628a9b0b6134f9584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 02/72] fix: unlink a removed leaf from the leaf list only
 after its ancestors stop routing to it

remove_leaf() unlinked the empty leaf R from the leaf list before removing it
from its parent. In between, its predecessor L had no bound on its right, so a
concurrent inserter that had reached L could insert a key of R's range there
and split L at R's own ikey_bound. The parent then held two separators with
the same ikey; remove_leaf()'s search found the new leaf instead of R (its
invariant failed; without invariants, the new leaf was dropped with its keys
and the freed R stayed reachable). Unlink last, with R still locked.
---
 masstree_remove.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index b1a749d..a50e0ea 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -205,9 +205,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
     }
 
-    // Unlink leaf from doubly-linked leaf list
-    btree_leaflink<leaf_type>::unlink(leaf);
-
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
@@ -237,7 +234,9 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
             ikey = p->ikey0_[0];
         }
 
-        n->unlock();
+        if (n != leaf) {
+            n->unlock();
+        }
         n = p;
 
         if (p->nkeys_ || p->is_root()) {
@@ -250,6 +249,12 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         p->child_[0] = nullptr;
     }
 
+    // Unlink leaf from doubly-linked leaf list.
+    // Do this last. As soon as leaf is unlinked, its predecessor can accept
+    // (and split at) keys from leaf's range, so by that time no ancestor may
+    // still route that range to leaf.
+    btree_leaflink<leaf_type>::unlink(leaf);
+    leaf->unlock();
     n->unlock();
     return true;
 }
-- 
2.43.0


From bcbd1a6e72919a68f3ccbfae0dd0b87655abd3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 03/72] fix: scans use the key length they read to fetch a key
 suffix

find_initial() and find_next() read keylenx_ once, then called ksuf(p), which
reads keylenx_ again. A concurrent insert that turns the entry into a layer in
between made ksuf() abort on its precondition. Pass the length already read;
has_changed() rejects the entry afterwards.
---
 masstree_scan.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index bccf7b6..b1351db 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -202,7 +202,7 @@ int scanstackelt<P>::find_initial(H& helper, key_type& ka, bool emit_equal,
         entry = n_->lv_[kx.p];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx)) {
-            suffix = n_->ksuf(kx.p);
+            suffix = n_->ksuf(kx.p, keylenx);
             memcpy(suffixbuf, suffix.s, suffix.len);
             suffix.s = suffixbuf;
         }
@@ -267,7 +267,7 @@ int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry)
         entry = n_->lv_[kp];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx))
-            keylen = ka.assign_store_suffix(n_->ksuf(kp));
+            keylen = ka.assign_store_suffix(n_->ksuf(kp, keylenx));
 
         if (n_->has_changed(v_))
             goto changed;
-- 
2.43.0


From 92d0c2c2e8245cf15b5be5b2cd9d3f096cbb1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 04/72] fix: retire nodes and rows to RCU only once they are
 unreachable

remove_leaf(), gc_layer(), apply_remove() and the marker/replace paths of
query<R> recorded an object for RCU reclamation, with the then-current epoch,
before unlinking it. If the epoch advances between the two, a reader that
starts in the new epoch can still reach the object, but does not protect it:
once the remover leaves its critical section the next epoch tick frees the
object under the reader. Retire after unlinking.
---
 kvrow.hh           | 24 +++++++++++++++---------
 masstree_remove.hh | 12 ++++++++----
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index a92c9b2..7e89057 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -88,7 +88,7 @@ class query {
                           const Json* lastreq, threadinfo& ti);
     inline bool apply_replace(R*& value, bool found, Str new_value,
                               threadinfo& ti);
-    inline void apply_remove(R*& value, kvtimestamp_t& node_ts, threadinfo& ti);
+    inline void apply_remove(R* old_value, kvtimestamp_t& node_ts, threadinfo& ti);
 
     template <typename RR> friend class query_json_scanner;
 };
@@ -185,7 +185,6 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     }
 
     if (!found) {
-    insert:
         assign_timestamp(ti);
         value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         return true;
@@ -194,8 +193,10 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     if (row_is_marker(old_value)) {
+        assign_timestamp(ti);
+        value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         old_value->deallocate_rcu(ti);
-        goto insert;
+        return true;
     }
 
     R* updated = old_value->update(firstreq, lastreq, qtimes_.ts, ti);
@@ -227,14 +228,17 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
     }
 
     bool inserted = !found || row_is_marker(value);
+    R* old_value = found ? value : nullptr;
     if (!found) {
         assign_timestamp(ti);
     } else {
-        assign_timestamp(ti, value->timestamp());
-        value->deallocate_rcu(ti);
+        assign_timestamp(ti, old_value->timestamp());
     }
 
     value = R::create1(new_value, qtimes_.ts, ti);
+    if (old_value) {
+        old_value->deallocate_rcu(ti);
+    }
     return inserted;
 }
 
@@ -242,26 +246,28 @@ template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
+    R* old_value = found ? lp.value() : nullptr;
     if (found)
-        apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
+        apply_remove(old_value, lp.node()->phantom_epoch_[0], ti);
     lp.finish(-1, ti);
+    // old_value is unreachable only now
+    if (found)
+        old_value->deallocate_rcu(ti);
     return found;
 }
 
 template <typename R>
-inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
+inline void query<R>::apply_remove(R* old_value, kvtimestamp_t& node_ts,
                                    threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
         log->acquire();
         qtimes_.epoch = global_log_epoch;
     }
 
-    R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
         node_ts = qtimes_.ts + 2;
     }
-    old_value->deallocate_rcu(ti);
 }
 
 
diff --git a/masstree_remove.hh b/masstree_remove.hh
index a50e0ea..f0f24a2 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -105,7 +105,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         }
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
-        lf->deallocate_rcu(ti);
+        // caller frees lf once the slot that refers to it is gone
         return true;
     }
 
@@ -140,9 +140,13 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
     if (!root_->deleted()) {    // if not destroying tree...
         tcursor<P> lp(root_, s_, len_);
         bool do_remove = lp.gc_layer(ti);
+        leaf<P>* lf = do_remove ? static_cast<leaf<P>*>(lp.n_->lv_[lp.kx_.p].layer()) : nullptr;
         if (!do_remove || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
+        if (lf) {
+            lf->deallocate_rcu(ti);
+        }
         ti.deallocate(this, size(), memtag_masstree_gc);
     }
 }
@@ -186,9 +190,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         return false;
     }
 
-    // mark leaf deleted, RCU-free
+    // mark leaf deleted; it is RCU-freed below, once it is unreachable
     leaf->mark_deleted();
-    leaf->deallocate_rcu(ti);
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
     // kept up to date
@@ -236,6 +239,7 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
 
         if (n != leaf) {
             n->unlock();
+            static_cast<internode_type*>(n)->deallocate_rcu(ti);
         }
         n = p;
 
@@ -244,7 +248,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         p->mark_deleted();
-        p->deallocate_rcu(ti);
         replacement = p->child_[0];
         p->child_[0] = nullptr;
     }
@@ -255,6 +258,7 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     // still route that range to leaf.
     btree_leaflink<leaf_type>::unlink(leaf);
     leaf->unlock();
+    leaf->deallocate_rcu(ti);
     n->unlock();
     return true;
 }
-- 
2.43.0


From 87eb331612bcdf43d750cc89f9537b79849b4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 05/72] fix: free a pending layer-collection callback when the
 table is being destroyed

gc_layer_rcu_callback only freed itself when the tree was alive.
---
 masstree_remove.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index f0f24a2..2e8f284 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -147,8 +147,8 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
         if (lf) {
             lf->deallocate_rcu(ti);
         }
-        ti.deallocate(this, size(), memtag_masstree_gc);
     }
+    ti.deallocate(this, size(), memtag_masstree_gc);
 }
 
 template <typename P>
-- 
2.43.0


From eda3440596e364aaa71c3809b50d1ba130c3ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 06/72] fix: destroying a table frees layers whose root has
 split

The slot of a layer keeps pointing to the layer's old root until the next
write goes through it, so destroy() missed everything but that old root.
Also give deallocate() the callback's size instead of a pointer's.
---
 masstree_remove.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 2e8f284..6c0f030 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -347,8 +347,14 @@ void destroy_rcu_callback<P>::operator()(threadinfo& ti) {
             typename leaf_type::permuter_type perm = l->permutation();
             for (int i = 0; i != l->size(); ++i) {
                 int p = perm[i];
-                if (l->is_layer(p))
-                    enqueue(l->lv_[p].layer(), tailp);
+                if (l->is_layer(p)) {
+                    // lv_ may still refer to an old root of the layer
+                    node_base<P>* layer = l->lv_[p].layer();
+                    while (!layer->is_root()) {
+                        layer = layer->maybe_parent();
+                    }
+                    enqueue(layer, tailp);
+                }
             }
             l->deallocate(ti);
         } else {
@@ -360,7 +366,7 @@ void destroy_rcu_callback<P>::operator()(threadinfo& ti) {
             in->deallocate(ti);
         }
     }
-    ti.deallocate(this, sizeof(this), memtag_masstree_gc);
+    ti.deallocate(this, sizeof(*this), memtag_masstree_gc);
 }
 
 template <typename P>
-- 
2.43.0


From fdbdc0048a7eba18f00f0054fb2934bbd70905e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 07/72] fix: scans report every leaf they pass to visit_leaf

A scan called visit_leaf only for leaves in which, or after which, it found
something to emit.  An empty leftmost leaf (of a layer entered by a forward
scan, or of any layer passed by a reverse scan) was skipped, so an insertion
into it changed none of the versions the scan had recorded.
---
 masstree_scan.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index b1351db..e852caf 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -350,10 +350,11 @@ int basic_table<P>::scan(H helper,
             break;
 
         case mystack_type::scan_find_next:
+            // Visit the leaf before find_next() moves on: a leaf with nothing
+            // to emit is still part of the scanned range.
+            scanner.visit_leaf(stack, ka, ti);
         find_next:
             state = stack.find_next(helper, ka, entry);
-            if (state != mystack_type::scan_up)
-                scanner.visit_leaf(stack, ka, ti);
             break;
 
         case mystack_type::scan_up:
-- 
2.43.0


From 1d2b58583c5bd4ec671333f6faf53a009badfa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:08 +0000
Subject: [PATCH 08/72] fix: logs record the wake commands they miss

A log thread that saw another log wake up pretended it had recorded the wake
command without writing one. If the woken log's flush was slow, a crash could
then recover updates logged later elsewhere without the earlier one.
---
 log.cc | 35 +++++++++++++++++++++++++----------
 log.hh |  1 +
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/log.cc b/log.cc
index 15d9553..24ea405 100644
--- a/log.cc
+++ b/log.cc
@@ -248,20 +248,18 @@ void* loginfo::run() {
         uint32_t nb = 0;
         acquire();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
-            quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
-        // notification.
-        if (!recovering && pos_ == 0 && !quiescent_epoch_
+        // notification. A quiescent log does this again if another log has
+        // woken up.
+        if (!recovering && pos_ == 0
+            && (!quiescent_epoch_ || wake_epoch_ != we)
             && ge != log_epoch_ && ge != we && !f_.waiting_) {
-            quiescent_epoch_ = log_epoch_ = ge;
             char *p = buf_;
+            if (wake_epoch_ != we)
+                p = store_wake(p, we);
+            quiescent_epoch_ = log_epoch_ = ge;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
-            if (log_epoch_ == wake_epoch_)
-                p += logrec_base::store(p, logcmd_wake);
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
         }
@@ -290,12 +288,25 @@ void* loginfo::run() {
 
 
 
+// Record that another log woke up in epoch `we`. The command must be in that
+// epoch, not a later one: a quiescent log blocks the recovery of every epoch
+// from its first missed wake command on.
+char* loginfo::store_wake(char* p, kvepoch_t we) {
+    if (log_epoch_ < we) {
+        log_epoch_ = we;
+        p += logrec_epoch::store(p, logcmd_epoch, we);
+    }
+    wake_epoch_ = we;
+    p += logrec_base::store(p, logcmd_wake);
+    return p;
+}
+
 // log entry format: see log.hh
 void loginfo::record(int command, const query_times& qtimes,
                      Str key, Str value) {
     assert(!recovering);
     size_t n = logrec_kvdelta::size(key.len, value.len)
-        + logrec_epoch::size() + logrec_base::size();
+        + 2 * logrec_epoch::size() + logrec_base::size();
     waitlist wait = { &wait };
     int stalls = 0;
     while (1) {
@@ -303,6 +314,10 @@ void loginfo::record(int command, const query_times& qtimes,
             && (wait.next == &wait || f_.waiting_ == &wait)) {
             kvepoch_t we = global_wake_epoch;
 
+            // Potentially record a wake command we missed.
+            if (!quiescent_epoch_ && we != wake_epoch_ && we < qtimes.epoch)
+                pos_ = store_wake(buf_ + pos_, we) - buf_;
+
             // Potentially record a new epoch.
             if (qtimes.epoch != log_epoch_) {
                 log_epoch_ = qtimes.epoch;
diff --git a/log.hh b/log.hh
index 0a7212c..a116fe9 100644
--- a/log.hh
+++ b/log.hh
@@ -84,6 +84,7 @@ class loginfo {
     loginfo(logset* ls, int logindex);
     ~loginfo();
     void* run();
+    char* store_wake(char* p, kvepoch_t we);
     static void* trampoline(void*);
 
     friend class logset;
-- 
2.43.0


From 5d04d0f9d3c8ee4c3b05fcbae046d30850eb1d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:34 +0000
Subject: [PATCH 09/72] fix: the first log records after recovery are wakeups

Recovery leaves logs quiescent on disk, but the new session believed no log
had ever been quiescent, so updates in the logs that reached the disk first
could be recovered without earlier ones from a log that did not.
---
 mtd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index 0118285..c32b7ea 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1490,6 +1490,8 @@ recover(threadinfo *)
 #endif
 
   global_log_epoch = rec_replay_max_epoch.next_nonzero();
+  // Logs may be quiescent on disk: the first record in each must be a wakeup.
+  global_wake_epoch = global_log_epoch;
 
   always_assert(pthread_mutex_unlock(&rec_mu) == 0);
   recovering = false;
-- 
2.43.0


From 1fbb95d897e5be177789034cb95ec26bd93d4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:47 +0000
Subject: [PATCH 10/72] fix: give every log an epoch before accepting updates

A log that had never been flushed looked to recovery like one with nothing to
flush, so a crash soon after the first boot could lose updates in that log but
recover later ones from others. Recovery also read uninitialized information
for such logs.
---
 log.cc | 24 ++++++++++++++++++++++++
 log.hh |  2 ++
 2 files changed, 26 insertions(+)

diff --git a/log.cc b/log.cc
index 24ea405..57342e6 100644
--- a/log.cc
+++ b/log.cc
@@ -878,5 +878,29 @@ logreplay::replay(int which, threadinfo *ti)
         ti->rcu_stop();
         printf("recovered %" PRIu64 " records from %s\n", nr, filename_.c_str());
     }
+    replay_initialize(rec_replay_max_epoch.next_nonzero());
     inactive();
 }
+
+// Make sure the log contains at least an epoch. Otherwise, if this log's first
+// flush were lost in a crash, recovery could not tell that updates are missing.
+void
+logreplay::replay_initialize(kvepoch_t epoch)
+{
+    int fd = open(filename_.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0666);
+    always_assert(fd >= 0);
+    struct stat sb;
+    int r = fstat(fd, &sb);
+    always_assert(r == 0);
+    if (sb.st_size == 0) {
+        char buf[logrec_epoch::size() + logrec_base::size()], *p = buf;
+        p += logrec_epoch::store(p, logcmd_epoch, epoch);
+        p += logrec_base::store(p, logcmd_quiesce);
+        ssize_t w = safe_write(fd, buf, p - buf);
+        always_assert(w == p - buf);
+        r = fsync(fd);
+        always_assert(r == 0);
+    }
+    r = close(fd);
+    always_assert(r == 0);
+}
diff --git a/log.hh b/log.hh
index a116fe9..951b779 100644
--- a/log.hh
+++ b/log.hh
@@ -142,6 +142,7 @@ class logreplay {
         kvepoch_t wake_epoch;
         kvepoch_t min_post_quiescent_wake_epoch;
         bool quiescent;
+        info_type() : quiescent(false) {}
     };
     info_type info() const;
     kvepoch_t min_post_quiescent_wake_epoch(kvepoch_t quiescent_epoch) const;
@@ -158,6 +159,7 @@ class logreplay {
                              threadinfo *ti);
     int replay_truncate(size_t len);
     int replay_copy(const char *tmpname, const char *first, const char *last);
+    void replay_initialize(kvepoch_t epoch);
 };
 
 enum { REC_NONE, REC_CKP, REC_LOG_TS, REC_LOG_ANALYZE_WAKE,
-- 
2.43.0


From 3039a40bb9b86d4af09623d5a935a98a43081c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 11/72] fix: replay removes as removes

Log replay parsed a logged remove as if it were a put, so recovery aborted
(or built a garbage row) once any key had been removed.
---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 57342e6..6d30173 100644
--- a/log.cc
+++ b/log.cc
@@ -565,7 +565,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From 81176b64f0ab2aa86caf5a624fbe565962140cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:02 +0000
Subject: [PATCH 12/72] fix: replay updates to the empty key

Records whose key is empty were taken for records without a key.
---
 log.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/log.cc b/log.cc
index 6d30173..165a8b1 100644
--- a/log.cc
+++ b/log.cc
@@ -741,12 +741,11 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         // correctness of checkpoint scheme.
         assert(repbegin);
         repend = nextpos;
-        if (lr.key.len) { // skip empty entry
-            if (lr.command == logcmd_put
-                || lr.command == logcmd_replace
-                || lr.command == logcmd_modify
-                || lr.command == logcmd_remove)
-                lr.run(tree->table(), jrepo, *ti);
+        if (lr.command == logcmd_put
+            || lr.command == logcmd_replace
+            || lr.command == logcmd_modify
+            || lr.command == logcmd_remove) {
+            lr.run(tree->table(), jrepo, *ti);
             ++nr;
             if (nr % 100000 == 0)
                 fprintf(stderr,
-- 
2.43.0


From f61ba18698c30ee1f993ccd3a7fa8ae7f3172718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:02 +0000
Subject: [PATCH 13/72] fix: removing a recovered remove marker removes nothing

Recovery leaves markers for keys that were removed. A later remove of such a
key reported that it had removed it, and logged the remove.
---
 kvrow.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kvrow.hh b/kvrow.hh
index 7e89057..bc84fe3 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -247,6 +247,10 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
     R* old_value = found ? lp.value() : nullptr;
+    if (found && row_is_marker(old_value)) {
+        lp.finish(0, ti);
+        return false;
+    }
     if (found)
         apply_remove(old_value, lp.node()->phantom_epoch_[0], ti);
     lp.finish(-1, ti);
-- 
2.43.0


From f3c32777ee316867c1494b88198ee58e39b9f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 14/72] fix: ignore a torn epoch record at the end of a log

A torn epoch record could be read as epoch 0 or as an epoch in the past, and
could make a quiescent log look like one that missed updates. Recovery then
discarded updates that had long been on disk.
---
 log.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/log.cc b/log.cc
index 165a8b1..57df6aa 100644
--- a/log.cc
+++ b/log.cc
@@ -88,6 +88,11 @@ struct logrec_epoch {
         const logrec_epoch *lr = reinterpret_cast<const logrec_epoch *>(buf);
         return lr->size_ >= sizeof(*lr);
     }
+    // Epochs are nonzero and do not decrease; one that does was torn.
+    bool valid(kvepoch_t last_epoch) const {
+        return size_ >= sizeof(*this) && epoch_
+            && (!last_epoch || !(epoch_ < last_epoch));
+    }
 };
 
 struct logrec_kv {
@@ -496,7 +501,7 @@ logrecord::extract(const char *buf, const char *end)
         val.assign(lk->buf_ + lk->keylen_, lk->size_ - sizeof(*lk) - lk->keylen_);
     } else if (command == logcmd_epoch) {
         const logrec_epoch *lre = reinterpret_cast<const logrec_epoch *>(buf);
-        if (unlikely(lre->size_ < logrec_epoch::size()))
+        if (unlikely(!lre->valid(epoch)))
             goto fail;
         epoch = lre->epoch_;
     }
@@ -634,11 +639,10 @@ logreplay::info() const
             break;
         } else if (unlikely(buf + lr->size_ > end))
             break;
-        x.quiescent = lr->command_ == logcmd_quiesce;
         if (lr->command_ == logcmd_epoch) {
             const logrec_epoch *lre =
                 reinterpret_cast<const logrec_epoch *>(buf);
-            if (unlikely(lre->size_ < sizeof(*lre))) {
+            if (unlikely(!lre->valid(x.last_epoch))) {
                 log_corrupt = true;
                 break;
             }
@@ -659,6 +663,7 @@ logreplay::info() const
             break;
         }
 #endif
+        x.quiescent = lr->command_ == logcmd_quiesce;
         buf += lr->size_;
         ++nr;
     }
@@ -687,7 +692,7 @@ logreplay::min_post_quiescent_wake_epoch(kvepoch_t quiescent_epoch) const
         if (lr->command_ == logcmd_epoch) {
             const logrec_epoch *lre =
                 reinterpret_cast<const logrec_epoch *>(buf);
-            if (unlikely(lre->size_ < sizeof(*lre))) {
+            if (unlikely(!lre->valid(e))) {
                 log_corrupt = true;
                 break;
             }
-- 
2.43.0


From 0b51458935865ce7e6db67e0d8e1e6f295d5e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 15/72] fix: recover from a checkpoint begun in a log's first
 epoch

A checkpoint taken in the first epoch of some log could not be recovered: the
server aborted on every restart. The log has all of that epoch's records.
---
 log.cc | 3 +--
 mtd.cc | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/log.cc b/log.cc
index 57df6aa..794310a 100644
--- a/log.cc
+++ b/log.cc
@@ -726,8 +726,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
             break;
         }
         if (lr.command == logcmd_epoch) {
-            if ((min_epoch && lr.epoch < min_epoch)
-                || (!min_epoch && !repbegin))
+            if ((min_epoch && lr.epoch < min_epoch) || !repbegin)
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
                 always_assert(repbegin);
diff --git a/mtd.cc b/mtd.cc
index c32b7ea..c0477f0 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1460,7 +1460,7 @@ recover(threadinfo *)
 
   // Checks.
   if (rec_ckp_min_epoch) {
-      always_assert(rec_ckp_min_epoch > max_first_epoch);
+      always_assert(rec_ckp_min_epoch >= max_first_epoch);
       always_assert(rec_ckp_min_epoch < rec_replay_max_epoch);
       always_assert(rec_ckp_max_epoch < rec_replay_max_epoch);
       fprintf(stderr, "replay [%" PRIu64 ",%" PRIu64 ") from [%" PRIu64 ",%" PRIu64 ") into ckp [%" PRIu64 ",%" PRIu64 "]\n",
-- 
2.43.0


From 8fc2c78b186df90963caff77ed75304fc3c16ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 16/72] fix: do not commit a checkpoint before every log has
 been flushed

A log with nothing flushed yet made all logs count as flushed. After a crash
the server then aborted on every restart, because the logs ended before the
checkpoint did.
---
 mtd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index c0477f0..bba4d4c 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1597,7 +1597,7 @@ max_flushed_epoch()
     for (int i = 0; i < nlogger; ++i) {
         loginfo& log = logs->log(i);
         kvepoch_t fe = log.quiescent() ? ge : log.flushed_epoch();
-        if (!mfe || fe < mfe)
+        if (i == 0 || fe < mfe)
             mfe = fe;
     }
     return mfe;
@@ -1642,7 +1642,7 @@ void* conc_checkpointer(void* x) {
 
       if (uncommitted_ckp) {
           kvepoch_t mfe = max_flushed_epoch();
-          if (!mfe || mfe > uncommitted_ckp["max_epoch"].to_u64()) {
+          if (mfe > uncommitted_ckp["max_epoch"].to_u64()) {
               commit_checkpoint(uncommitted_ckp);
               uncommitted_ckp = Json();
           }
-- 
2.43.0


From 5e1a2c449ae8ac7132a4658260b2c80364215767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 17/72] fix: a log that missed a wakeup is not flushed up to
 now

A checkpoint could be committed while a quiescent log had yet to record that
another had woken up. After a crash the server then aborted on every restart,
because the epochs from that wakeup on could not be replayed.
---
 log.cc | 2 +-
 log.hh | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/log.cc b/log.cc
index 794310a..b2f25f4 100644
--- a/log.cc
+++ b/log.cc
@@ -334,7 +334,7 @@ void loginfo::record(int command, const query_times& qtimes,
                 // quiescent for a while. If the quiescence marker has been
                 // flushed, then all epochs less than the query epoch are
                 // effectively on disk.
-                if (flushed_epoch_ == quiescent_epoch_)
+                if (quiescent())
                     flushed_epoch_ = qtimes.epoch;
                 quiescent_epoch_ = 0;
                 while (we < qtimes.epoch)
diff --git a/log.hh b/log.hh
index 951b779..87fafc7 100644
--- a/log.hh
+++ b/log.hh
@@ -189,7 +189,8 @@ inline kvepoch_t loginfo::flushed_epoch() const {
 }
 
 inline bool loginfo::quiescent() const {
-    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_;
+    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_
+        && wake_epoch_ == global_wake_epoch;
 }
 
 inline int logset::size() const {
-- 
2.43.0


From 15cc477265d75d1451bf28c712f21897867aee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 18/72] fix: checkpoint pivots are nonempty and in order

When a leaf on the way was empty, the threads of a checkpoint were given
overlapping key ranges. The keys in the overlap were saved twice, and the
server aborted on every restart.
---
 query_masstree.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/query_masstree.cc b/query_masstree.cc
index d514d9a..9238249 100644
--- a/query_masstree.cc
+++ b/query_masstree.cc
@@ -159,8 +159,16 @@ void query_table<P>::findpivots(Str *pv, int npv) const
     char *cmaxk = (char *)malloc(MASSTREE_MAXKEYLEN);
     memset(cmaxk, 255, MASSTREE_MAXKEYLEN);
     pv[npv - 1].assign(cmaxk, MASSTREE_MAXKEYLEN);
-    for (int i = 1; i < npv - 1; i++)
+    for (int i = npv - 2; i > 0; --i) {
         pv[i] = findpv(table_.root(), i, npv - 1);
+        // pivots must be nonempty and in order
+        if (!pv[i] || pv[i + 1] < pv[i]) {
+            free(const_cast<char*>(pv[i].s));
+            char* x = (char*) malloc(pv[i + 1].len);
+            memcpy(x, pv[i + 1].s, pv[i + 1].len);
+            pv[i].assign(x, pv[i + 1].len);
+        }
+    }
 }
 
 namespace {
-- 
2.43.0


From 833d7691a0f40433d1a554a9145e8aecd331f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:06 +0000
Subject: [PATCH 19/72] fix: a get of a missing key echoed the request as if it
 were a value

---
 kvrow.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index bc84fe3..7cd2a79 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -127,12 +127,12 @@ void query<R>::run_get(T& table, Json& req, threadinfo& ti) {
     bool found = lp.find_unlocked(ti);
     if (found && row_is_marker(lp.value()))
         found = false;
+    f_.clear();
+    for (int i = 3; i < req.size(); ++i) {
+        f_.push_back(req[i].as_i());
+    }
+    req.resize(2);
     if (found) {
-        f_.clear();
-        for (int i = 3; i != req.size(); ++i) {
-            f_.push_back(req[i].as_i());
-        }
-        req.resize(2);
         emit_fields(lp.value(), req, ti);
     }
 }
-- 
2.43.0


From 71d0a5a266c8abeed865aee783b496de26aa5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 20/72] fix: a scan for no pairs stopped the server

---
 kvrow.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kvrow.hh b/kvrow.hh
index 7cd2a79..5b28c83 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -323,7 +323,10 @@ class query_json_scanner {
 
 template <typename R> template <typename T>
 void query<R>::run_scan(T& table, Json& request, threadinfo& ti) {
-    assert(request[3].as_i() > 0);
+    if (request[3].as_i() <= 0) {
+        request.resize(2);
+        return;
+    }
     f_.clear();
     for (int i = 4; i != request.size(); ++i) {
         f_.push_back(request[i].as_i());
-- 
2.43.0


From bcf75c8f0cf522bfe21123d12dd50cfd78bdc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 21/72] fix: a client that reset its connection killed the
 server

---
 mtd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index bba4d4c..9cfe970 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -703,6 +703,8 @@ main(int argc, char *argv[])
 
   // for -pg profiling
   signal(SIGINT, catchint);
+  // a client that goes away must not take the server with it
+  signal(SIGPIPE, SIG_IGN);
 
   // log epoch starts at 1
   global_log_epoch = 1;
-- 
2.43.0


From de0abb2c2f4895d4f17043c5b49df04985d1cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 22/72] fix: logged puts read the key from freed memory

---
 mtd.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 9cfe970..d7e52dc 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -970,11 +970,10 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         q.run_get(tree->table(), request, ti);
     } else if (command == Cmd_Put && request.size() > 3
                && (request.size() % 2) == 1) { // insert or update
-        Str key(request[2].as_s());
+        String key = request[2].as_s(); // outlives `request[2]`
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
-        request[2] = q.run_put(tree->table(), request[2].as_s(),
-                               req, end_req, ti);
+        request[2] = q.run_put(tree->table(), key, req, end_req, ti);
         if (ti.logger() && request_str) {
             // use the client's parsed version of the request
             msgpack::parser mp(request_str.data());
@@ -984,7 +983,8 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
-        Str key(request[2].as_s()), value(request[3].as_s());
+        String key = request[2].as_s(); // outlives `request[2]`
+        Str value(request[3].as_s());
         request[2] = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
-- 
2.43.0


From 650f6f04878428d448d24d38cc70df7003344798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 23/72] fix: replies were written from rows that could be freed
 meanwhile

---
 mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index d7e52dc..2dd669b 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1158,9 +1158,10 @@ void* tcp_threadfunc(void* x) {
                     goto closed;
                 ti->rcu_start();
                 ret = onego(q, request, c->recent_string(xposition), *ti);
-                ti->rcu_stop();
+                // `request` may refer to rows
                 msgpack::unparse(*c->kvout, request);
                 request.clear();
+                ti->rcu_stop();
                 if (likely(ret >= 0)) {
                     if (c->check(0))
                         ready.push_back(c);
-- 
2.43.0


From d07cb1c63cf09b7a8a51d49f4a59e0f020019357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 24/72] fix: a truncated datagram was completed with the
 previous one's bytes

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 2dd669b..3fb0d0d 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1216,7 +1216,7 @@ void* udp_threadfunc(void* x) {
     kvout_reset(kvout);
 
     parser.reset();
-    unsigned consumed = parser.consume(buf.data(), buf.length(), buf);
+    unsigned consumed = parser.consume(buf.data(), cc, buf);
 
     // Fail if we received a partial request
     if (parser.success() && parser.result().is_a()) {
-- 
2.43.0


From ac101a1ec37dcf0dc4b1e333fcb9a791237a8276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 25/72] fix: the client sent column lists in a form the server
 does not accept

---
 mtclient.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mtclient.hh b/mtclient.hh
index 3413166..d243c2f 100644
--- a/mtclient.hh
+++ b/mtclient.hh
@@ -89,11 +89,12 @@ class KVConn {
         send();
     }
     void sendget(Str key, const std::vector<unsigned>& f, unsigned seq) {
-        j_.resize(4);
+        j_.resize(3 + f.size());
         j_[0] = seq;
         j_[1] = Cmd_Get;
         j_[2] = String::make_stable(key);
-        j_[3] = Json(f.begin(), f.end());
+        for (size_t i = 0; i != f.size(); ++i)
+            j_[3 + i] = f[i];
         send();
     }
 
@@ -132,12 +133,13 @@ class KVConn {
     }
     void sendscan(Str firstkey, const std::vector<unsigned>& f,
                   int numpairs, unsigned seq) {
-        j_.resize(5);
+        j_.resize(4 + f.size());
         j_[0] = seq;
         j_[1] = Cmd_Scan;
         j_[2] = String::make_stable(firstkey);
         j_[3] = numpairs;
-        j_[4] = Json(f.begin(), f.end());
+        for (size_t i = 0; i != f.size(); ++i)
+            j_[4 + i] = f[i];
         send();
     }
 
-- 
2.43.0


From 4fcbed8cd274af1782e4afe700cd604681416962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 26/72] fix: puts logged from their parsed form could not be
 replayed

---
 log.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/log.cc b/log.cc
index b2f25f4..8d8185b 100644
--- a/log.cc
+++ b/log.cc
@@ -391,7 +391,6 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
-- 
2.43.0


From 03f19de80650ca0bbbe22ca8066c934deace2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:05 +0000
Subject: [PATCH 27/72] fix: an answer too long for a datagram stopped the
 server

---
 mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 3fb0d0d..a5452d0 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1227,7 +1227,8 @@ void* udp_threadfunc(void* x) {
             cu << parser.result();
             cc = sendto(s, sa.data(), sa.length(), 0,
                         (struct sockaddr*) &sin, sinlen);
-            always_assert(cc == (ssize_t) sa.length());
+            if (cc != (ssize_t) sa.length())
+                perror("udpgo write"); // e.g., too long for a datagram
         }
         ti->rcu_stop();
     } else
-- 
2.43.0


From 3564acaccec0089fdbb6d1dc0ff8e6aa1dd2283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 28/72] fix: 64-bit sequence numbers spoiled the log records of
 their puts

---
 msgpack.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msgpack.hh b/msgpack.hh
index 8b84e34..c04e911 100644
--- a/msgpack.hh
+++ b/msgpack.hh
@@ -475,6 +475,9 @@ class parser {
             else if (*s_ == format::fuint32 || *s_ == format::fint32
                      || *s_ == format::ffloat32)
                 s_ += 5;
+            else if (*s_ == format::fuint64 || *s_ == format::fint64
+                     || *s_ == format::ffloat64)
+                s_ += 9;
             else if (*s_ == format::fstr8 || *s_ == format::fbin8)
                 s_ += 2 + s_[1];
             else if (*s_ == format::fstr16 || *s_ == format::fbin16)
-- 
2.43.0


From 9d0c5bd720aedcac9691cd714c74c8f5ff79d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:16 +0000
Subject: [PATCH 29/72] fix: a handshake that arrived in pieces was refused

---
 mtd.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index a5452d0..f68c9aa 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -835,7 +835,13 @@ main(int argc, char *argv[])
 
     // Complete handshake.
     char buf[BUFSIZ];
-    ssize_t nr = read(s1, buf, BUFSIZ);
+    msgpack::streaming_parser sp;
+    ssize_t nr, consumed = 0;
+    while ((nr = read(s1, buf, BUFSIZ)) > 0) {
+        consumed = sp.consume(buf, nr);
+        if (sp.done())
+            break;
+    }
     if (nr == -1) {
         perror("read");
     kill_connection:
@@ -843,8 +849,7 @@ main(int argc, char *argv[])
         continue;
     }
 
-    msgpack::streaming_parser sp;
-    if (nr == 0 || sp.consume(buf, nr) != (size_t) nr
+    if (nr == 0 || consumed != nr
         || !sp.result().is_a() || sp.result().size() < 2
         || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake) {
         fprintf(stderr, "failed handshake\n");
-- 
2.43.0


From fd212442f2038667507b441a77049d3d84b4ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:22 +0000
Subject: [PATCH 30/72] fix: changing part of a string row read past the old
 row

---
 value_string.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/value_string.hh b/value_string.hh
index dc35c40..7d0d2f7 100644
--- a/value_string.hh
+++ b/value_string.hh
@@ -144,7 +144,9 @@ value_string* value_string::update(const Json* first, const Json* last,
     value_string* row = (value_string*) ti.allocate(shallow_size(vallen), memtag_value);
     row->ts_ = ts;
     row->vallen_ = vallen;
+    cut = std::min(cut, vallen_);
     memcpy(row->s_, s_, cut);
+    memset(row->s_ + cut, 0, vallen - cut);
     for (; first != last; first += 2) {
         Str val = first[1].as_s();
         memcpy(row->s_ + index_offset(first[0].as_u()), val.data(), val.length());
-- 
2.43.0


From 9b0e4042c714dff0d1131d44571519caa3965d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:22 +0000
Subject: [PATCH 31/72] fix: a put of no columns read before its column list

---
 value_array.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/value_array.cc b/value_array.cc
index 879f0d1..e20be32 100644
--- a/value_array.cc
+++ b/value_array.cc
@@ -30,7 +30,9 @@ value_array* value_array::make_sized_row(int ncol, kvtimestamp_t ts,
 value_array* value_array::update(const Json* first, const Json* last,
                                  kvtimestamp_t ts, threadinfo& ti) const {
     masstree_precondition(ts >= ts_);
-    unsigned ncol = std::max(int(ncol_), int(last[-2].as_i()) + 1);
+    unsigned ncol = ncol_;
+    if (first != last)
+        ncol = std::max(int(ncol_), int(last[-2].as_i()) + 1);
     value_array* row = (value_array*) ti.allocate(shallow_size(ncol), memtag_value);
     row->ts_ = ts;
     row->ncol_ = ncol;
-- 
2.43.0


From 5a4585502904a074c6ace16639222e5ab8ee41da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 32/72] fix: a MessagePack length of 2^31 or more moved the
 parser backwards

---
 msgpack.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msgpack.cc b/msgpack.cc
index 4b8859b..ee1d290 100644
--- a/msgpack.cc
+++ b/msgpack.cc
@@ -149,18 +149,24 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             case format::fbin32 - format::fnull:
             case format::fstr32 - format::fnull:
                 n = read_in_net_order<uint32_t>(first - 4);
+                if (n < 0)
+                    goto error;
                 goto raw;
             case format::farray16 - format::fnull:
                 n = read_in_net_order<uint16_t>(first - 2);
                 goto array;
             case format::farray32 - format::fnull:
                 n = read_in_net_order<uint32_t>(first - 4);
+                if (n < 0)
+                    goto error;
                 goto array;
             case format::fmap16 - format::fnull:
                 n = read_in_net_order<uint16_t>(first - 2);
                 goto map;
             case format::fmap32 - format::fnull:
                 n = read_in_net_order<uint32_t>(first - 4);
+                if (n < 0)
+                    goto error;
                 goto map;
             }
         }
-- 
2.43.0


From 1b0a3dad248f21815d07737aad21f2db00b6e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:06 +0000
Subject: [PATCH 33/72] fix: the JSON parser read past a piece ending in a
 UTF-8 lead byte

---
 json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.cc b/json.cc
index 68a0888..4aa4574 100644
--- a/json.cc
+++ b/json.cc
@@ -930,7 +930,7 @@ Json::streaming_parser::consume_string(const uint8_t* first,
             int want = 2 + (*first >= 0xE0) + (*first >= 0xF0);
             int n = last - first < want ? last - first : want;
             if ((n > 1 && unlikely(!in_range(first[1], 0x80, 0xC0)))
-                || (*first >= 0xE0
+                || (n > 1 && *first >= 0xE0
                     && ((*first == 0xE0 && first[1] < 0xA0) /* overlong */
                         || (*first == 0xED && first[1] >= 0xA0) /* surrogate */
                         || (*first == 0xF0 && first[1] < 0x90) /* overlong */
-- 
2.43.0


From 38098e34c78d9ffcd061594b856a808d7ebb191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:06 +0000
Subject: [PATCH 34/72] fix: lower-case hex digits were refused in low
 surrogates

---
 json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.cc b/json.cc
index 4aa4574..a983f96 100644
--- a/json.cc
+++ b/json.cc
@@ -1056,7 +1056,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                     ch2 = 16 * ch2 + first[i] - '0';
                 else if (in_range(first[i], 'A', 'F' + 1))
                     ch2 = 16 * ch2 + first[i] - 'A' + 10;
-                else if (in_range(first[i], 'A', 'F' + 1))
+                else if (in_range(first[i], 'a', 'f' + 1))
                     ch2 = 16 * ch2 + first[i] - 'a' + 10;
                 else
                     return error_at(&first[i]);
-- 
2.43.0


From d3dd1b8a1a1aa9e0bff5107817ff386fcdbee6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:06 +0000
Subject: [PATCH 35/72] fix: U+0800 to U+7FFF were written as malformed
 two-byte UTF-8

---
 straccum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/straccum.cc b/straccum.cc
index f82c153..3027765 100644
--- a/straccum.cc
+++ b/straccum.cc
@@ -203,7 +203,7 @@ StringAccum::hard_append_cstr(const char *cstr)
 bool
 StringAccum::append_utf8_hard(int ch)
 {
-    if (ch < 0x8000) {
+    if (ch < 0x800) {
         append(static_cast<char>(0xC0 | (ch >> 6)));
         goto char1;
     } else if (ch < 0x10000) {
-- 
2.43.0


From 9fff6892cb47f999967b369c89a4980e3cf33e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:07 +0000
Subject: [PATCH 36/72] fix: only one space after a JSON text was accepted

---
 json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.cc b/json.cc
index a983f96..64314d1 100644
--- a/json.cc
+++ b/json.cc
@@ -684,8 +684,8 @@ Json::assign_parse(const char* first, const char* last, const String& str)
     using std::swap;
     Json::streaming_parser jsp;
     first = jsp.consume(first, last, str, true);
-    if (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
-                          || *first == '\t'))
+    while (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
+                             || *first == '\t'))
         ++first;
     if (first == last && jsp.success()) {
         swap(jsp.result(), *this);
-- 
2.43.0


From f10e5e9ec37c0d141704c639bc09e28cfe03965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:07 +0000
Subject: [PATCH 37/72] fix: a JSON integer that does not fit 64 bits silently
 wrapped

---
 json.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/json.cc b/json.cc
index 64314d1..a2c429c 100644
--- a/json.cc
+++ b/json.cc
@@ -1193,24 +1193,26 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         }
         if (prev + 1 == first)
             j = Json(int(*prev - '0'));
-        else if (position < 4) {
-            bool negative = *prev == '-';
-            prev += int(negative);
-            uint64_t x = 0;
-            while (prev != first) {
-                x = (x * 10) + *prev - '0';
-                ++prev;
+        else {
+            if (position < 4) {
+                bool negative = *prev == '-';
+                const uint8_t* s = prev + int(negative);
+                uint64_t x = 0, max = negative ? uint64_t(1) << 63 : ~uint64_t(0);
+                while (s != first && x <= (max - (*s - '0')) / 10) {
+                    x = (x * 10) + *s - '0';
+                    ++s;
+                }
+                if (s == first) {
+                    j = negative ? Json(int64_t(-x)) : Json(x);
+                    goto done;
+                }
             }
-            if (negative)
-                j = Json(-int64_t(x));
-            else
-                j = Json(x);
-        } else {
             if (!(state_ & st_partlenmask))
                 str_ = String(prev, first);
             double x = strtod(str_.c_str(), 0);
             j = Json(x);
         }
+    done:
         state_ &= ~st_partmask;
         str_ = String();
         return last;
-- 
2.43.0


From 441ae9d1f214d542325c2da9ffc87b872a635601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:37 +0000
Subject: [PATCH 38/72] fix: Json::empty treated the characters of a constant
 string as an array

---
 json.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.hh b/json.hh
index 9238ba3..d95aad4 100644
--- a/json.hh
+++ b/json.hh
@@ -1746,7 +1746,7 @@ inline bool Json::is_primitive() const {
     object. */
 inline bool Json::empty() const {
     return unsigned(u_.x.type) < unsigned(j_int)
-        && (!u_.x.x || u_.x.x->size == 0);
+        && (!u_.x.x || (u_.x.type != j_null && u_.x.x->size == 0));
 }
 /** @brief Return the number of elements in this complex Json.
     @pre is_array() || is_object() || is_null() */
-- 
2.43.0


From 0b7ec6d1f62edf0a1c2fc21b4ba60f56f8449b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:37 +0000
Subject: [PATCH 39/72] fix: assigning a part of a Json to that Json used freed
 memory

---
 json.hh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/json.hh b/json.hh
index d95aad4..462391d 100644
--- a/json.hh
+++ b/json.hh
@@ -2924,12 +2924,13 @@ inline Json Json::parse(const char *first, const char *last) {
 // Assignment
 
 inline Json& Json::operator=(const Json& x) {
-    if (x.u_.x.type < 0)
-        x.u_.str.ref();
-    else if (x.u_.x.x && (x.u_.x.type == j_array || x.u_.x.type == j_object))
-        x.u_.x.x->ref();
+    rep_type u = x.u_;
+    if (u.x.type < 0)
+        u.str.ref();
+    else if (u.x.x && (u.x.type == j_array || u.x.type == j_object))
+        u.x.x->ref();
     deref();
-    u_ = x.u_;
+    u_ = u;
     return *this;
 }
 
@@ -3002,9 +3003,10 @@ inline Json& Json::operator=(bool x) {
 }
 
 inline Json& Json::operator=(const String& x) {
+    String::rep_type str = x.internal_rep();
+    str.ref();
     deref();
-    u_.str = x.internal_rep();
-    u_.str.ref();
+    u_.str = str;
     return *this;
 }
 /** @endcond never */
-- 
2.43.0


From 1aa2b7204acbf53a918bac5ea59c1f97de62e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:37 +0000
Subject: [PATCH 40/72] fix: storing a part of a Json in that Json could read
 moved memory or make a cycle

---
 json.hh | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/json.hh b/json.hh
index 462391d..15b63fd 100644
--- a/json.hh
+++ b/json.hh
@@ -1333,16 +1333,19 @@ class Json_object_proxy : public Json_proxy_base<Json_object_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json copy(x);
+        return value() = std::move(copy);
     }
     Json& operator=(Json&& x) {
         return value() = std::move(x);
     }
     Json& operator=(const Json_object_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json copy(x.cvalue());
+        return value() = std::move(copy);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json copy(x.cvalue());
+        return value() = std::move(copy);
     }
     Json_object_proxy(T& ref, const String& key)
         : base_(ref), key_(key) {
@@ -1361,16 +1364,19 @@ class Json_object_str_proxy : public Json_proxy_base<Json_object_str_proxy<T> >
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json copy(x);
+        return value() = std::move(copy);
     }
     Json& operator=(Json&& x) {
         return value() = std::move(x);
     }
     Json& operator=(const Json_object_str_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json copy(x.cvalue());
+        return value() = std::move(copy);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json copy(x.cvalue());
+        return value() = std::move(copy);
     }
     Json_object_str_proxy(T& ref, Str key)
         : base_(ref), key_(key) {
@@ -1389,16 +1395,19 @@ class Json_array_proxy : public Json_proxy_base<Json_array_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json copy(x);
+        return value() = std::move(copy);
     }
     Json& operator=(Json&& x) {
         return value() = std::move(x);
     }
     Json& operator=(const Json_array_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json copy(x.cvalue());
+        return value() = std::move(copy);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json copy(x.cvalue());
+        return value() = std::move(copy);
     }
     Json_array_proxy(T& ref, int key)
         : base_(ref), key_(key) {
@@ -2319,9 +2328,7 @@ inline Json& Json::set(const String& key, Json value) {
 /** @overload */
 template <typename P>
 inline Json& Json::set(const String& key, const Json_proxy_base<P>& value) {
-    uniqueify_object(true);
-    ojson()->get_insert(key) = value.cvalue();
-    return *this;
+    return set(key, Json(value.cvalue()));
 }
 
 /** @brief Remove the value of @a key from an object Json.
@@ -2523,8 +2530,7 @@ inline Json& Json::push_back(Json x) {
 
 /** @overload */
 template <typename P> inline Json& Json::push_back(const Json_proxy_base<P>& x) {
-    new(uniqueify_array_insert(false, -1)) Json(x.cvalue());
-    return *this;
+    return push_back(Json(x.cvalue()));
 }
 
 /** @brief Remove the last element from an array.
@@ -2567,10 +2573,7 @@ inline Json::array_iterator Json::insert(array_iterator position, Json x) {
 
 /** @overload */
 template <typename P> inline Json::array_iterator Json::insert(array_iterator position, const Json_proxy_base<P>& x) {
-    precondition(position >= abegin() && position <= aend());
-    size_type pos = position - abegin();
-    new(uniqueify_array_insert(false, pos)) Json(x.cvalue());
-    return abegin() + pos;
+    return insert(position, Json(x.cvalue()));
 }
 
 inline Json::array_iterator Json::erase(array_iterator position) {
-- 
2.43.0


From 5f6d1fdabc8d25d714fcacc6ba12a161ab7a313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:37 +0000
Subject: [PATCH 41/72] fix: merging a part of a Json into that Json used freed
 memory

---
 json.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json.hh b/json.hh
index 15b63fd..d14e323 100644
--- a/json.hh
+++ b/json.hh
@@ -2418,8 +2418,9 @@ inline Json& Json::merge(const Json& x) {
     precondition(is_object() || is_null());
     precondition(x.is_object() || x.is_null());
     if (x.u_.o.x) {
+        Json copy(x);
         uniqueify_object(false);
-        ObjectJson *oj = ojson(), *xoj = x.ojson();
+        ObjectJson *oj = ojson(), *xoj = copy.ojson();
         const ObjectItem *xb = xoj->os_, *xe = xb + xoj->n_;
         for (; xb != xe; ++xb)
             if (xb->next_ > -2)
-- 
2.43.0


From 99b2f58664593902b65b0de63004e66a1600026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:37 +0000
Subject: [PATCH 42/72] fix: erasing from an empty object Json read outside its
 hash table

---
 json.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json.cc b/json.cc
index a2c429c..427fc12 100644
--- a/json.cc
+++ b/json.cc
@@ -198,6 +198,8 @@ void Json::ObjectJson::erase(int p) {
 }
 
 Json::size_type Json::ObjectJson::erase(Str key) {
+    if (hash_.empty())
+        return 0;
     int* b = &hash_[bucket(key.data(), key.length())];
     while (*b >= 0 && os_[*b].v_.first != key)
         b = &os_[*b].next_;
-- 
2.43.0


From 2d4b561063e35e6817b3ae8b8df87cb7c39c131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:37 +0000
Subject: [PATCH 43/72] fix: Json += Json added the left operand to itself

---
 json.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json.hh b/json.hh
index d14e323..5841c9f 100644
--- a/json.hh
+++ b/json.hh
@@ -3099,18 +3099,18 @@ inline Json& Json::operator-=(double x) {
 }
 inline Json& Json::operator+=(const Json& x) {
     if (x.is_unsigned())
-        add(u_.u.x);
+        add(x.u_.u.x);
     else if (x.is_int())
-        add(u_.i.x);
+        add(x.u_.i.x);
     else if (!x.is_null())
         add(x.as_d());
     return *this;
 }
 inline Json& Json::operator-=(const Json& x) {
     if (x.is_unsigned())
-        subtract(u_.u.x);
+        subtract(x.u_.u.x);
     else if (x.is_int())
-        subtract(u_.i.x);
+        subtract(x.u_.i.x);
     else if (!x.is_null())
         subtract(x.as_d());
     return *this;
-- 
2.43.0


From c483feb73d28e732cbe75438b3918654d9c1cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:37 +0000
Subject: [PATCH 44/72] fix: arithmetic on an unsigned Json failed an assertion

---
 json.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.hh b/json.hh
index 5841c9f..4dc2dd5 100644
--- a/json.hh
+++ b/json.hh
@@ -2062,13 +2062,13 @@ inline const String& Json::as_s(const String& default_value) const {
 }
 
 inline void Json::force_number() {
-    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_double);
+    precondition((u_.x.type == j_null && !u_.x.x) || is_number());
     if (u_.x.type == j_null && !u_.x.x)
         u_.x.type = j_int;
 }
 
 inline void Json::force_double() {
-    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_double);
+    precondition((u_.x.type == j_null && !u_.x.x) || is_number());
     if (u_.x.type == j_null && !u_.x.x)
         u_.x.type = j_double;
     else if (u_.x.type == j_int) {
-- 
2.43.0


From a96be7bed226be8d6b441578bec874743110ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:20 +0000
Subject: [PATCH 45/72] fix: the JSON parser's depth limit could be stepped
 over

---
 json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.cc b/json.cc
index 427fc12..97bd920 100644
--- a/json.cc
+++ b/json.cc
@@ -764,7 +764,7 @@ Json::streaming_parser::consume(const uint8_t* first,
 
         case '{':
             if (state_ <= st_object_value) {
-                if (stack_.size() == max_depth)
+                if (stack_.size() >= max_depth)
                     goto error_here;
                 ++first;
                 if (state_ == st_initial && json_.is_o()) {
@@ -785,7 +785,7 @@ Json::streaming_parser::consume(const uint8_t* first,
 
         case '[':
             if (state_ <= st_object_value) {
-                if (stack_.size() == max_depth)
+                if (stack_.size() >= max_depth)
                     goto error_here;
                 ++first;
                 if (state_ == st_initial && json_.is_a()) {
-- 
2.43.0


From b3266ff40dc297592d090b8094bc4edfac36e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:59 +0000
Subject: [PATCH 46/72] fix: equals_sloppy on 16-bit slices compared a byte
 past the strings

---
 string_slice.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/string_slice.hh b/string_slice.hh
index 697932f..f5233de 100644
--- a/string_slice.hh
+++ b/string_slice.hh
@@ -156,11 +156,13 @@ template <typename T> struct string_slice {
             if (unlikely(len <= 0)) {
                 return true;
             }
+            // keep `delta`'s type: narrow types are promoted by shifts
 # if WORDS_BIGENDIAN
-            return (delta >> (8 * (size - len))) == 0;
+            delta >>= 8 * (size - len);
 # else
-            return (delta << (8 * (size - len))) == 0;
+            delta <<= 8 * (size - len);
 # endif
+            return delta == 0;
         }
 #endif
         return memcmp(a, b, len) == 0;
-- 
2.43.0


From d69a821b3524baaaaf3374e1735d00459085e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:50 +0000
Subject: [PATCH 47/72] fix: a stringbag filled to its maximum size forgot its
 strings

---
 stringbag.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringbag.hh b/stringbag.hh
index 630fb3f..429ffd6 100644
--- a/stringbag.hh
+++ b/stringbag.hh
@@ -133,7 +133,8 @@ class stringbag {
         if (mylen >= (unsigned) len)
             pos = info_[p].pos;
         else if (size_ + (unsigned) std::max(len, slice_type::size)
-                   <= capacity()) {
+                   <= capacity()
+                 && size_ + (unsigned) len < max_size()) {
             pos = size_;
             size_ += len;
         } else
-- 
2.43.0


From 7bc4c18c46431fbd013d1a40de350792ebd395ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:50 +0000
Subject: [PATCH 48/72] fix: a stringbag with 32-bit offsets could not be built

---
 stringbag.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stringbag.hh b/stringbag.hh
index 429ffd6..c67bfb7 100644
--- a/stringbag.hh
+++ b/stringbag.hh
@@ -59,8 +59,8 @@ class stringbag {
 
  public:
     /** @brief Return the maximum allowed capacity of a stringbag. */
-    static constexpr unsigned max_size() {
-        return ((unsigned) (offset_type) -1) + 1;
+    static constexpr size_t max_size() {
+        return ((size_t) (offset_type) -1) + 1;
     }
     /** @brief Return the base size of a stringbag. */
     static constexpr size_t empty_size() {
-- 
2.43.0


From e70ba478d29fa4ec14e409ac3e6c3c62b79c052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:50 +0000
Subject: [PATCH 49/72] fix: appending a full small_vector one of its own
 elements used freed memory

---
 small_vector.hh | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/small_vector.hh b/small_vector.hh
index 556f1f6..0c3d075 100644
--- a/small_vector.hh
+++ b/small_vector.hh
@@ -246,25 +246,34 @@ inline const T& small_vector<T, N, A>::back() const {
 
 template <typename T, unsigned N, typename A>
 inline void small_vector<T, N, A>::push_back(const T& x) {
-    if (r_.last_ == r_.capacity_)
+    if (r_.last_ == r_.capacity_) {
+        T tmp(x); // may be one of our elements
         grow();
-    atraits::construct(r_, r_.last_, x);
+        atraits::construct(r_, r_.last_, std::move(tmp));
+    } else
+        atraits::construct(r_, r_.last_, x);
     ++r_.last_;
 }
 
 template <typename T, unsigned N, typename A>
 inline void small_vector<T, N, A>::push_back(T&& x) {
-    if (r_.last_ == r_.capacity_)
+    if (r_.last_ == r_.capacity_) {
+        T tmp(std::move(x)); // may be one of our elements
         grow();
-    atraits::construct(r_, r_.last_, std::move(x));
+        atraits::construct(r_, r_.last_, std::move(tmp));
+    } else
+        atraits::construct(r_, r_.last_, std::move(x));
     ++r_.last_;
 }
 
 template <typename T, unsigned N, typename A> template <typename... Args>
 inline void small_vector<T, N, A>::emplace_back(Args&&... args) {
-    if (r_.last_ == r_.capacity_)
+    if (r_.last_ == r_.capacity_) {
+        T tmp(std::forward<Args>(args)...); // may be one of our elements
         grow();
-    atraits::construct(r_, r_.last_, std::forward<Args>(args)...);
+        atraits::construct(r_, r_.last_, std::move(tmp));
+    } else
+        atraits::construct(r_, r_.last_, std::forward<Args>(args)...);
     ++r_.last_;
 }
 
-- 
2.43.0


From b5791954cca1616d1086a5f29798c98a2e855ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:48 +0000
Subject: [PATCH 50/72] fix: atomic_or stored an undefined value

---
 compiler.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/compiler.hh b/compiler.hh
index fff3a83..c06bd16 100644
--- a/compiler.hh
+++ b/compiler.hh
@@ -204,8 +204,8 @@ template <typename B> struct sized_compiler_operations<1, B> {
     }
     static inline void atomic_or(type* object, type addend) {
 #if __x86__ && !MT_VERIF_HOOKS
-        asm volatile("lock; orb %0,%1"
-                     : "=r" (addend), "+m" (*object) : : "cc");
+        asm volatile("lock; orb %1,%0"
+                     : "+m" (*object) : "q" (addend) : "cc");
         B()();
 #else
         __sync_fetch_and_or(object, addend);
@@ -264,8 +264,8 @@ template <typename B> struct sized_compiler_operations<2, B> {
     }
     static inline void atomic_or(type* object, type addend) {
 #if __x86__ && !MT_VERIF_HOOKS
-        asm volatile("lock; orw %0,%1"
-                     : "=r" (addend), "+m" (*object) : : "cc");
+        asm volatile("lock; orw %1,%0"
+                     : "+m" (*object) : "r" (addend) : "cc");
         B()();
 #else
         __sync_fetch_and_or(object, addend);
@@ -324,8 +324,8 @@ template <typename B> struct sized_compiler_operations<4, B> {
     }
     static inline void atomic_or(type* object, type addend) {
 #if __x86__ && !MT_VERIF_HOOKS
-        asm volatile("lock; orl %0,%1"
-                     : "=r" (addend), "+m" (*object) : : "cc");
+        asm volatile("lock; orl %1,%0"
+                     : "+m" (*object) : "r" (addend) : "cc");
         B()();
 #else
         __sync_fetch_and_or(object, addend);
@@ -409,8 +409,8 @@ template <typename B> struct sized_compiler_operations<8, B> {
 #if __x86_64__ || HAVE___SYNC_FETCH_AND_OR_8
     static inline void atomic_or(type* object, type addend) {
 #if __x86_64__ && !MT_VERIF_HOOKS
-        asm volatile("lock; orq %0,%1"
-                     : "=r" (addend), "+m" (*object) : : "cc");
+        asm volatile("lock; orq %1,%0"
+                     : "+m" (*object) : "r" (addend) : "cc");
         B()();
 #else
         __sync_fetch_and_or(object, addend);
-- 
2.43.0


From 0c6895ecceabfd755de343e5503bc6cf3c823105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 51/72] fix: String::is_shared was inverted

A uniquely held string counted as shared and a shared one as unique, so
mutable_data() on a shared string let writes show through its other
holders, and StringAccum::make_transfer() took over memory that other
strings still used.
---
 string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.hh b/string.hh
index c1be610..8744562 100644
--- a/string.hh
+++ b/string.hh
@@ -782,7 +782,7 @@ inline String &String::operator+=(const String_base<T> &x) {
 /** @brief Test if the String's data is shared or stable. */
 inline bool String::is_shared() const {
     memo_type* m = _r.memo();
-    return !m || m->refunique();
+    return !m || !m->refunique();
 }
 
 /** @brief Test if the String's data is stable. */
-- 
2.43.0


From bd180a29d4f2652d317ec9568a4edb72b16c0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 52/72] fix: String::align lost track of its memory block

The block is found relative to the data, which moved.
---
 string.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/string.cc b/string.cc
index 6bc3586..35e91c1 100644
--- a/string.cc
+++ b/string.cc
@@ -1047,6 +1047,7 @@ String::align(int n)
         offset = reinterpret_cast<uintptr_t>(s._r.data) % n;
         memcpy((char *)s._r.data + n - offset, _r.data, _r.length);
         s._r.data += n - offset;
+        s._r.memo_offset -= n - offset;
         s._r.length = _r.length;
         *this = s;
     }
-- 
2.43.0


From 092a707f17b93a0ea7f05401e6eb1c725efb24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 53/72] fix: String::make_zero returned an empty string

---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 35e91c1..e17f05a 100644
--- a/string.cc
+++ b/string.cc
@@ -118,7 +118,7 @@ const String::rep_type String::oom_string_rep = {
     String_generic::out_of_memory_data, String_generic::out_of_memory_length, 0
 };
 const String::rep_type String::zero_string_rep = {
-    &int_data[0], 0, 0
+    &int_data[0], 1, 0
 };
 
 #if HAVE_STRING_PROFILING
-- 
2.43.0


From 8ba6c0e7e5355b0c9280453e548dea615f84f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 54/72] fix: find_right read beyond the string

A start less than the string's length but beyond the last position at
which the substring fits compared bytes after the end.
---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index e17f05a..1a0e35b 100644
--- a/string.cc
+++ b/string.cc
@@ -375,7 +375,7 @@ int
 String_generic::find_right(const char *s, int len, int start,
                            const char *x, int x_len)
 {
-    if (start >= len)
+    if (start >= len - x_len)
         start = len - x_len;
     if (x_len == 0)
         return start >= 0 ? start : -1;
-- 
2.43.0


From a683e4b0207084327b42b1a356cb5573b5418284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 55/72] fix: glob_match ignored the first character of a class

It also compared one byte beyond an unclosed class.
---
 string.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 1a0e35b..6506e14 100644
--- a/string.cc
+++ b/string.cc
@@ -450,8 +450,9 @@ bool String_generic::glob_match(const char* sbegin, int slen,
 
                       bool found = false;
                       do {
-                          if (*++ec == *s)
+                          if (*ec == *s)
                               found = true;
+                          ++ec;
                       } while (ec != pend && *ec != ']');
                       if (ec == pend)
                           goto normal_char;
-- 
2.43.0


From 29f317e564058f604ae613bd0ef323a47c43dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 56/72] fix: two Windows-1252 characters were converted wrongly

0x88 and 0x98 are U+02C6 and U+02DC.
---
 string.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.cc b/string.cc
index 6506e14..d0be51d 100644
--- a/string.cc
+++ b/string.cc
@@ -1105,9 +1105,9 @@ String::parse_cesu8_char(const unsigned char *s, const unsigned char *end)
 
 static const uint16_t windows1252_c1_mapping[] = {
     0x20AC, 0x0081, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021,
-    0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x008D, 0x017D, 0x008F,
+    0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x008D, 0x017D, 0x008F,
     0x0090, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014,
-    0x20DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x009D, 0x017E, 0x0178
+    0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x009D, 0x017E, 0x0178
 };
 
 String
-- 
2.43.0


From 2f33554afda4a4882540f2f11ffd328067636025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 57/72] fix: String::printable(2) left quotes and backslashes
 unescaped

unless some other character needed quoting too.
---
 string.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index d0be51d..0280971 100644
--- a/string.cc
+++ b/string.cc
@@ -1001,7 +1001,8 @@ String::printable(int type) const
     // avoid copies
     if (!out_of_memory())
         for (int i = 0; i < _r.length; i++)
-            if (_r.data[i] < 32 || _r.data[i] > 126)
+            if (_r.data[i] < 32 || _r.data[i] > 126
+                || (type == 2 && (_r.data[i] == '\\' || _r.data[i] == '\"')))
                 return hard_printable(*this, i, type);
     return *this;
 }
-- 
2.43.0


From 8fc1b8ca9f8ec1230daadc7a93cb2bf4c544505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 58/72] fix: String(literal, -1) had length -1

---
 string.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/string.hh b/string.hh
index 8744562..6003a69 100644
--- a/string.hh
+++ b/string.hh
@@ -407,7 +407,7 @@ inline String::String(const char* cstr) {
     @return A String containing @a len characters of @a s. */
 inline String::String(const char* s, int len) {
     if (LCDF_CONSTANT_CSTR(s))
-        _r.assign(s, len, 0);
+        _r.assign(s, len < 0 ? strlen(s) : len, 0);
     else
         assign(s, len, false);
 }
@@ -415,7 +415,8 @@ inline String::String(const char* s, int len) {
 /** @overload */
 inline String::String(const unsigned char* s, int len) {
     if (LCDF_CONSTANT_CSTR(reinterpret_cast<const char*>(s)))
-        _r.assign(reinterpret_cast<const char*>(s), len, 0);
+        _r.assign(reinterpret_cast<const char*>(s),
+                  len < 0 ? strlen(reinterpret_cast<const char*>(s)) : len, 0);
     else
         assign(reinterpret_cast<const char*>(s), len, false);
 }
-- 
2.43.0


From 4f0bf78235d6feacbed6545f54d8e4040a67622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 59/72] fix: StringAccum::snprintf overflowed its buffer

HAVE_VSNPRINTF is never defined, so it used vsprintf; and vsnprintf
returns the length of the whole text, not of the part that fit.
---
 straccum.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/straccum.cc b/straccum.cc
index 3027765..c7d3254 100644
--- a/straccum.cc
+++ b/straccum.cc
@@ -331,13 +331,9 @@ StringAccum &
 StringAccum::vsnprintf(int n, const char *format, va_list val)
 {
     if (char *x = reserve(n + 1)) {
-#if HAVE_VSNPRINTF
         int len = ::vsnprintf(x, n + 1, format, val);
-#else
-        int len = vsprintf(x, format, val);
-        assert(len <= n);
-#endif
-        adjust_length(len);
+        if (len > 0)
+            adjust_length(len < n ? len : n);
     }
     return *this;
 }
-- 
2.43.0


From 62e34d162174600f61bb5871e172f2e51b8e508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 60/72] fix: Str::snprintf claimed more characters than fit its
 buffer

---
 str.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/str.hh b/str.hh
index 773ddb7..9d7c9c5 100644
--- a/str.hh
+++ b/str.hh
@@ -135,6 +135,10 @@ struct Str : public String_base<Str> {
         va_start(val, fmt);
         int n = vsnprintf(buf, size, fmt, val);
         va_end(val);
+        if (n < 0 || size == 0)
+            n = 0;
+        else if ((size_t) n >= size)
+            n = size - 1;
         return Str(buf, n);
     }
 };
-- 
2.43.0


From 59de2a10ed977d2cb373812911cd630693141fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:59 +0000
Subject: [PATCH 61/72] fix: natural_compare ordered 0.9 before 0.0

In the decimal places of a number, more leading zeros make it smaller, but
the comparison ignored which of the two numbers had more: 0.9 came before
0.0 and 0.0 before 0.9.
---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 0280971..8207740 100644
--- a/string.cc
+++ b/string.cc
@@ -200,7 +200,7 @@ int String_generic::natural_compare(const char* a, int a_len,
                     && !(bx + 1 < be && *bx == '.' && !isspace((unsigned char) bx[1]))) {
                     negative = aperiod_negative;
                     if (longer_zeros)
-                        return negative ? 1 : -1;
+                        return negative == (longer_zeros > 0) ? 1 : -1;
                     if (digit_compare)
                         a_good = b_good;
                 }
-- 
2.43.0


From 52579a963eee1e0ecada5f73ee9991ca3f0bed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:43 +0000
Subject: [PATCH 62/72] fix: cesu8_to_utf8 ignored utf_replacement

The test for a nonnull byte looked at the result of parse_cesu8_char, which
is always zero there, so no replacement character was ever added.
---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 8207740..10b2ae1 100644
--- a/string.cc
+++ b/string.cc
@@ -1228,7 +1228,7 @@ String::cesu8_to_utf8(int flags) const
             last = s;
         } else {
             sa.append(last, s);
-            if ((flags & utf_replacement) && c != 0)
+            if ((flags & utf_replacement) && *s != 0)
                 sa.append_utf8(u_replacement);
             for (++s; s != ends && *s >= 0x80 && *s < 0xC0; ++s)
                 /* do nothing */;
-- 
2.43.0


From a0a552b03143bfe632c17fada78c9575e987422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:34 +0000
Subject: [PATCH 63/72] fix: Clp_CurOptionNameBuf overflowed a buffer of length
 0

The documentation allows length 0, but copy_string copied -1 bytes then.
---
 clp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clp.c b/clp.c
index cb9e5d8..2e34195 100644
--- a/clp.c
+++ b/clp.c
@@ -2423,6 +2423,8 @@ copy_string(char *buf, int buflen, int bufpos, const char *what)
     int l = strlen(what);
     if (l > buflen - bufpos - 1)
 	l = buflen - bufpos - 1;
+    if (l <= 0)
+	return 0;
     memcpy(buf + bufpos, what, l);
     return l;
 }
-- 
2.43.0


From dd55b6e798901daa20d816636f33d2ea70b30675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:34 +0000
Subject: [PATCH 64/72] fix: Clp_IsLong crashed on an option without a long
 name

---
 clp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clp.c b/clp.c
index 2e34195..a1c47d6 100644
--- a/clp.c
+++ b/clp.c
@@ -2492,7 +2492,8 @@ Clp_IsLong(Clp_Parser *clp, const char *long_name)
 {
     Clp_Internal *cli = clp->internal;
     int optno = cli->current_option;
-    return optno >= 0 && strcmp(cli->opt[optno].long_name, long_name) == 0;
+    return optno >= 0 && cli->iopt[optno].ilong
+	&& strcmp(cli->opt[optno].long_name, long_name) == 0;
 }
 
 int
-- 
2.43.0


From 01ec0700ff670855417712457113f1a2fcdfca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:34 +0000
Subject: [PATCH 65/72] fix: Clp_ValBool refused "0"

The documentation lists it as a false value; "1" was tested twice.
---
 clp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clp.c b/clp.c
index a1c47d6..34b001a 100644
--- a/clp.c
+++ b/clp.c
@@ -1178,7 +1178,7 @@ parse_bool(Clp_Parser *clp, const char *arg, int complain, void *user_data)
 	return 1;
     } else if (argcmp("no", lcarg, 1, 0) > 0
 	       || argcmp("false", lcarg, 1, 0) > 0
-	       || argcmp("1", lcarg, 1, 0) > 0) {
+	       || argcmp("0", lcarg, 1, 0) > 0) {
 	clp->val.i = 0;
 	return 1;
     }
-- 
2.43.0


From 6f1a02504d809018197ae26dcc406b43e76af855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:51 +0000
Subject: [PATCH 66/72] fix: Clp_Next left a value behind for an option without
 one

When the rest of a group of short options is no value of an option whose
value is optional, the option has no value, and vstr should be null.
---
 clp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clp.c b/clp.c
index 34b001a..416f8bb 100644
--- a/clp.c
+++ b/clp.c
@@ -1983,6 +1983,7 @@ Clp_Next(Clp_Parser *clp)
 		return Clp_BadOption;
 	    } else {
 		Clp_RestoreParser(clp, &clpsave);
+		clp->vstr = 0;
                 clp->option = opt;
             }
 	}
-- 
2.43.0


From d4d603af998795580d09e8d78e7fffd456311a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:16 +0000
Subject: [PATCH 67/72] fix: -d foo was accepted as a number

clp_parse_suffixdouble complained, but returned the length of the message,
which means success.  The option took whatever value was there.
---
 misc.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/misc.cc b/misc.cc
index b8a4722..3b6aa1f 100644
--- a/misc.cc
+++ b/misc.cc
@@ -33,8 +33,9 @@ int clp_parse_suffixdouble(Clp_Parser *clp, const char *vstr,
 	clp->val.d *= 1000000000, ++post;
     if (*vstr != 0 && *post == 0)
 	return 1;
-    else if (complain)
-	return Clp_OptionError(clp, "%<%O%> expects a real number, not %<%s%>", vstr);
-    else
+    else {
+	if (complain)
+	    Clp_OptionError(clp, "%<%O%> expects a real number, not %<%s%>", vstr);
 	return 0;
+    }
 }
-- 
2.43.0


From 591ed14099e82c0b51aba622297dd7fab1447b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:46 +0000
Subject: [PATCH 68/72] fix: a short option was taken as negated because of a
 long one

Where a word may be a long option or a set of short ones, the search for a
long option strips "no-" and sets negated, which stayed set for the search
for the short options.
---
 clp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clp.c b/clp.c
index 416f8bb..da18f81 100644
--- a/clp.c
+++ b/clp.c
@@ -1719,6 +1719,7 @@ switch_to_short_argument(Clp_Parser *clp)
     assert(cli->could_be_short);
     cli->is_short = 1;
     cli->whole_negated = (oclass & Clp_ShortNegated ? 1 : 0);
+    clp->negated = cli->whole_negated;
     set_option_text(cli, cli->argv[0], ocharskip);
 }
 
-- 
2.43.0


From 637fda333b63b3ba6ab99f5a0d3f9b7803116083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:29 +0000
Subject: [PATCH 69/72] fix: a message of 256 characters overflowed its buffer

---
 clp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clp.c b/clp.c
index da18f81..1d7a495 100644
--- a/clp.c
+++ b/clp.c
@@ -2031,7 +2031,7 @@ static void build_string_program_prefix(Clp_BuildString* bs,
 
 static void build_string_init(Clp_BuildString* bs, Clp_Parser* clp) {
     bs->data = bs->pos = bs->buf;
-    bs->end_data = &bs->buf[sizeof(bs->buf)];
+    bs->end_data = &bs->buf[sizeof(bs->buf) - 1]; /* leave room for NUL */
     if (clp)
         build_string_program_prefix(bs, clp);
 }
@@ -2045,7 +2045,7 @@ static int build_string_grow(Clp_BuildString* bs, size_t want) {
     size_t ipos = bs->pos - bs->data, ncap;
     if (!bs->pos)
         return 0;
-    for (ncap = (bs->end_data - bs->data) << 1; ncap < want; ncap *= 2)
+    for (ncap = (bs->end_data - bs->data + 1) << 1; ncap <= want; ncap *= 2)
         /* nada */;
     if (bs->data == bs->buf) {
         if ((bs->data = (char*) malloc(ncap)))
@@ -2057,7 +2057,7 @@ static int build_string_grow(Clp_BuildString* bs, size_t want) {
         return 0;
     } else {
         bs->pos = bs->data + ipos;
-        bs->end_data = bs->data + ncap;
+        bs->end_data = bs->data + ncap - 1;
         return 1;
     }
 }
-- 
2.43.0


From 36f1a63884151efe31a79d72e55d2e80601a6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:29 +0000
Subject: [PATCH 70/72] fix: Clp_vsnprintf overflowed a buffer of size 0

---
 clp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clp.c b/clp.c
index 1d7a495..98dcac2 100644
--- a/clp.c
+++ b/clp.c
@@ -2365,7 +2365,7 @@ Clp_vsnprintf(Clp_Parser* clp, char* str, size_t size,
     if ((size_t) (bs.pos - bs.data) < size) {
         memcpy(str, bs.data, bs.pos - bs.data);
         str[bs.pos - bs.data] = 0;
-    } else {
+    } else if (size > 0) {
         memcpy(str, bs.data, size - 1);
         str[size - 1] = 0;
     }
-- 
2.43.0


From 5ccd9a8313e2d4708a585b2850467b23b588fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:16 +0000
Subject: [PATCH 71/72] fix: Clp_SetUTF8 left short names beyond 255 unusable

---
 clp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clp.c b/clp.c
index 98dcac2..a2241af 100644
--- a/clp.c
+++ b/clp.c
@@ -648,8 +648,12 @@ int
 Clp_SetUTF8(Clp_Parser *clp, int utf8)
 {
     Clp_Internal *cli = clp->internal;
-    int old_utf8 = cli->utf8;
+    int old_utf8 = cli->utf8, i;
     cli->utf8 = utf8;
+    for (i = 0; i < cli->nopt; ++i)
+	if (cli->opt[i].option_id >= 0)
+	    cli->iopt[i].ishort = (cli->opt[i].short_name > 0
+				   && cli->opt[i].short_name < (utf8 ? 0x110000 : 256));
     calculate_lmm(clp, cli->opt, cli->iopt, cli->nopt);
     return old_utf8;
 }
-- 
2.43.0


From a7a571d8d9a42b8c1f15c026b129cf71bdd04e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:23 +0000
Subject: [PATCH 72/72] fix: an empty argument was read beyond its end

---
 clp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clp.c b/clp.c
index a2241af..1a4f87c 100644
--- a/clp.c
+++ b/clp.c
@@ -1569,6 +1569,10 @@ static int
 get_oclass(Clp_Parser *clp, const char *text, int *ocharskip)
 {
     int c;
+    if (!text[0]) { /* no first character */
+	*ocharskip = 0;
+	return Clp_NotOption;
+    }
     if (clp->internal->utf8) {
 	const char *s;
 	c = decode_utf8(text, &s);
-- 
2.43.0

