From b821e830cfea8a9bac392f190374adf4431b813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 01/76] fix: free whole layers and gc records when a table is
 destroyed

destroy_rcu_callback started each sublayer from the layer pointer stored in
the leaf, which lags behind the true layer root after a layer root split, so
all siblings leaked. It also released its own record with the size of a
pointer, and a layer-collection callback that found the tree destroyed never
released its record.
---
 masstree_remove.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index b1a749d..56fe4bb 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -143,8 +143,8 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
         if (!do_remove || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
-        ti.deallocate(this, size(), memtag_masstree_gc);
     }
+    ti.deallocate(this, size(), memtag_masstree_gc);
 }
 
 template <typename P>
@@ -338,8 +338,14 @@ void destroy_rcu_callback<P>::operator()(threadinfo& ti) {
             typename leaf_type::permuter_type perm = l->permutation();
             for (int i = 0; i != l->size(); ++i) {
                 int p = perm[i];
-                if (l->is_layer(p))
-                    enqueue(l->lv_[p].layer(), tailp);
+                if (l->is_layer(p)) {
+                    // the layer pointer may lag behind the layer's true root
+                    node_base<P>* layer = l->lv_[p].layer();
+                    while (!layer->is_root()) {
+                        layer = layer->maybe_parent();
+                    }
+                    enqueue(layer, tailp);
+                }
             }
             l->deallocate(ti);
         } else {
@@ -351,7 +357,7 @@ void destroy_rcu_callback<P>::operator()(threadinfo& ti) {
             in->deallocate(ti);
         }
     }
-    ti.deallocate(this, sizeof(this), memtag_masstree_gc);
+    ti.deallocate(this, sizeof(*this), memtag_masstree_gc);
 }
 
 template <typename P>
-- 
2.43.0


From 902be85bf633741f56630160d8bf8f720942c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 02/76] fix: retire removed tree nodes only after they are
 unlinked

remove_leaf passed the leaf and emptied internodes to deallocate_rcu before
unlinking them from the leaf list and their parents. If the global epoch
advanced in between, an operation that started in the new epoch could still
reach the node but did not delay its release.
---
 masstree_remove.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 56fe4bb..4f5938d 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -186,9 +186,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         return false;
     }
 
-    // mark leaf deleted, RCU-free
+    // mark leaf deleted; it is RCU-freed below, once no longer reachable
     leaf->mark_deleted();
-    leaf->deallocate_rcu(ti);
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
     // kept up to date
@@ -238,6 +237,12 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         n->unlock();
+        // NB `n` is now unreachable for new operations
+        if (n == leaf) {
+            leaf->deallocate_rcu(ti);
+        } else {
+            static_cast<internode_type*>(n)->deallocate_rcu(ti);
+        }
         n = p;
 
         if (p->nkeys_ || p->is_root()) {
@@ -245,7 +250,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         p->mark_deleted();
-        p->deallocate_rcu(ti);
         replacement = p->child_[0];
         p->child_[0] = nullptr;
     }
-- 
2.43.0


From fdf09a734964f7fce37430d476f6f81cf0f25190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:13 +0000
Subject: [PATCH 03/76] fix: scans read a slot's key length once before using
 its suffix

find_initial and find_next checked a saved keylenx for a suffix but then
called ksuf(p), which reads keylenx_[p] again. When a concurrent insert turned
the slot into a layer in between, the precondition in ksuf aborted the scan
instead of letting the version check retry it.
---
 masstree_scan.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index bccf7b6..b1351db 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -202,7 +202,7 @@ int scanstackelt<P>::find_initial(H& helper, key_type& ka, bool emit_equal,
         entry = n_->lv_[kx.p];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx)) {
-            suffix = n_->ksuf(kx.p);
+            suffix = n_->ksuf(kx.p, keylenx);
             memcpy(suffixbuf, suffix.s, suffix.len);
             suffix.s = suffixbuf;
         }
@@ -267,7 +267,7 @@ int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry)
         entry = n_->lv_[kp];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx))
-            keylen = ka.assign_store_suffix(n_->ksuf(kp));
+            keylen = ka.assign_store_suffix(n_->ksuf(kp, keylenx));
 
         if (n_->has_changed(v_))
             goto changed;
-- 
2.43.0


From 4e96f584fdb6348ca8b7fdbe17dec2115a60d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 04/76] fix: keep emptied leaves searchable after an abandoned
 insert

finish(0) after find_insert split a leaf can leave the left leaf without keys
while slot perm[0] still names a key that moved right. Concurrent operations
that had already reached the left leaf then did not walk right, and an insert
could land in the wrong leaf.
---
 masstree_insert.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/masstree_insert.hh b/masstree_insert.hh
index 670f12d..ff95f7d 100644
--- a/masstree_insert.hh
+++ b/masstree_insert.hh
@@ -143,6 +143,15 @@ inline void tcursor<P>::finish(int state, threadinfo& ti)
             return;
     } else if (state > 0 && state_ == 2)
         finish_insert();
+    else if (state_ == 2 && n_->size() == 0) {
+        // Abandoned insert into a leaf that holds no keys, for instance after
+        // a split moved them all to the right. Slot perm[0] must hold a key
+        // that belongs in this leaf (see leaf::stable_last_key_compare).
+        permuter_type perm(n_->permutation_);
+        perm.insert_from_back(kx_.i);
+        perm.remove(kx_.i);
+        n_->permutation_ = perm.value();
+    }
     // we finally know this!
     if (n_ == original_n_)
         updated_v_ = n_->full_unlocked_version_value();
-- 
2.43.0


From ebd6ffe1c74edb96050344209f04ec826ecf6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 05/76] fix: retire a collected layer only after its entry is
 removed

gc_layer passed the empty layer leaf to deallocate_rcu while the parent leaf
still pointed to it.
---
 masstree_remove.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 4f5938d..7f803aa 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -105,7 +105,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         }
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
-        lf->deallocate_rcu(ti);
+        // NB the caller RCU-frees `lf` once its entry in `n_` is removed
         return true;
     }
 
@@ -139,8 +139,13 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
     }
     if (!root_->deleted()) {    // if not destroying tree...
         tcursor<P> lp(root_, s_, len_);
-        bool do_remove = lp.gc_layer(ti);
-        if (!do_remove || !lp.finish_remove(ti)) {
+        if (lp.gc_layer(ti)) {
+            node_base<P>* layer = lp.n_->lv_[lp.kx_.p].layer();
+            if (!lp.finish_remove(ti)) {
+                lp.n_->unlock();
+            }
+            static_cast<typename node_base<P>::leaf_type*>(layer)->deallocate_rcu(ti);
+        } else {
             lp.n_->unlock();
         }
     }
-- 
2.43.0


From c8972efb16a35860aad5b71029c3d7c5569815c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 06/76] fix: install a key suffix before marking its slot as
 having one

leaf::assign set keylenx_ to ksuf_keylenx before assign_ksuf had created the
suffix container. A reader holding an old permutation could then read a suffix
from memory past the end of the leaf.
---
 masstree_struct.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/masstree_struct.hh b/masstree_struct.hh
index 494dcca..1110414 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -500,8 +500,12 @@ class leaf : public node_base<P> {
         if (!ka.has_suffix()) {
             keylenx_[p] = ka.length();
         } else {
-            keylenx_[p] = ksuf_keylenx;
+            // Install the suffix first: a concurrent reader that reaches slot
+            // `p` through an old permutation must not look for a suffix
+            // container that doesn't exist yet.
             assign_ksuf(p, ka.suffix(), false, ti);
+            fence();
+            keylenx_[p] = ksuf_keylenx;
         }
     }
     inline void assign_initialize(int p, const key_type& ka, threadinfo& ti) {
-- 
2.43.0


From 05dd62ad9eb6a1dcd1d0e9f9f14568c63dbdf3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 07/76] fix: find the root from the leftmost leaf when
 collecting a layer

gc_layer_rcu_callback kept a pointer to the root node of the time of its
registration. If that internode split and was later emptied, another thread
could free it before the callback ran.
---
 masstree_remove.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 7f803aa..ef0dfa6 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -156,6 +156,12 @@ template <typename P>
 void gc_layer_rcu_callback<P>::make(node_base<P>* root, Str prefix,
                                     threadinfo& ti)
 {
+    // The root node can split and later be freed before this callback runs.
+    // The leftmost leaf of the first layer lives as long as the tree, so
+    // remember that and find the root from there.
+    typename node_base<P>::nodeversion_type v;
+    root = root->reach_leaf(typename node_base<P>::key_type(typename P::ikey_type(0)), v, ti);
+
     size_t sz = prefix.len + sizeof(gc_layer_rcu_callback<P>);
     void *data = ti.allocate(sz, memtag_masstree_gc);
     gc_layer_rcu_callback<P> *cb =
-- 
2.43.0


From 0e266af5e241a569b4a2d8af2c78dad1eb899926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 08/76] fix: collect a layer whose first leaf was emptied first

Only emptying the first and last leaf of a layer scheduled the layer's
collection. If the first leaf became empty while others still followed it,
removing those others later left an empty layer behind for good.
---
 masstree_remove.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index ef0dfa6..b635b7b 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -218,6 +218,14 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     // Unlink leaf from doubly-linked leaf list
     btree_leaflink<leaf_type>::unlink(leaf);
 
+    // If this leaves nothing but an empty first leaf, the layer is empty
+    if (!prefix.empty()) {
+        leaf_type *prev = leaf->prev_;
+        if (!prev->prev_ && !prev->safe_next() && prev->size() == 0) {
+            gc_layer_rcu_callback<P>::make(root, prefix, ti);
+        }
+    }
+
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
-- 
2.43.0


From d194c66b597539837f6292396e489f4ce01300d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 09/76] fix: scans report every leaf they relied on to
 visit_leaf

find_next moved on from a leaf in which it found no entry without the leaf
having been passed to visit_leaf, for instance an empty first leaf or a leaf
whose remaining entries had been removed. Callers that validate node versions
then missed insertions into that leaf.
---
 masstree_scan.hh | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index b1351db..9db08af 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -65,8 +65,9 @@ class scanstackelt {
                      leafvalue_type& entry, threadinfo& ti);
     template <typename H>
     int find_retry(H& helper, key_type& ka, threadinfo& ti);
-    template <typename H>
-    int find_next(H& helper, key_type& ka, leafvalue_type& entry);
+    template <typename H, typename F>
+    int find_next(H& helper, key_type& ka, leafvalue_type& entry,
+                  F& scanner, threadinfo& ti);
 
     int kp() const {
         if (unsigned(ki_) < unsigned(perm_.size()))
@@ -249,8 +250,9 @@ int scanstackelt<P>::find_retry(H& helper, key_type& ka, threadinfo& ti)
     return scan_find_next;
 }
 
-template <typename P> template <typename H>
-int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry)
+template <typename P> template <typename H, typename F>
+int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry,
+                               F &scanner, threadinfo &ti)
 {
     int kp;
 
@@ -291,6 +293,9 @@ int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry)
     }
 
     if (!n_->has_changed(v_)) {
+        // report this leaf even if no entry of it was used: its version shows
+        // that the rest of its range was empty
+        scanner.visit_leaf(*this, ka, ti);
         n_ = helper.advance(n_, ka);
         if (!n_) {
             helper.mark_key_complete();
@@ -346,12 +351,12 @@ int basic_table<P>::scan(H helper,
             if (!scanner.visit_value(ka, entry.value(), ti))
                 goto done;
             stack.ki_ = helper.next(stack.ki_);
-            state = stack.find_next(helper, ka, entry);
+            state = stack.find_next(helper, ka, entry, scanner, ti);
             break;
 
         case mystack_type::scan_find_next:
         find_next:
-            state = stack.find_next(helper, ka, entry);
+            state = stack.find_next(helper, ka, entry, scanner, ti);
             if (state != mystack_type::scan_up)
                 scanner.visit_leaf(stack, ka, ti);
             break;
-- 
2.43.0


From 288b689c3667bcf75bae21e107a81d5a3c0a167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:27 +0000
Subject: [PATCH 10/76] fix: unlink a removed leaf after updating its ancestors

A leaf was taken off the leaf list before its parent was updated. In between,
an inserter holding the previous leaf could insert keys of the removed leaf
there and split, pushing separators into the parent that collide with the
removed leaf's; the remover then found the wrong child (invariant failure, or
a lost subtree with assertions off).
---
 masstree_remove.hh | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index b635b7b..eaa00d3 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -91,12 +91,14 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
             return false;
         }
         lf->lock(*lf, ti.lock_fence(tc_leaf_lock));
-        if (!lf->is_root() || lf->size() > 0) {
+        // NB if `lf` still has a successor, the thread removing that
+        // successor will ask for another collection
+        if (!lf->is_root() || lf->size() > 0 || lf->next_.ptr) {
             goto unlock_layer;
         }
 
         // child is an empty leaf: kill it
-        masstree_invariant(!lf->prev_ && !lf->next_.ptr);
+        masstree_invariant(!lf->prev_);
         masstree_invariant(!lf->deleted());
         masstree_invariant(!lf->deleted_layer());
         if (P::need_phantom_epoch
@@ -215,17 +217,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
     }
 
-    // Unlink leaf from doubly-linked leaf list
-    btree_leaflink<leaf_type>::unlink(leaf);
-
-    // If this leaves nothing but an empty first leaf, the layer is empty
-    if (!prefix.empty()) {
-        leaf_type *prev = leaf->prev_;
-        if (!prev->prev_ && !prev->safe_next() && prev->size() == 0) {
-            gc_layer_rcu_callback<P>::make(root, prefix, ti);
-        }
-    }
-
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
@@ -256,10 +247,9 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         n->unlock();
-        // NB `n` is now unreachable for new operations
-        if (n == leaf) {
-            leaf->deallocate_rcu(ti);
-        } else {
+        // NB an internode `n` is now unreachable for new operations; `leaf`
+        // can still be reached via its neighbors
+        if (n != leaf) {
             static_cast<internode_type*>(n)->deallocate_rcu(ti);
         }
         n = p;
@@ -274,6 +264,21 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     }
 
     n->unlock();
+
+    // Unlink leaf from doubly-linked leaf list. NB this must come after the
+    // internodes have been updated: once `leaf` is off the list, its
+    // predecessor can accept `leaf`'s keys and split among them.
+    btree_leaflink<leaf_type>::unlink(leaf);
+
+    // If this leaves nothing but an empty first leaf, the layer is empty
+    if (!prefix.empty()) {
+        leaf_type *prev = leaf->prev_;
+        if (!prev->prev_ && !prev->safe_next() && prev->size() == 0) {
+            gc_layer_rcu_callback<P>::make(root, prefix, ti);
+        }
+    }
+
+    leaf->deallocate_rcu(ti);
     return true;
 }
 
-- 
2.43.0


From f0c8623808f27ad80745c95ab8a00f57ca21f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 11/76] fix: read a leaf's size before its version in
 full_version_value

Read in the other order, an insert followed by a split in between could give
the old version with the old size although keys were inserted.
---
 masstree_struct.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/masstree_struct.hh b/masstree_struct.hh
index 1110414..ee75e08 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -333,7 +333,11 @@ class leaf : public node_base<P> {
     }
     typename nodeversion_type::value_type full_version_value() const {
         static_assert(int(nodeversion_type::traits_type::top_stable_bits) >= int(permuter_type::size_bits), "not enough bits to add size to version");
-        return (this->version_value() << permuter_type::size_bits) + size();
+        // NB read the size first. If the version is read first, an insert
+        // followed by a split can restore the old size by the time that is read
+        int sz = size();
+        fence();
+        return (this->version_value() << permuter_type::size_bits) + sz;
     }
     typename nodeversion_type::value_type full_unlocked_version_value() const {
         static_assert(int(nodeversion_type::traits_type::top_stable_bits) >= int(permuter_type::size_bits), "not enough bits to add size to version");
-- 
2.43.0


From f289d9832999997425539ab92561e5e828d8e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 12/76] fix: single-threaded nodes remember that their tree was
 destroyed

deleted() always returned false, so a layer collection still queued when the
tree was destroyed went on and queued another one, which ran on freed nodes.
---
 nodeversion.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodeversion.hh b/nodeversion.hh
index 4d3bdb0..70706eb 100644
--- a/nodeversion.hh
+++ b/nodeversion.hh
@@ -241,7 +241,7 @@ class singlethreaded_nodeversion {
         return false;
     }
     bool deleted() const {
-        return false;
+        return v_ & P::deleted_bit;
     }
     bool has_changed(singlethreaded_nodeversion<P>) const {
         return false;
-- 
2.43.0


From 16f71ebfcd27f62fa77ff65f8b3fbc1ec1e2cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 13/76] fix: retire a replaced or removed row only once it is
 unlinked

The row was handed to RCU before its entry was overwritten or removed. A
reader starting after the epoch advanced could still find it, and keep it
past the grace period.
---
 kvrow.hh | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index a92c9b2..3746f28 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -88,7 +88,7 @@ class query {
                           const Json* lastreq, threadinfo& ti);
     inline bool apply_replace(R*& value, bool found, Str new_value,
                               threadinfo& ti);
-    inline void apply_remove(R*& value, kvtimestamp_t& node_ts, threadinfo& ti);
+    inline void apply_remove(R* old_value, kvtimestamp_t& node_ts, threadinfo& ti);
 
     template <typename RR> friend class query_json_scanner;
 };
@@ -185,7 +185,6 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     }
 
     if (!found) {
-    insert:
         assign_timestamp(ti);
         value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         return true;
@@ -194,8 +193,9 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     if (row_is_marker(old_value)) {
+        value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         old_value->deallocate_rcu(ti);
-        goto insert;
+        return true;
     }
 
     R* updated = old_value->update(firstreq, lastreq, qtimes_.ts, ti);
@@ -226,15 +226,17 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
         qtimes_.epoch = global_log_epoch;
     }
 
-    bool inserted = !found || row_is_marker(value);
     if (!found) {
         assign_timestamp(ti);
-    } else {
-        assign_timestamp(ti, value->timestamp());
-        value->deallocate_rcu(ti);
+        value = R::create1(new_value, qtimes_.ts, ti);
+        return true;
     }
 
+    R* old_value = value;
+    bool inserted = row_is_marker(old_value);
+    assign_timestamp(ti, old_value->timestamp());
     value = R::create1(new_value, qtimes_.ts, ti);
+    old_value->deallocate_rcu(ti);
     return inserted;
 }
 
@@ -242,26 +244,31 @@ template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
-    if (found)
-        apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
+    R* old_value = nullptr;
+    if (found) {
+        old_value = lp.value();
+        apply_remove(old_value, lp.node()->phantom_epoch_[0], ti);
+    }
     lp.finish(-1, ti);
+    if (found) {
+        // NB must follow finish(): until then readers can find `old_value`
+        old_value->deallocate_rcu(ti);
+    }
     return found;
 }
 
 template <typename R>
-inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
+inline void query<R>::apply_remove(R* old_value, kvtimestamp_t& node_ts,
                                    threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
         log->acquire();
         qtimes_.epoch = global_log_epoch;
     }
 
-    R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
         node_ts = qtimes_.ts + 2;
     }
-    old_value->deallocate_rcu(ti);
 }
 
 
-- 
2.43.0


From 95ef355be29c8ba3683479b7ba8a21d85f0981cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 14/76] fix: removing a row that recovery left as a removal
 marker finds nothing

---
 kvrow.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kvrow.hh b/kvrow.hh
index 3746f28..0bbc0d6 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -245,11 +245,14 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
     R* old_value = nullptr;
+    if (found && row_is_marker(lp.value())) {
+        found = false;
+    }
     if (found) {
         old_value = lp.value();
         apply_remove(old_value, lp.node()->phantom_epoch_[0], ti);
     }
-    lp.finish(-1, ti);
+    lp.finish(found ? -1 : 0, ti);
     if (found) {
         // NB must follow finish(): until then readers can find `old_value`
         old_value->deallocate_rcu(ti);
-- 
2.43.0


From 153c8a096bd868ee56593b98a23b4b20a9a61806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 15/76] fix: updating a string row does not read past the old
 value

Replacing a value by a longer one copied that many bytes from the old row,
and bytes between the old end and a later range were left uninitialised.
---
 value_string.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/value_string.hh b/value_string.hh
index dc35c40..6140614 100644
--- a/value_string.hh
+++ b/value_string.hh
@@ -141,10 +141,12 @@ value_string* value_string::update(const Json* first, const Json* last,
         vallen = std::max(vallen, index_offset(idx) + length);
     }
     vallen = std::max(vallen, cut);
+    cut = std::min(cut, vallen_);
     value_string* row = (value_string*) ti.allocate(shallow_size(vallen), memtag_value);
     row->ts_ = ts;
     row->vallen_ = vallen;
     memcpy(row->s_, s_, cut);
+    memset(row->s_ + cut, 0, vallen - cut);
     for (; first != last; first += 2) {
         Str val = first[1].as_s();
         memcpy(row->s_ + index_offset(first[0].as_u()), val.data(), val.length());
-- 
2.43.0


From c00de4a93744ac2e55cfa60d4f155dd799638121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 16/76] fix: msgpack skip_primitives skips 64-bit numbers

---
 msgpack.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msgpack.hh b/msgpack.hh
index 8b84e34..c04e911 100644
--- a/msgpack.hh
+++ b/msgpack.hh
@@ -475,6 +475,9 @@ class parser {
             else if (*s_ == format::fuint32 || *s_ == format::fint32
                      || *s_ == format::ffloat32)
                 s_ += 5;
+            else if (*s_ == format::fuint64 || *s_ == format::fint64
+                     || *s_ == format::ffloat64)
+                s_ += 9;
             else if (*s_ == format::fstr8 || *s_ == format::fbin8)
                 s_ += 2 + s_[1];
             else if (*s_ == format::fstr16 || *s_ == format::fbin16)
-- 
2.43.0


From d63954410c0e970c58ca1d81380b473c524b3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 17/76] fix: msgpack lengths beyond 2^31 - 1 are errors

---
 msgpack.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msgpack.cc b/msgpack.cc
index 4b8859b..fd19c2e 100644
--- a/msgpack.cc
+++ b/msgpack.cc
@@ -69,6 +69,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixmap;
             ++first;
         map:
+            if (n < 0)
+                goto error;
             if (jx->is_o())
                 jx->clear();
             else
@@ -77,6 +79,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixarray;
             ++first;
         array:
+            if (n < 0)
+                goto error;
             if (!jx->is_a())
                 *jx = Json::make_array_reserve(n);
             jx->resize(n);
@@ -84,6 +88,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixstr;
             ++first;
         raw:
+            if (n < 0)
+                goto error;
             if (last - first < n) {
                 str_ = String(first, last);
                 stack_.push_back(selem{0, n});
-- 
2.43.0


From 57c3729c275e938a2bb8441fe6dd634e2ad0e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 18/76] fix: msgpack array length does not allocate memory for
 elements not received

---
 msgpack.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/msgpack.cc b/msgpack.cc
index fd19c2e..239b0f4 100644
--- a/msgpack.cc
+++ b/msgpack.cc
@@ -23,6 +23,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
     Json* jx;
     int n = 0;
 
+    enum { array_chunk = 4096 };
+
     if (state_ < 0)
         return first;
     if (state_ == st_partial || state_ == st_string) {
@@ -81,9 +83,10 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
         array:
             if (n < 0)
                 goto error;
+            // Grow long arrays as their elements arrive
             if (!jx->is_a())
-                *jx = Json::make_array_reserve(n);
-            jx->resize(n);
+                *jx = Json::make_array_reserve(std::min(n, +array_chunk));
+            jx->resize(std::min(n, +array_chunk));
         } else if (format::is_fixstr(*first)) {
             n = *first - format::ffixstr;
             ++first;
@@ -197,9 +200,14 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             selem* top = &stack_.back();
             --top->size;
             Json* jo = (top == stack_.begin() ? &json_ : top[-1].jp);
-            if (jo->is_a())
+            if (jo->is_a()) {
                 ++top->jp;
-            else
+                if (top->jp == jo->end_array_data()) {
+                    int i = jo->size();
+                    jo->resize(i + std::min(i, top->size + 1));
+                    top->jp = &jo->at_insert(i);
+                }
+            } else
                 top->jp = &jokey_;
         }
     }
-- 
2.43.0


From 6e43b2a53ef10766368cbb6e3c2cb08fec0cc9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 19/76] fix: limit msgpack nesting depth

---
 msgpack.cc | 3 +++
 msgpack.hh | 1 +
 2 files changed, 4 insertions(+)

diff --git a/msgpack.cc b/msgpack.cc
index 239b0f4..b0ad6ee 100644
--- a/msgpack.cc
+++ b/msgpack.cc
@@ -186,6 +186,9 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             continue;
         }
 
+        if ((jx->is_a() || jx->is_o()) && n != 0
+            && stack_.size() >= max_depth)
+            goto error;
         if (jx->is_a() && n != 0)
             stack_.push_back(selem{&jx->at_insert(0), n - 1});
         else if (jx->is_o() && n != 0)
diff --git a/msgpack.hh b/msgpack.hh
index c04e911..f4ca357 100644
--- a/msgpack.hh
+++ b/msgpack.hh
@@ -361,6 +361,7 @@ class streaming_parser {
         st_final = -2, st_error = -1, st_normal = 0, st_partial = 1,
         st_string = 2
     };
+    enum { max_depth = 2048 };
     struct selem {
         Json* jp;
         int size;
-- 
2.43.0


From a551c08c24bad593b6c81c18df64c435c6435ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 20/76] fix: Json erase of a missing key from an empty object

---
 json.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json.cc b/json.cc
index 68a0888..cc61d1b 100644
--- a/json.cc
+++ b/json.cc
@@ -198,6 +198,8 @@ void Json::ObjectJson::erase(int p) {
 }
 
 Json::size_type Json::ObjectJson::erase(Str key) {
+    if (hash_.empty())
+        return 0;
     int* b = &hash_[bucket(key.data(), key.length())];
     while (*b >= 0 && os_[*b].v_.first != key)
         b = &os_[*b].next_;
-- 
2.43.0


From 51d88e8877ba124f5c17844e2b4b2fca8b4338fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 21/76] fix: Json assignment from a component of the assigned
 value

---
 json.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json.hh b/json.hh
index 9238ba3..0b2fae4 100644
--- a/json.hh
+++ b/json.hh
@@ -2928,8 +2928,9 @@ inline Json& Json::operator=(const Json& x) {
         x.u_.str.ref();
     else if (x.u_.x.x && (x.u_.x.type == j_array || x.u_.x.type == j_object))
         x.u_.x.x->ref();
+    rep_type u = x.u_; // `x` might be part of `*this`
     deref();
-    u_ = x.u_;
+    u_ = u;
     return *this;
 }
 
-- 
2.43.0


From 5c285b3563f21c7862645a166530a967841b7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 22/76] fix: append_utf8 encodes U+0800-U+7FFF in three bytes

---
 straccum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/straccum.cc b/straccum.cc
index f82c153..3027765 100644
--- a/straccum.cc
+++ b/straccum.cc
@@ -203,7 +203,7 @@ StringAccum::hard_append_cstr(const char *cstr)
 bool
 StringAccum::append_utf8_hard(int ch)
 {
-    if (ch < 0x8000) {
+    if (ch < 0x800) {
         append(static_cast<char>(0xC0 | (ch >> 6)));
         goto char1;
     } else if (ch < 0x10000) {
-- 
2.43.0


From 671df4feb7ef9f2e2cca77cbb26db9577614aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 23/76] fix: JSON low surrogate escapes may use lower-case hex
 digits

---
 json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.cc b/json.cc
index cc61d1b..9f13533 100644
--- a/json.cc
+++ b/json.cc
@@ -1058,7 +1058,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                     ch2 = 16 * ch2 + first[i] - '0';
                 else if (in_range(first[i], 'A', 'F' + 1))
                     ch2 = 16 * ch2 + first[i] - 'A' + 10;
-                else if (in_range(first[i], 'A', 'F' + 1))
+                else if (in_range(first[i], 'a', 'f' + 1))
                     ch2 = 16 * ch2 + first[i] - 'a' + 10;
                 else
                     return error_at(&first[i]);
-- 
2.43.0


From 1c0bff439efab65c6264176805795f2d3c2f0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 24/76] fix: JSON string ending in a UTF-8 lead byte does not
 read past the input

---
 json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.cc b/json.cc
index 9f13533..421816f 100644
--- a/json.cc
+++ b/json.cc
@@ -932,7 +932,7 @@ Json::streaming_parser::consume_string(const uint8_t* first,
             int want = 2 + (*first >= 0xE0) + (*first >= 0xF0);
             int n = last - first < want ? last - first : want;
             if ((n > 1 && unlikely(!in_range(first[1], 0x80, 0xC0)))
-                || (*first >= 0xE0
+                || (n > 1 && *first >= 0xE0
                     && ((*first == 0xE0 && first[1] < 0xA0) /* overlong */
                         || (*first == 0xED && first[1] >= 0xA0) /* surrogate */
                         || (*first == 0xF0 && first[1] < 0x90) /* overlong */
-- 
2.43.0


From 75cfe2471579af41ecbde66cf243dd0eb3c2a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 25/76] fix: JSON parser accepts \u0000, which the printer
 writes

---
 json.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/json.cc b/json.cc
index 421816f..b0185c4 100644
--- a/json.cc
+++ b/json.cc
@@ -1008,7 +1008,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                                           const uint8_t* first,
                                           const uint8_t* last) {
     const uint8_t* prev = first;
-    int ch = 0;
+    int ch = -1;
 
     if (first + 1 == last)
         goto incomplete;
@@ -1025,6 +1025,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
     else if (first[1] == 't')
         ch = '\t';
     else if (first[1] == 'u') {
+        ch = 0;
         for (int i = 2; i < 6; ++i) {
             if (first + i == last)
                 goto incomplete;
@@ -1070,7 +1071,9 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
         }
     }
 
-    if (!ch || !sa.append_utf8(ch))
+    if (ch == 0)
+        sa.append('\0');
+    else if (!sa.append_utf8(ch))
         return error_at(&first[1]);
     return first + 2;
 
-- 
2.43.0


From 0a7168a37b5a9b13fa8919c3cba5974725220a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 26/76] fix: JSON integers that do not fit 64 bits are read as
 doubles

---
 json.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/json.cc b/json.cc
index b0185c4..33321ef 100644
--- a/json.cc
+++ b/json.cc
@@ -1201,13 +1201,18 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         else if (position < 4) {
             bool negative = *prev == '-';
             prev += int(negative);
+            const uint8_t* digits = prev;
+            const uint64_t limit = negative ? uint64_t(1) << 63 : ~uint64_t(0);
             uint64_t x = 0;
-            while (prev != first) {
+            while (prev != first
+                   && x <= (limit - (*prev - '0')) / 10) {
                 x = (x * 10) + *prev - '0';
                 ++prev;
             }
-            if (negative)
-                j = Json(-int64_t(x));
+            if (prev != first) // out of range
+                j = Json(strtod(String(digits - int(negative), first).c_str(), 0));
+            else if (negative)
+                j = Json(int64_t(-x));
             else
                 j = Json(x);
         } else {
-- 
2.43.0


From 119988374e078d6301a7eafd59353e9522d73343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 27/76] fix: Json parse allows any amount of trailing
 whitespace

---
 json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.cc b/json.cc
index 33321ef..b174a33 100644
--- a/json.cc
+++ b/json.cc
@@ -686,8 +686,8 @@ Json::assign_parse(const char* first, const char* last, const String& str)
     using std::swap;
     Json::streaming_parser jsp;
     first = jsp.consume(first, last, str, true);
-    if (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
-                          || *first == '\t'))
+    while (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
+                             || *first == '\t'))
         ++first;
     if (first == last && jsp.success()) {
         swap(jsp.result(), *this);
-- 
2.43.0


From 537b1070835bb53df1f8767f93c8d851d94b0d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 28/76] fix: Json::empty on a constant string does not read
 beyond the string

---
 json.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.hh b/json.hh
index 0b2fae4..c241fd8 100644
--- a/json.hh
+++ b/json.hh
@@ -1746,7 +1746,7 @@ inline bool Json::is_primitive() const {
     object. */
 inline bool Json::empty() const {
     return unsigned(u_.x.type) < unsigned(j_int)
-        && (!u_.x.x || u_.x.x->size == 0);
+        && (!u_.x.x || (u_.x.type > 0 && u_.x.x->size == 0));
 }
 /** @brief Return the number of elements in this complex Json.
     @pre is_array() || is_object() || is_null() */
-- 
2.43.0


From d8aa08b7d560acbce711ecdd0c1b8f211f76a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 29/76] fix: assigning a Json component to another component of
 the same Json

---
 json.hh | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/json.hh b/json.hh
index c241fd8..b276d53 100644
--- a/json.hh
+++ b/json.hh
@@ -1333,16 +1333,16 @@ class Json_object_proxy : public Json_proxy_base<Json_object_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        return value() = Json(x); // `x` might be inside `base_`
     }
     Json& operator=(Json&& x) {
         return value() = std::move(x);
     }
     Json& operator=(const Json_object_proxy<T>& x) {
-        return value() = x.cvalue();
+        return value() = Json(x.cvalue());
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return value() = Json(x.cvalue());
     }
     Json_object_proxy(T& ref, const String& key)
         : base_(ref), key_(key) {
@@ -1361,16 +1361,16 @@ class Json_object_str_proxy : public Json_proxy_base<Json_object_str_proxy<T> >
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        return value() = Json(x); // `x` might be inside `base_`
     }
     Json& operator=(Json&& x) {
         return value() = std::move(x);
     }
     Json& operator=(const Json_object_str_proxy<T>& x) {
-        return value() = x.cvalue();
+        return value() = Json(x.cvalue());
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return value() = Json(x.cvalue());
     }
     Json_object_str_proxy(T& ref, Str key)
         : base_(ref), key_(key) {
@@ -1389,16 +1389,16 @@ class Json_array_proxy : public Json_proxy_base<Json_array_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        return value() = Json(x); // `x` might be inside `base_`
     }
     Json& operator=(Json&& x) {
         return value() = std::move(x);
     }
     Json& operator=(const Json_array_proxy<T>& x) {
-        return value() = x.cvalue();
+        return value() = Json(x.cvalue());
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return value() = Json(x.cvalue());
     }
     Json_array_proxy(T& ref, int key)
         : base_(ref), key_(key) {
-- 
2.43.0


From 44d86703add5e2060e5615f9bfb5f621bc1be710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 30/76] fix: JSON nesting limit holds for objects within arrays

---
 json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.cc b/json.cc
index b174a33..9cfc99a 100644
--- a/json.cc
+++ b/json.cc
@@ -764,7 +764,7 @@ Json::streaming_parser::consume(const uint8_t* first,
 
         case '{':
             if (state_ <= st_object_value) {
-                if (stack_.size() == max_depth)
+                if (stack_.size() >= max_depth)
                     goto error_here;
                 ++first;
                 if (state_ == st_initial && json_.is_o()) {
@@ -785,7 +785,7 @@ Json::streaming_parser::consume(const uint8_t* first,
 
         case '[':
             if (state_ <= st_object_value) {
-                if (stack_.size() == max_depth)
+                if (stack_.size() >= max_depth)
                     goto error_here;
                 ++first;
                 if (state_ == st_initial && json_.is_a()) {
-- 
2.43.0


From bb37e19a7b4461e31b857f3241708fb88dee94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 31/76] fix: JSON number needs digits before its fraction or
 exponent

---
 json.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json.cc b/json.cc
index 9cfc99a..1818cd3 100644
--- a/json.cc
+++ b/json.cc
@@ -1136,8 +1136,10 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         case 1:
             while (first != last && in_range(*first, '0', '9' + 1))
                 ++first;
-        } else
+        } else {
             position = 2;
+            break;
+        }
         /* fallthru */
     case 3:
         if (first != last && *first == '.') {
-- 
2.43.0


From 509de0260ba5cd9482fe7f15203883439e3637fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 32/76] fix: String::is_shared is true for shared data, not for
 unshared data

---
 string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.hh b/string.hh
index c1be610..8744562 100644
--- a/string.hh
+++ b/string.hh
@@ -782,7 +782,7 @@ inline String &String::operator+=(const String_base<T> &x) {
 /** @brief Test if the String's data is shared or stable. */
 inline bool String::is_shared() const {
     memo_type* m = _r.memo();
-    return !m || m->refunique();
+    return !m || !m->refunique();
 }
 
 /** @brief Test if the String's data is stable. */
-- 
2.43.0


From 4a2dcdb0d401b7fea7316e85fa59d5c71900e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 33/76] fix: find_right does not compare beyond the end of the
 string

---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 6bc3586..effa862 100644
--- a/string.cc
+++ b/string.cc
@@ -375,7 +375,7 @@ int
 String_generic::find_right(const char *s, int len, int start,
                            const char *x, int x_len)
 {
-    if (start >= len)
+    if (start > len - x_len)
         start = len - x_len;
     if (x_len == 0)
         return start >= 0 ? start : -1;
-- 
2.43.0


From a5673dcef16724d28385723a3f58dbbef482a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 34/76] fix: StringAccum::snprintf of more than n characters
 keeps n

---
 straccum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/straccum.cc b/straccum.cc
index 3027765..5657adc 100644
--- a/straccum.cc
+++ b/straccum.cc
@@ -337,7 +337,7 @@ StringAccum::vsnprintf(int n, const char *format, va_list val)
         int len = vsprintf(x, format, val);
         assert(len <= n);
 #endif
-        adjust_length(len);
+        adjust_length(len < 0 ? 0 : (len < n ? len : n));
     }
     return *this;
 }
-- 
2.43.0


From 8474c52c75077d96ce201d01ffe50614024f4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 35/76] fix: Str::snprintf does not claim more characters than
 it wrote

---
 str.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/str.hh b/str.hh
index 773ddb7..65a9dc0 100644
--- a/str.hh
+++ b/str.hh
@@ -135,6 +135,10 @@ struct Str : public String_base<Str> {
         va_start(val, fmt);
         int n = vsnprintf(buf, size, fmt, val);
         va_end(val);
+        if (n < 0 || size == 0)
+            n = 0;
+        else if (size_t(n) >= size)
+            n = size - 1;
         return Str(buf, n);
     }
 };
-- 
2.43.0


From 32b5b72599752f8d2cc46095fb3d344921d3cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 36/76] fix: String::align keeps track of the string's memory

---
 string.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/string.cc b/string.cc
index effa862..79fb41d 100644
--- a/string.cc
+++ b/string.cc
@@ -1047,6 +1047,7 @@ String::align(int n)
         offset = reinterpret_cast<uintptr_t>(s._r.data) % n;
         memcpy((char *)s._r.data + n - offset, _r.data, _r.length);
         s._r.data += n - offset;
+        s._r.memo_offset -= n - offset;
         s._r.length = _r.length;
         *this = s;
     }
-- 
2.43.0


From f1ca4f18b66cec7ed56bc029975b3b7a0fc182e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 37/76] fix: String::make_zero returns "0"

---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 79fb41d..c1291c3 100644
--- a/string.cc
+++ b/string.cc
@@ -118,7 +118,7 @@ const String::rep_type String::oom_string_rep = {
     String_generic::out_of_memory_data, String_generic::out_of_memory_length, 0
 };
 const String::rep_type String::zero_string_rep = {
-    &int_data[0], 0, 0
+    &int_data[0], 1, 0
 };
 
 #if HAVE_STRING_PROFILING
-- 
2.43.0


From 40b0716a71155707bc13fbff0d2c2e3774d4a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 38/76] fix: glob_match character classes include their first
 character

---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index c1291c3..21285d9 100644
--- a/string.cc
+++ b/string.cc
@@ -450,7 +450,7 @@ bool String_generic::glob_match(const char* sbegin, int slen,
 
                       bool found = false;
                       do {
-                          if (*++ec == *s)
+                          if (*ec++ == *s)
                               found = true;
                       } while (ec != pend && *ec != ']');
                       if (ec == pend)
-- 
2.43.0


From 043c445b5dc721b4c75e3240ec2fd1506990cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 39/76] fix: Windows-1252 0x88 and 0x98 are U+02C6 and U+02DC

---
 string.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.cc b/string.cc
index 21285d9..ac4b6a5 100644
--- a/string.cc
+++ b/string.cc
@@ -1104,9 +1104,9 @@ String::parse_cesu8_char(const unsigned char *s, const unsigned char *end)
 
 static const uint16_t windows1252_c1_mapping[] = {
     0x20AC, 0x0081, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021,
-    0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x008D, 0x017D, 0x008F,
+    0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x008D, 0x017D, 0x008F,
     0x0090, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014,
-    0x20DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x009D, 0x017E, 0x0178
+    0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x009D, 0x017E, 0x0178
 };
 
 String
-- 
2.43.0


From cfb1d81672fe1e5c4acba2271831cc1e2681bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 40/76] fix: natural_compare of fractions with leading zeros is
 antisymmetric

---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index ac4b6a5..f175b29 100644
--- a/string.cc
+++ b/string.cc
@@ -200,7 +200,7 @@ int String_generic::natural_compare(const char* a, int a_len,
                     && !(bx + 1 < be && *bx == '.' && !isspace((unsigned char) bx[1]))) {
                     negative = aperiod_negative;
                     if (longer_zeros)
-                        return negative ? 1 : -1;
+                        return negative == (longer_zeros > 0) ? 1 : -1;
                     if (digit_compare)
                         a_good = b_good;
                 }
-- 
2.43.0


From 6bfe45fe4f04756f3858ac141f2820e48da04f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 41/76] fix: String::printable(2) quotes quotes and backslashes
 in printable strings too

---
 string.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index f175b29..ca3c6f4 100644
--- a/string.cc
+++ b/string.cc
@@ -1000,7 +1000,8 @@ String::printable(int type) const
     // avoid copies
     if (!out_of_memory())
         for (int i = 0; i < _r.length; i++)
-            if (_r.data[i] < 32 || _r.data[i] > 126)
+            if (_r.data[i] < 32 || _r.data[i] > 126
+                || (type == 2 && (_r.data[i] == '\\' || _r.data[i] == '\"')))
                 return hard_printable(*this, i, type);
     return *this;
 }
-- 
2.43.0


From c14dd4d0a67efca6ef3c8e25e19cac99633573f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 42/76] fix: String of a constant with negative length is the
 whole constant

---
 string.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.hh b/string.hh
index 8744562..bb87e38 100644
--- a/string.hh
+++ b/string.hh
@@ -406,7 +406,7 @@ inline String::String(const char* cstr) {
     then takes @c strlen(@a s) characters.
     @return A String containing @a len characters of @a s. */
 inline String::String(const char* s, int len) {
-    if (LCDF_CONSTANT_CSTR(s))
+    if (LCDF_CONSTANT_CSTR(s) && len >= 0)
         _r.assign(s, len, 0);
     else
         assign(s, len, false);
@@ -414,7 +414,7 @@ inline String::String(const char* s, int len) {
 
 /** @overload */
 inline String::String(const unsigned char* s, int len) {
-    if (LCDF_CONSTANT_CSTR(reinterpret_cast<const char*>(s)))
+    if (LCDF_CONSTANT_CSTR(reinterpret_cast<const char*>(s)) && len >= 0)
         _r.assign(reinterpret_cast<const char*>(s), len, 0);
     else
         assign(reinterpret_cast<const char*>(s), len, false);
-- 
2.43.0


From 44146cfa49d0768318c14230fbc91234ae7a88f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:40 +0000
Subject: [PATCH 43/76] fix: StringAccum::snprintf does not write more than it
 reserved

---
 straccum.cc | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/straccum.cc b/straccum.cc
index 5657adc..dfb6fcd 100644
--- a/straccum.cc
+++ b/straccum.cc
@@ -331,12 +331,7 @@ StringAccum &
 StringAccum::vsnprintf(int n, const char *format, va_list val)
 {
     if (char *x = reserve(n + 1)) {
-#if HAVE_VSNPRINTF
         int len = ::vsnprintf(x, n + 1, format, val);
-#else
-        int len = vsprintf(x, format, val);
-        assert(len <= n);
-#endif
         adjust_length(len < 0 ? 0 : (len < n ? len : n));
     }
     return *this;
@@ -349,12 +344,6 @@ StringAccum::vsnprintf(int n, const char *format, va_list val)
 
     The terminating null character is not appended to the string.
 
-    @note The safe vsnprintf() variant is called if it exists. It does in
-    the Linux kernel, and on modern Unix variants. However, if it does not
-    exist on your machine, then this function is actually unsafe, and you
-    should make sure that the printf() invocation represented by your
-    arguments will never write more than @a n characters, not including the
-    terminating null.
     @sa vsnprintf */
 StringAccum &
 StringAccum::snprintf(int n, const char *format, ...)
-- 
2.43.0


From 2de1cd68b43f9ff3ecb9eb60723cd44b538da8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:35 +0000
Subject: [PATCH 44/76] fix: raise a leaf's phantom epoch atomically, and in
 the new half of a split

A removal raises its leaf's phantom epoch, and the removal of a leaf raises
that of the leaf's predecessor without holding its lock, so the former must
not overwrite the latter.  A predecessor that is being split must pass an
epoch raised meanwhile on to its new sibling.  Otherwise a row inserted after
a removal can get a lower version than the removed row had, and recovery
prefers the removal.
---
 kvrow.hh           | 12 +++++-------
 masstree_remove.hh | 13 ++++---------
 masstree_split.hh  |  6 ++++++
 masstree_struct.hh | 15 +++++++++++++++
 4 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index 0bbc0d6..5ad89d5 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -88,7 +88,7 @@ class query {
                           const Json* lastreq, threadinfo& ti);
     inline bool apply_replace(R*& value, bool found, Str new_value,
                               threadinfo& ti);
-    inline void apply_remove(R* old_value, kvtimestamp_t& node_ts, threadinfo& ti);
+    inline void apply_remove(R* old_value, threadinfo& ti);
 
     template <typename RR> friend class query_json_scanner;
 };
@@ -250,7 +250,9 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     }
     if (found) {
         old_value = lp.value();
-        apply_remove(old_value, lp.node()->phantom_epoch_[0], ti);
+        apply_remove(old_value, ti);
+        // NB neighbors can change this too, without the lock
+        lp.node()->raise_phantom_epoch(qtimes_.ts + 2);
     }
     lp.finish(found ? -1 : 0, ti);
     if (found) {
@@ -261,17 +263,13 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
 }
 
 template <typename R>
-inline void query<R>::apply_remove(R* old_value, kvtimestamp_t& node_ts,
-                                   threadinfo& ti) {
+inline void query<R>::apply_remove(R* old_value, threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
         log->acquire();
         qtimes_.epoch = global_log_epoch;
     }
 
     assign_timestamp(ti, old_value->timestamp());
-    if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
-        node_ts = qtimes_.ts + 2;
-    }
 }
 
 
diff --git a/masstree_remove.hh b/masstree_remove.hh
index eaa00d3..e0398a1 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -101,9 +101,8 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         masstree_invariant(!lf->prev_);
         masstree_invariant(!lf->deleted());
         masstree_invariant(!lf->deleted_layer());
-        if (P::need_phantom_epoch
-            && circular_int<typename P::phantom_epoch_type>::less(n_->phantom_epoch_[0], lf->phantom_epoch_[0])) {
-            n_->phantom_epoch_[0] = lf->phantom_epoch_[0];
+        if (P::need_phantom_epoch) {
+            n_->raise_phantom_epoch(lf->phantom_epoch());
         }
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
@@ -206,12 +205,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     // kept up to date
     while (P::need_phantom_epoch) {
         leaf_type *prev = leaf->prev_;
-        typename P::phantom_epoch_type prev_ts = prev->phantom_epoch();
-        while (circular_int<typename P::phantom_epoch_type>::less(prev_ts, leaf->phantom_epoch())
-               && !bool_cmpxchg(&prev->phantom_epoch_[0], prev_ts, leaf->phantom_epoch())) {
-            prev_ts = prev->phantom_epoch();
-        }
-        fence();
+        prev->raise_phantom_epoch(leaf->phantom_epoch());
+        memory_fence();
         if (prev == leaf->prev_) {
             break;
         }
diff --git a/masstree_split.hh b/masstree_split.hh
index ac8d97c..ad851ae 100644
--- a/masstree_split.hh
+++ b/masstree_split.hh
@@ -199,6 +199,12 @@ bool tcursor<P>::make_split(threadinfo& ti)
     ikey_type xikey[2];
     int split_type = n_->split_into(static_cast<leaf_type*>(child),
                                     this, xikey[0], ti);
+    if (P::need_phantom_epoch) {
+        // A removed neighbor may have raised `n_`'s phantom epoch before it
+        // could see `child`
+        memory_fence();
+        static_cast<leaf_type*>(child)->raise_phantom_epoch(n_->phantom_epoch());
+    }
     unsigned sense = 0;
     node_type* n = n_;
     uint32_t height = 0;
diff --git a/masstree_struct.hh b/masstree_struct.hh
index ee75e08..1786b89 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -16,6 +16,7 @@
 #ifndef MASSTREE_STRUCT_HH
 #define MASSTREE_STRUCT_HH
 #include "masstree.hh"
+#include "circular_int.hh"
 #include "nodeversion.hh"
 #include "stringbag.hh"
 #include "mtcounters.hh"
@@ -325,6 +326,20 @@ class leaf : public node_base<P> {
         return P::need_phantom_epoch ? phantom_epoch_[0] : phantom_epoch_type();
     }
 
+    /** @brief Ensure that the phantom epoch is at least @a x.
+
+        Safe even if other threads raise it at the same time; a leaf's
+        neighbor does so without this leaf's lock (see remove_leaf). */
+    void raise_phantom_epoch(phantom_epoch_type x) {
+        if (P::need_phantom_epoch) {
+            phantom_epoch_type old = phantom_epoch_[0];
+            while (circular_int<phantom_epoch_type>::less(old, x)
+                   && !bool_cmpxchg(&phantom_epoch_[0], old, x)) {
+                old = phantom_epoch_[0];
+            }
+        }
+    }
+
     int size() const {
         return permuter_type::size(permutation_);
     }
-- 
2.43.0


From 60d32bf95199903e5f017ddf2792e59231983eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:51 +0000
Subject: [PATCH 45/76] fix: replay a logged remove as its marker, not as a
 change set

---
 log.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 15d9553..c8e07bb 100644
--- a/log.cc
+++ b/log.cc
@@ -550,7 +550,8 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
+        // NB a remove's `val` is its row marker, not a change set
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From 08ee1ec0a6733684ea3946eb58ab9fc81f8e7d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 46/76] fix: log a put without its request text in the form
 replay reads

---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index c8e07bb..d8cb988 100644
--- a/log.cc
+++ b/log.cc
@@ -371,7 +371,7 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
+    // NB no array header: replay expects a plain list of changes
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
-- 
2.43.0


From 00c38afd72f9f13a00f48d9c908d994de0372e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 47/76] fix: replay log records of the empty key

---
 log.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/log.cc b/log.cc
index d8cb988..3acdd34 100644
--- a/log.cc
+++ b/log.cc
@@ -727,12 +727,11 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         // correctness of checkpoint scheme.
         assert(repbegin);
         repend = nextpos;
-        if (lr.key.len) { // skip empty entry
-            if (lr.command == logcmd_put
-                || lr.command == logcmd_replace
-                || lr.command == logcmd_modify
-                || lr.command == logcmd_remove)
-                lr.run(tree->table(), jrepo, *ti);
+        if (lr.command == logcmd_put
+            || lr.command == logcmd_replace
+            || lr.command == logcmd_modify
+            || lr.command == logcmd_remove) { // NB the key may be empty
+            lr.run(tree->table(), jrepo, *ti);
             ++nr;
             if (nr % 100000 == 0)
                 fprintf(stderr,
-- 
2.43.0


From 9f3458ce1e530ca2433b2311d81610f87cb57544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 48/76] fix: log records wait their turn when the log buffer is
 full

---
 log.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 3acdd34..5fa6508 100644
--- a/log.cc
+++ b/log.cc
@@ -299,8 +299,10 @@ void loginfo::record(int command, const query_times& qtimes,
     waitlist wait = { &wait };
     int stalls = 0;
     while (1) {
+        // NB wait behind records that are already waiting, even if this record
+        // would fit: epochs must be recorded in order
         if (len_ - pos_ >= n
-            && (wait.next == &wait || f_.waiting_ == &wait)) {
+            && f_.waiting_ == (wait.next == &wait ? 0 : &wait)) {
             kvepoch_t we = global_wake_epoch;
 
             // Potentially record a new epoch.
-- 
2.43.0


From 18108b5610079aa8df6e6026bf0b099714468dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 49/76] fix: a log writer does not forget a wake epoch it has
 not recorded

---
 log.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/log.cc b/log.cc
index 5fa6508..151518c 100644
--- a/log.cc
+++ b/log.cc
@@ -248,20 +248,19 @@ void* loginfo::run() {
         uint32_t nb = 0;
         acquire();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
+        if (wake_epoch_ != we)
             quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
         if (!recovering && pos_ == 0 && !quiescent_epoch_
-            && ge != log_epoch_ && ge != we && !f_.waiting_) {
+            && ge != log_epoch_ && ge > we && !f_.waiting_) {
+            // NB only now is wake epoch `we` accounted for in the log. Until
+            // then, the next log record must be preceded by a wake command.
+            wake_epoch_ = we;
             quiescent_epoch_ = log_epoch_ = ge;
             char *p = buf_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
-            if (log_epoch_ == wake_epoch_)
-                p += logrec_base::store(p, logcmd_wake);
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
         }
-- 
2.43.0


From 8067f4cb37c683a68ea9ce247e8b39d3e927e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 50/76] fix: a wake command recorded late does not void what
 was flushed

---
 log.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 151518c..2b0f404 100644
--- a/log.cc
+++ b/log.cc
@@ -330,7 +330,11 @@ void loginfo::record(int command, const query_times& qtimes,
             if (we != wake_epoch_ && qtimes.epoch < we)
                 we = qtimes.epoch;
             if (we != wake_epoch_) {
-                wake_epoch_ = we;
+                // The wake command takes effect at the query epoch, so logs
+                // that went quiescent before then must notice that epoch too.
+                while (we < qtimes.epoch)
+                    we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
+                wake_epoch_ = we = qtimes.epoch;
                 pos_ += logrec_base::store(buf_ + pos_, logcmd_wake);
             }
 
-- 
2.43.0


From 0dda4ff042dc010473fbb66a6378257433765a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:51 +0000
Subject: [PATCH 51/76] fix: a quiescent log announces its wake epoch before
 its update is visible

---
 kvrow.hh    |  9 +++------
 kvthread.cc |  2 ++
 log.cc      | 10 ++++------
 log.hh      | 20 ++++++++++++++++++++
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index 5ad89d5..1b0071c 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -180,8 +180,7 @@ template <typename R>
 inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
                                 const Json* lastreq, threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
+        log->acquire(qtimes_);
     }
 
     if (!found) {
@@ -222,8 +221,7 @@ template <typename R>
 inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
                                     threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
+        log->acquire(qtimes_);
     }
 
     if (!found) {
@@ -265,8 +263,7 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
 template <typename R>
 inline void query<R>::apply_remove(R* old_value, threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
+        log->acquire(qtimes_);
     }
 
     assign_timestamp(ti, old_value->timestamp());
diff --git a/kvthread.cc b/kvthread.cc
index 140e94d..e9ee13b 100644
--- a/kvthread.cc
+++ b/kvthread.cc
@@ -14,6 +14,7 @@
  * is legally binding.
  */
 #include "kvthread.hh"
+#include "log.hh"
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -25,6 +26,7 @@
 #endif
 
 threadinfo *threadinfo::allthreads;
+kvepoch_t global_wake_epoch;
 #if ENABLE_ASSERTIONS
 int threadinfo::no_pool_value;
 #endif
diff --git a/log.cc b/log.cc
index 2b0f404..c6334cf 100644
--- a/log.cc
+++ b/log.cc
@@ -31,7 +31,6 @@
 using lcdf::String;
 
 kvepoch_t global_log_epoch;
-kvepoch_t global_wake_epoch;
 struct timeval log_epoch_interval;
 static struct timeval log_epoch_time;
 extern Masstree::default_table* tree;
@@ -318,8 +317,8 @@ void loginfo::record(int command, const query_times& qtimes,
                 if (flushed_epoch_ == quiescent_epoch_)
                     flushed_epoch_ = qtimes.epoch;
                 quiescent_epoch_ = 0;
-                while (we < qtimes.epoch)
-                    we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
+                announce_wake(qtimes.epoch);
+                we = global_wake_epoch;
             }
 
             // Log epochs should be recorded in monotonically increasing
@@ -332,9 +331,8 @@ void loginfo::record(int command, const query_times& qtimes,
             if (we != wake_epoch_) {
                 // The wake command takes effect at the query epoch, so logs
                 // that went quiescent before then must notice that epoch too.
-                while (we < qtimes.epoch)
-                    we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
-                wake_epoch_ = we = qtimes.epoch;
+                announce_wake(qtimes.epoch);
+                wake_epoch_ = qtimes.epoch;
                 pos_ += logrec_base::store(buf_ + pos_, logcmd_wake);
             }
 
diff --git a/log.hh b/log.hh
index 0a7212c..4c82843 100644
--- a/log.hh
+++ b/log.hh
@@ -42,6 +42,9 @@ class loginfo {
         kvtimestamp_t ts;
         kvtimestamp_t prev_ts;
     };
+    // Acquire the log and assign the query's epoch. Call before the query's
+    // effects are visible to other threads; follow with record().
+    inline void acquire(query_times& qt);
     // NB may block!
     void record(int command, const query_times& qt, Str key, Str value);
     void record(int command, const query_times& qt, Str key,
@@ -86,6 +89,8 @@ class loginfo {
     void* run();
     static void* trampoline(void*);
 
+    inline void announce_wake(kvepoch_t epoch);
+
     friend class logset;
 };
 
@@ -181,6 +186,21 @@ inline void loginfo::release() {
     test_and_set_release(&f_.lock_);
 }
 
+inline void loginfo::announce_wake(kvepoch_t epoch) {
+    kvepoch_t we = global_wake_epoch;
+    while (we < epoch)
+        we = cmpxchg(&global_wake_epoch, we, epoch);
+}
+
+inline void loginfo::acquire(query_times& qt) {
+    acquire();
+    qt.epoch = global_log_epoch;
+    // If this log is quiescent, it is about to wake up. A query that depends
+    // on this one must not be logged without a wake command.
+    if (quiescent_epoch_)
+        announce_wake(qt.epoch);
+}
+
 inline kvepoch_t loginfo::flushed_epoch() const {
     return flushed_epoch_;
 }
-- 
2.43.0


From 54aed743046252e7cae264f0b1ee318dd3ac7826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 52/76] fix: a missing or empty log tells recovery nothing

---
 log.cc | 2 +-
 mtd.cc | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/log.cc b/log.cc
index c6334cf..29002df 100644
--- a/log.cc
+++ b/log.cc
@@ -384,7 +384,7 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
 // replay
 
 logreplay::logreplay(const String &filename)
-    : filename_(filename), errno_(0), buf_()
+    : filename_(filename), errno_(0), size_(0), buf_()
 {
     int fd = open(filename_.c_str(), O_RDONLY);
     if (fd == -1) {
diff --git a/mtd.cc b/mtd.cc
index 0118285..fc4df27 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1383,7 +1383,7 @@ recover(threadinfo *)
   recphase(nckthreads, REC_CKP);
 
   // find minimum maximum timestamp of entries in each log
-  rec_log_infos = new logreplay::info_type[nlogger];
+  rec_log_infos = new logreplay::info_type[nlogger]();
   recphase(nlogger, REC_LOG_TS);
 
   // replay log entries, remove inconsistent entries, and append
@@ -1425,6 +1425,7 @@ recover(threadinfo *)
   for (logreplay::info_type *it = rec_log_infos;
        it != rec_log_infos + nlogger; ++it)
       if (it->quiescent
+          && it->last_epoch
           && (!min_quiescent_last_epoch || min_quiescent_last_epoch > it->last_epoch))
           min_quiescent_last_epoch = it->last_epoch;
 
-- 
2.43.0


From 8447fa83929c463bb5187f2d31372618fd740a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 53/76] fix: recovery analyzes exactly the log records it will
 replay

---
 log.cc | 74 +++++++++++++++++++---------------------------------------
 1 file changed, 24 insertions(+), 50 deletions(-)

diff --git a/log.cc b/log.cc
index 29002df..3166ec9 100644
--- a/log.cc
+++ b/log.cc
@@ -475,7 +475,8 @@ logrecord::extract(const char *buf, const char *end)
         val.assign(lk->buf_ + lk->keylen_, lk->size_ - sizeof(*lk) - lk->keylen_);
     } else if (command == logcmd_modify) {
         const logrec_kvdelta *lk = reinterpret_cast<const logrec_kvdelta *>(buf);
-        if (unlikely(lk->keylen_ > MASSTREE_MAXKEYLEN
+        if (unlikely(lk->size_ < sizeof(*lk)
+                     || lk->keylen_ > MASSTREE_MAXKEYLEN
                      || sizeof(*lk) + lk->keylen_ > lk->size_))
             goto fail;
         ts = lk->ts_;
@@ -487,7 +488,8 @@ logrecord::extract(const char *buf, const char *end)
         if (unlikely(lre->size_ < logrec_epoch::size()))
             goto fail;
         epoch = lre->epoch_;
-    }
+    } else if (command != logcmd_quiesce && command != logcmd_wake)
+        goto fail;
 
     return buf + lr->size_;
 }
@@ -616,39 +618,24 @@ logreplay::info() const
     const char *buf = buf_, *end = buf_ + size_;
     off_t nr = 0;
     bool log_corrupt = false;
-    while (buf + sizeof(logrec_base) <= end) {
-        const logrec_base *lr = reinterpret_cast<const logrec_base *>(buf);
-        if (unlikely(lr->size_ < sizeof(logrec_base))) {
+    logrecord lr;
+    while (buf < end) {
+        // NB stop where replay will stop
+        const char *next = lr.extract(buf, end);
+        if (unlikely(lr.command == logcmd_none)) {
             log_corrupt = true;
             break;
-        } else if (unlikely(buf + lr->size_ > end))
-            break;
-        x.quiescent = lr->command_ == logcmd_quiesce;
-        if (lr->command_ == logcmd_epoch) {
-            const logrec_epoch *lre =
-                reinterpret_cast<const logrec_epoch *>(buf);
-            if (unlikely(lre->size_ < sizeof(*lre))) {
-                log_corrupt = true;
-                break;
-            }
+        }
+        x.quiescent = lr.command == logcmd_quiesce;
+        if (lr.command == logcmd_epoch) {
             if (!x.first_epoch)
-                x.first_epoch = lre->epoch_;
-            x.last_epoch = lre->epoch_;
+                x.first_epoch = lr.epoch;
+            x.last_epoch = lr.epoch;
             if (x.wake_epoch && x.wake_epoch > x.last_epoch) // wrap-around
                 x.wake_epoch = 0;
-        } else if (lr->command_ == logcmd_wake)
+        } else if (lr.command == logcmd_wake)
             x.wake_epoch = x.last_epoch;
-#if !NDEBUG
-        else if (lr->command_ != logcmd_put
-                 && lr->command_ != logcmd_replace
-                 && lr->command_ != logcmd_modify
-                 && lr->command_ != logcmd_remove
-                 && lr->command_ != logcmd_quiesce) {
-            log_corrupt = true;
-            break;
-        }
-#endif
-        buf += lr->size_;
+        buf = next;
         ++nr;
     }
 
@@ -665,29 +652,16 @@ logreplay::min_post_quiescent_wake_epoch(kvepoch_t quiescent_epoch) const
 {
     kvepoch_t e = 0;
     const char *buf = buf_, *end = buf_ + size_;
-    bool log_corrupt = false;
-    while (buf + sizeof(logrec_base) <= end) {
-        const logrec_base *lr = reinterpret_cast<const logrec_base *>(buf);
-        if (unlikely(lr->size_ < sizeof(logrec_base))) {
-            log_corrupt = true;
-            break;
-        } else if (unlikely(buf + lr->size_ > end))
-            break;
-        if (lr->command_ == logcmd_epoch) {
-            const logrec_epoch *lre =
-                reinterpret_cast<const logrec_epoch *>(buf);
-            if (unlikely(lre->size_ < sizeof(*lre))) {
-                log_corrupt = true;
-                break;
-            }
-            e = lre->epoch_;
-        } else if (lr->command_ == logcmd_wake
-                   && e
-                   && e >= quiescent_epoch)
+    logrecord lr;
+    while (buf < end) {
+        buf = lr.extract(buf, end); // NB returns `end` for a bad record
+        if (lr.command == logcmd_epoch)
+            e = lr.epoch;
+        else if (lr.command == logcmd_wake
+                 && e
+                 && e >= quiescent_epoch)
             return e;
-        buf += lr->size_;
     }
-    (void) log_corrupt;
     return 0;
 }
 
-- 
2.43.0


From 1d493d2ad3488d4be37536d321d08093aa0a0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 54/76] fix: recovery leaves every log ending in the epoch
 where service resumes

---
 log.cc | 36 +++++++++++++++++++++++++++++++++---
 log.hh |  2 ++
 mtd.cc |  3 +++
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/log.cc b/log.cc
index 3166ec9..169b0f3 100644
--- a/log.cc
+++ b/log.cc
@@ -672,6 +672,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
     uint64_t nr = 0;
     const char *pos = buf_, *end = buf_ + size_;
     const char *repbegin = 0, *repend = 0;
+    bool need_marker = true, need_copy = false;
     logrecord lr;
     std::vector<lcdf::Json> jrepo;
 
@@ -689,7 +690,10 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
                 always_assert(repbegin);
-                repend = nextpos;
+                // the log must end with epoch `max_epoch`, no later epoch:
+                // service continues from there
+                need_marker = need_copy = lr.epoch != max_epoch;
+                repend = need_marker ? pos : nextpos;
                 break;
             }
         }
@@ -735,12 +739,14 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
            filename_.c_str(), size_, repend - repbegin,
            repbegin - buf_, repend - buf_);
 
-    bool need_copy = repbegin != buf_;
+    need_copy = need_copy || repbegin != buf_;
     int fd;
     if (!need_copy)
         fd = replay_truncate(repend - repbegin);
     else
         fd = replay_copy(tmplog, repbegin, repend);
+    if (need_marker)
+        write_end_marker(fd, max_epoch);
 
     r = fsync(fd);
     always_assert(r == 0);
@@ -811,6 +817,29 @@ logreplay::replay_copy(const char *tmpname, const char *first, const char *last)
     return fd;
 }
 
+// The log has all updates before `epoch`, and might soon have more. Until one
+// of them is flushed, nothing in any log at or after `epoch` can be replayed.
+void
+logreplay::write_end_marker(int fd, kvepoch_t epoch)
+{
+    char buf[sizeof(logrec_epoch)];
+    size_t n = logrec_epoch::store(buf, logcmd_epoch, epoch);
+    ssize_t w = safe_write(fd, buf, n);
+    always_assert(w >= 0 && size_t(w) == n);
+}
+
+void
+logreplay::create(kvepoch_t epoch)
+{
+    int fd = open(filename_.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0666);
+    always_assert(fd >= 0);
+    write_end_marker(fd, epoch);
+    int r = fsync(fd);
+    always_assert(r == 0);
+    r = close(fd);
+    always_assert(r == 0);
+}
+
 void
 logreplay::replay(int which, threadinfo *ti)
 {
@@ -839,6 +868,7 @@ logreplay::replay(int which, threadinfo *ti)
         uint64_t nr = replayandclean1(rec_replay_min_epoch, rec_replay_max_epoch, ti);
         ti->rcu_stop();
         printf("recovered %" PRIu64 " records from %s\n", nr, filename_.c_str());
-    }
+    } else
+        create(rec_replay_max_epoch);
     inactive();
 }
diff --git a/log.hh b/log.hh
index 4c82843..8f766d8 100644
--- a/log.hh
+++ b/log.hh
@@ -162,6 +162,8 @@ class logreplay {
                              threadinfo *ti);
     int replay_truncate(size_t len);
     int replay_copy(const char *tmpname, const char *first, const char *last);
+    void write_end_marker(int fd, kvepoch_t epoch);
+    void create(kvepoch_t epoch);
 };
 
 enum { REC_NONE, REC_CKP, REC_LOG_TS, REC_LOG_ANALYZE_WAKE,
diff --git a/mtd.cc b/mtd.cc
index fc4df27..1d43703 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1455,6 +1455,9 @@ recover(threadinfo *)
           rec_replay_max_epoch = it->min_post_quiescent_wake_epoch;
   }
 
+  if (!rec_replay_max_epoch) // no logs yet
+      rec_replay_max_epoch = rec_replay_max_epoch.next_nonzero();
+
   // Calculate lower bound of epochs to replay.
   rec_replay_min_epoch = rec_ckp_min_epoch;
   // XXX what about max_first_epoch?
-- 
2.43.0


From ebd84221d435c36993c496c971ce8d1960ec45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 55/76] fix: recognize a repeated partial update that awaits
 its base

Replaying a record a second time must change nothing, but a delta marker's
timestamp is odd, so a duplicate passed for an older update and was queued
behind the first; it could then never be applied.
---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 169b0f3..4828a8e 100644
--- a/log.cc
+++ b/log.cc
@@ -536,7 +536,7 @@ inline void logrecord::apply(row_type*& value, bool found,
 
     // find point to insert change (may be after some delta markers)
     while (*cur_value && row_is_delta_marker(*cur_value)
-           && (*cur_value)->timestamp() > ts)
+           && (*cur_value)->timestamp() > (ts | 1)) // NB markers have odd ts
         cur_value = &row_get_delta_marker(*cur_value)->prev_;
 
     // check out of date
-- 
2.43.0


From 6ca2c321b9761e091f228c1ff55ff41050603757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 56/76] fix: checkpointing does not leak its output buffers

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 1d43703..af0aae9 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1548,7 +1548,7 @@ conc_filecheckpoint(threadinfo *ti)
             ckp_gen.value(), ti->index());
     writecheckpoint(path, c, t0);
     c->count = 0;
-    free(c->vals);
+    free_kvout(c->vals);
 }
 
 static Json
-- 
2.43.0


From 767157613e5dacc50f0ca01a98d9b5f655070d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:31 +0000
Subject: [PATCH 57/76] fix: checkpoint partitions do not overlap

The pivots between the key ranges of a checkpoint could be empty (no bound at
all) or out of order, so that several threads wrote the same rows and the
server could not recover from the checkpoint.
---
 query_masstree.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/query_masstree.cc b/query_masstree.cc
index d514d9a..18b96c8 100644
--- a/query_masstree.cc
+++ b/query_masstree.cc
@@ -119,7 +119,8 @@ static Str findpv(N *n, int pvi, int npv)
         int first_pv_in_node = branchid * size;
         int pv_offset = pvi * total_nkeys_estimate / npv - first_pv_in_node;
 
-        if (!n->isleaf() && total_nkeys_estimate < npv) {
+        // NB an internode can have a single child and no keys
+        if (!n->isleaf() && (total_nkeys_estimate < npv || size == 1)) {
             internode_type *in = static_cast<internode_type *>(n);
             pv_offset = std::min(std::max(pv_offset, 0), size - 1);
             N *next = in->child_[pv_offset];
@@ -159,8 +160,18 @@ void query_table<P>::findpivots(Str *pv, int npv) const
     char *cmaxk = (char *)malloc(MASSTREE_MAXKEYLEN);
     memset(cmaxk, 255, MASSTREE_MAXKEYLEN);
     pv[npv - 1].assign(cmaxk, MASSTREE_MAXKEYLEN);
-    for (int i = 1; i < npv - 1; i++)
+    for (int i = 1; i < npv - 1; i++) {
         pv[i] = findpv(table_.root(), i, npv - 1);
+        // The pivots bound adjacent key ranges: they must be nonempty (an
+        // empty pivot doesn't bound its range) and in order.
+        Str least = i == 1 ? Str("\0", 1) : pv[i - 1];
+        if (pv[i] < least) {
+            free((void*) pv[i].s);
+            char* x = (char*) malloc(least.len);
+            memcpy(x, least.s, least.len);
+            pv[i].assign(x, least.len);
+        }
+    }
 }
 
 namespace {
-- 
2.43.0


From 18a39f0344d0ee38d1375228b353bcfa19b4d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 58/76] fix: a log that is created or emptied beside a
 checkpoint does not stop the next recovery

Recovery insists that every log begins before the checkpoint's min_epoch, but
left a new or emptied log beginning with its end marker.
---
 log.cc | 24 +++++++++++++++++-------
 log.hh |  4 ++--
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/log.cc b/log.cc
index 4828a8e..dfb5b6c 100644
--- a/log.cc
+++ b/log.cc
@@ -746,7 +746,8 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
     else
         fd = replay_copy(tmplog, repbegin, repend);
     if (need_marker)
-        write_end_marker(fd, max_epoch);
+        write_end_marker(fd, repbegin == repend ? min_epoch : kvepoch_t(0),
+                         max_epoch);
 
     r = fsync(fd);
     always_assert(r == 0);
@@ -819,21 +820,30 @@ logreplay::replay_copy(const char *tmpname, const char *first, const char *last)
 
 // The log has all updates before `epoch`, and might soon have more. Until one
 // of them is flushed, nothing in any log at or after `epoch` can be replayed.
+// If the log is otherwise empty, `min_epoch` is the first epoch not covered by
+// the checkpoint, if any; the log must not seem to begin later than that.
 void
-logreplay::write_end_marker(int fd, kvepoch_t epoch)
+logreplay::write_end_marker(int fd, kvepoch_t min_epoch, kvepoch_t epoch)
 {
-    char buf[sizeof(logrec_epoch)];
-    size_t n = logrec_epoch::store(buf, logcmd_epoch, epoch);
+    char buf[2 * sizeof(logrec_epoch)];
+    size_t n = 0;
+    if (min_epoch) {
+        do {
+            --min_epoch;
+        } while (!min_epoch); // 0 isn't valid
+        n += logrec_epoch::store(buf, logcmd_epoch, min_epoch);
+    }
+    n += logrec_epoch::store(buf + n, logcmd_epoch, epoch);
     ssize_t w = safe_write(fd, buf, n);
     always_assert(w >= 0 && size_t(w) == n);
 }
 
 void
-logreplay::create(kvepoch_t epoch)
+logreplay::create(kvepoch_t min_epoch, kvepoch_t epoch)
 {
     int fd = open(filename_.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0666);
     always_assert(fd >= 0);
-    write_end_marker(fd, epoch);
+    write_end_marker(fd, min_epoch, epoch);
     int r = fsync(fd);
     always_assert(r == 0);
     r = close(fd);
@@ -869,6 +879,6 @@ logreplay::replay(int which, threadinfo *ti)
         ti->rcu_stop();
         printf("recovered %" PRIu64 " records from %s\n", nr, filename_.c_str());
     } else
-        create(rec_replay_max_epoch);
+        create(rec_replay_min_epoch, rec_replay_max_epoch);
     inactive();
 }
diff --git a/log.hh b/log.hh
index 8f766d8..2e6aef8 100644
--- a/log.hh
+++ b/log.hh
@@ -162,8 +162,8 @@ class logreplay {
                              threadinfo *ti);
     int replay_truncate(size_t len);
     int replay_copy(const char *tmpname, const char *first, const char *last);
-    void write_end_marker(int fd, kvepoch_t epoch);
-    void create(kvepoch_t epoch);
+    void write_end_marker(int fd, kvepoch_t min_epoch, kvepoch_t epoch);
+    void create(kvepoch_t min_epoch, kvepoch_t epoch);
 };
 
 enum { REC_NONE, REC_CKP, REC_LOG_TS, REC_LOG_ANALYZE_WAKE,
-- 
2.43.0


From 8abac959f3c0ed2429c1b456fec2679c0b2b0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 59/76] fix: do not commit a checkpoint before every log is
 flushed past it

An unset flushed epoch was taken for a flushed one, a quiescent log might have
missed a wake command that bounds replay, and a log's state was read while its
writers were changing it. Recovery from such a checkpoint stops the server.
---
 log.cc |  8 +++-----
 log.hh |  5 ++++-
 mtd.cc | 11 ++++++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/log.cc b/log.cc
index dfb5b6c..5cf3a4d 100644
--- a/log.cc
+++ b/log.cc
@@ -311,11 +311,9 @@ void loginfo::record(int command, const query_times& qtimes,
 
             if (quiescent_epoch_) {
                 // We're recording a new log record on a log that's been
-                // quiescent for a while. If the quiescence marker has been
-                // flushed, then all epochs less than the query epoch are
-                // effectively on disk.
-                if (flushed_epoch_ == quiescent_epoch_)
-                    flushed_epoch_ = qtimes.epoch;
+                // quiescent for a while. NB this doesn't mean that all epochs
+                // less than the query epoch are effectively on disk: the log
+                // might have missed another log's wake command.
                 quiescent_epoch_ = 0;
                 announce_wake(qtimes.epoch);
                 we = global_wake_epoch;
diff --git a/log.hh b/log.hh
index 2e6aef8..a629924 100644
--- a/log.hh
+++ b/log.hh
@@ -208,7 +208,10 @@ inline kvepoch_t loginfo::flushed_epoch() const {
 }
 
 inline bool loginfo::quiescent() const {
-    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_;
+    // NB if a wake command might have been recorded since this log went
+    // quiescent, the log says nothing about epochs at or after that command
+    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_
+        && wake_epoch_ == global_wake_epoch;
 }
 
 inline int logset::size() const {
diff --git a/mtd.cc b/mtd.cc
index af0aae9..ea41168 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1592,14 +1592,19 @@ commit_checkpoint(Json ckpj)
     }
 }
 
+// Recovery would replay all logs up to (but not including) this epoch.
 static kvepoch_t
 max_flushed_epoch()
 {
-    kvepoch_t mfe = 0, ge = global_log_epoch;
+    kvepoch_t ge = global_log_epoch, mfe = ge;
     for (int i = 0; i < nlogger; ++i) {
         loginfo& log = logs->log(i);
+        // NB a query holds its log's lock from before its epoch is assigned
+        // until it is recorded
+        log.acquire();
         kvepoch_t fe = log.quiescent() ? ge : log.flushed_epoch();
-        if (!mfe || fe < mfe)
+        log.release();
+        if (fe < mfe)
             mfe = fe;
     }
     return mfe;
@@ -1644,7 +1649,7 @@ void* conc_checkpointer(void* x) {
 
       if (uncommitted_ckp) {
           kvepoch_t mfe = max_flushed_epoch();
-          if (!mfe || mfe > uncommitted_ckp["max_epoch"].to_u64()) {
+          if (mfe > uncommitted_ckp["max_epoch"].to_u64()) {
               commit_checkpoint(uncommitted_ckp);
               uncommitted_ckp = Json();
           }
-- 
2.43.0


From 9e20b868afea7ae92d27d05950b256fbcba6d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 60/76] fix: a checkpoint contains every update from before its
 first epoch

---
 mtd.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index ea41168..a4137d0 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1664,6 +1664,12 @@ void* conc_checkpointer(void* x) {
       ti->rcu_stop();
 
       kvepoch_t min_epoch = global_log_epoch;
+      // Updates from earlier epochs must be in the table before it is scanned
+      // (they hold their logs' locks until they are).
+      for (int i = 0; i < nlogger; ++i) {
+          logs->log(i).acquire();
+          logs->log(i).release();
+      }
       pthread_mutex_lock(&checkpoint_mu);
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
-- 
2.43.0


From cd8c41bd94e832492b37bb08201bdf1dba26ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:03 +0000
Subject: [PATCH 61/76] fix: log threads leave the epochs alone until recovery
 is over

The first logger to finish replay began to advance the global epoch while
others still replayed, and could overwrite the epoch that recovery chose; a
logger could also note quiescence in an epoch from before that choice.
---
 log.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/log.cc b/log.cc
index 5cf3a4d..0039908 100644
--- a/log.cc
+++ b/log.cc
@@ -246,13 +246,16 @@ void* loginfo::run() {
     while (1) {
         uint32_t nb = 0;
         acquire();
+        // NB the epochs aren't valid until recovery is over
+        bool running = !recovering;
+        acquire_fence();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
         if (wake_epoch_ != we)
             quiescent_epoch_ = 0;
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
-        if (!recovering && pos_ == 0 && !quiescent_epoch_
+        if (running && pos_ == 0 && !quiescent_epoch_
             && ge != log_epoch_ && ge > we && !f_.waiting_) {
             // NB only now is wake epoch `we` accounted for in the log. Until
             // then, the next log record must be preceded by a wake command.
@@ -263,7 +266,7 @@ void* loginfo::run() {
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
         }
-        if (!recovering && pos_ > 0) {
+        if (running && pos_ > 0) {
             uint32_t x_pos = pos_;
             std::swap(buf_, x_buf);
             pos_ = 0;
@@ -279,7 +282,7 @@ void* loginfo::run() {
             release();
         if (nb < len_ / 4)
             napms(200);
-        if (ti_->index() == 0)
+        if (running && ti_->index() == 0)
             check_epoch();
     }
 
-- 
2.43.0


From a981f39323ab8340037455dc0747b8164ff5002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:00 +0000
Subject: [PATCH 62/76] fix: the answer to a get of an absent key does not echo
 the key as its value

---
 kvrow.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kvrow.hh b/kvrow.hh
index 1b0071c..130f2bf 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -134,6 +134,8 @@ void query<R>::run_get(T& table, Json& req, threadinfo& ti) {
         }
         req.resize(2);
         emit_fields(lp.value(), req, ti);
+    } else {
+        req.resize(2);
     }
 }
 
-- 
2.43.0


From 1882da0864e62482e48670784d0592c25c63ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:00 +0000
Subject: [PATCH 63/76] fix: a client that closes with answers outstanding does
 not kill the server

---
 mtd.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index a4137d0..c708dbb 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -704,6 +704,9 @@ main(int argc, char *argv[])
   // for -pg profiling
   signal(SIGINT, catchint);
 
+  // a client that is gone is a write error, not the end of the server
+  signal(SIGPIPE, SIG_IGN);
+
   // log epoch starts at 1
   global_log_epoch = 1;
   global_wake_epoch = 0;
-- 
2.43.0


From c44c7cde8784028e3d2c0ac0998a11e4b1789fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:00 +0000
Subject: [PATCH 64/76] fix: a logged key outlives the request it came in

---
 mtd.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index c708dbb..e22240e 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -971,11 +971,11 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         q.run_get(tree->table(), request, ti);
     } else if (command == Cmd_Put && request.size() > 3
                && (request.size() % 2) == 1) { // insert or update
-        Str key(request[2].as_s());
+        // NB outlives request[2], which might own its characters
+        String key(request[2].as_s());
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
-        request[2] = q.run_put(tree->table(), request[2].as_s(),
-                               req, end_req, ti);
+        request[2] = q.run_put(tree->table(), key, req, end_req, ti);
         if (ti.logger() && request_str) {
             // use the client's parsed version of the request
             msgpack::parser mp(request_str.data());
@@ -985,7 +985,7 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
-        Str key(request[2].as_s()), value(request[3].as_s());
+        String key(request[2].as_s()), value(request[3].as_s());
         request[2] = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
-- 
2.43.0


From dbe823ce97e73763740d4d85717f737c0374187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:00 +0000
Subject: [PATCH 65/76] fix: malformed requests are refused, not executed

---
 mtd.cc | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index e22240e..f1f4caa 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -63,6 +63,7 @@
 #include "msgpack.hh"
 #include <algorithm>
 #include <deque>
+#include <limits>
 using lcdf::StringAccum;
 
 enum { CKState_Quit, CKState_Uninit, CKState_Ready, CKState_Go };
@@ -958,9 +959,57 @@ int handshake(Json& request, threadinfo& ti) {
     return request[2].as_b() ? 1 : -1;
 }
 
+static bool valid_column(const Json& j) {
+    return j.is_i() && j.as_i() >= 0
+        && j.as_i() <= std::numeric_limits<row_type::index_type>::max();
+}
+
+// Return true iff `request` has the form its command requires.
+static bool valid_request(const Json& request) {
+    int n = request.size();
+    if (n < 2 || request[0].is_a() || request[0].is_o() || !request[1].is_i())
+        return false;
+    auto command = request[1].as_i();
+    if (command == Cmd_Checkpoint)
+        return true;
+    if (n < 3 || !request[2].is_s()
+        || request[2].as_s().length() > MASSTREE_MAXKEYLEN)
+        return false;
+    int column = n;
+    switch (command) {
+    case Cmd_Get:
+        column = 3;
+        break;
+    case Cmd_Put: // columns must be strictly increasing
+        if (n < 5 || n % 2 != 1)
+            return false;
+        for (int i = 3; i != n; i += 2)
+            if (!valid_column(request[i]) || !request[i + 1].is_s()
+                || (i != 3 && request[i].as_i() <= request[i - 2].as_i()))
+                return false;
+        return true;
+    case Cmd_Replace:
+        return n > 3 && request[3].is_s();
+    case Cmd_Remove:
+        return true;
+    case Cmd_Scan:
+        if (n < 4 || !request[3].is_i() || request[3].as_i() <= 0
+            || request[3].as_i() > std::numeric_limits<int>::max())
+            return false;
+        column = 4;
+        break;
+    default:
+        return false;
+    }
+    for (; column != n; ++column)
+        if (!valid_column(request[column]))
+            return false;
+    return true;
+}
+
 // execute command, return result.
 int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
-    int command = request[1].as_i();
+    int command = valid_request(request) ? request[1].as_i() : -1;
     if (command == Cmd_Checkpoint) {
         // force checkpoint
         pthread_mutex_lock(&checkpoint_mu);
@@ -969,8 +1018,7 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         request.resize(2);
     } else if (command == Cmd_Get) {
         q.run_get(tree->table(), request, ti);
-    } else if (command == Cmd_Put && request.size() > 3
-               && (request.size() % 2) == 1) { // insert or update
+    } else if (command == Cmd_Put) { // insert or update
         // NB outlives request[2], which might own its characters
         String key(request[2].as_s());
         const Json* req = request.array_data() + 3;
@@ -1000,8 +1048,8 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
     } else if (command == Cmd_Scan) {
         q.run_scan(tree->table(), request, ti);
     } else {
-        request[1] = -1;
         request.resize(2);
+        request[1] = -1;
         return -1;
     }
     request[1] = command + 1;
-- 
2.43.0


From e21aee8e62a722e5a737506f7e898ab5be37c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 66/76] fix: a malformed handshake is refused, it does not stop
 the server

---
 mtd.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index f1f4caa..8f122eb 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -848,7 +848,8 @@ main(int argc, char *argv[])
     msgpack::streaming_parser sp;
     if (nr == 0 || sp.consume(buf, nr) != (size_t) nr
         || !sp.result().is_a() || sp.result().size() < 2
-        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake) {
+        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake
+        || (sp.result().size() > 2 && !sp.result()[2].is_o())) {
         fprintf(stderr, "failed handshake\n");
         goto kill_connection;
     }
@@ -943,7 +944,7 @@ int handshake(Json& request, threadinfo& ti) {
     always_assert(request.is_a() && request.size() >= 2
                   && request[1].is_i() && request[1].as_i() == Cmd_Handshake
                   && (request.size() == 2 || request[2].is_o()));
-    if (request.size() >= 2
+    if (request.size() > 2
         && request[2]["maxkeylen"].is_i()
         && request[2]["maxkeylen"].as_i() > MASSTREE_MAXKEYLEN) {
         request[2] = false;
-- 
2.43.0


From efd386a6cfeeec9a96284257a5f37ee72d64d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 67/76] fix: an answer is written before the rows it refers to
 can be freed

---
 mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 8f122eb..dfbdfe5 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1208,9 +1208,10 @@ void* tcp_threadfunc(void* x) {
                     goto closed;
                 ti->rcu_start();
                 ret = onego(q, request, c->recent_string(xposition), *ti);
-                ti->rcu_stop();
+                // NB the answer can refer to the characters of rows
                 msgpack::unparse(*c->kvout, request);
                 request.clear();
+                ti->rcu_stop();
                 if (likely(ret >= 0)) {
                     if (c->check(0))
                         ready.push_back(c);
-- 
2.43.0


From 85c46e4a0df2aa0d895ecbbae5ee30e2cd30808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 68/76] fix: a request that arrives in part does not hold up
 other connections

---
 mtd.cc | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index dfbdfe5..1ca6f5c 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -26,6 +26,7 @@
 #include <netinet/in.h>
 #include <netinet/tcp.h>
 #include <sys/select.h>
+#include <poll.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <limits.h>
@@ -469,8 +470,8 @@ struct conn {
 
     conn(int s)
         : fd(s), inbuf_(new char[inbufsz]),
-          inbufpos_(0), inbuflen_(0), kvout(new_kvout(s, 20 * 1024)),
-          inbuftotal_(0) {
+          inbufpos_(0), inbuflen_(0), eof_(false),
+          kvout(new_kvout(s, 20 * 1024)), inbuftotal_(0), requestpos_(0) {
     }
     ~conn() {
         close(fd);
@@ -480,15 +481,25 @@ struct conn {
             delete[] x;
     }
 
-    Json& receive() {
-        while (!parser_.done() && check(2))
+    // Return true iff request() is the next request, or null because the
+    // connection is over; false means part of a request is yet to arrive.
+    // Does not block if the caller knows that there is input.
+    bool receive() {
+        if (parser_.empty())
+            requestpos_ = xposition();
+        for (int tryhard = 2; !parser_.done() && check(tryhard); tryhard = 1)
             inbufpos_ += parser_.consume(inbuf_ + inbufpos_,
                                          inbuflen_ - inbufpos_,
                                          String::make_stable(inbuf_, inbufsz));
+        if (!parser_.done() && !eof_)
+            return false;
         if (parser_.success() && parser_.result().is_a())
             parser_.reset();
         else
             parser_.result() = Json();
+        return true;
+    }
+    Json& request() {
         return parser_.result();
     }
 
@@ -501,9 +512,10 @@ struct conn {
     uint64_t xposition() const {
         return inbuftotal_ + inbufpos_;
     }
-    Str recent_string(uint64_t xposition) const {
-        if (xposition - inbuftotal_ <= unsigned(inbufpos_))
-            return Str(inbuf_ + (xposition - inbuftotal_),
+    // Return the characters of request(), if they are in one buffer.
+    Str request_string() const {
+        if (requestpos_ - inbuftotal_ <= unsigned(inbufpos_))
+            return Str(inbuf_ + (requestpos_ - inbuftotal_),
                        inbuf_ + inbufpos_);
         else
             return Str();
@@ -513,12 +525,14 @@ struct conn {
     char* inbuf_;
     int inbufpos_;
     int inbuflen_;
+    bool eof_;
     std::vector<char*> oldinbuf_;
     msgpack::streaming_parser parser_;
   public:
     struct kvout *kvout;
   private:
     uint64_t inbuftotal_;
+    uint64_t requestpos_;
 
     void hard_check(int tryhard);
 };
@@ -538,18 +552,17 @@ void conn::hard_check(int tryhard) {
         inbufpos_ = inbuflen_ = 0;
     }
     if (tryhard == 1) {
-        fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(fd, &rfds);
-        struct timeval tv = {0, 0};
-        if (select(fd + 1, &rfds, NULL, NULL, &tv) <= 0)
+        struct pollfd pfd = {fd, POLLIN, 0};
+        if (poll(&pfd, 1, 0) <= 0)
             return;
     } else
         kvflush(kvout);
 
     ssize_t r = read(fd, inbuf_ + inbufpos_, inbufsz - inbufpos_);
-    if (r != -1)
+    if (r > 0)
         inbuflen_ += r;
+    else
+        eof_ = true;
 }
 
 struct conninfo {
@@ -1201,13 +1214,16 @@ void* tcp_threadfunc(void* x) {
                 }
             } else if (c) {
                 // Should not block as suggested by epoll
-                uint64_t xposition = c->xposition();
-                Json& request = c->receive();
+                if (!c->receive()) {
+                    kvflush(c->kvout);
+                    continue;
+                }
+                Json& request = c->request();
                 int ret;
                 if (unlikely(!request))
                     goto closed;
                 ti->rcu_start();
-                ret = onego(q, request, c->recent_string(xposition), *ti);
+                ret = onego(q, request, c->request_string(), *ti);
                 // NB the answer can refer to the characters of rows
                 msgpack::unparse(*c->kvout, request);
                 request.clear();
-- 
2.43.0


From 04487330e9b96654ae02ca49580389125c0d2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 69/76] fix: a handshake may arrive in part, with requests
 after it, or never

---
 mtd.cc | 119 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 79 insertions(+), 40 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 1ca6f5c..dcd0a1e 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -468,10 +468,14 @@ struct conn {
     int fd;
     enum { inbufsz = 20 * 1024, inbufrefill = 16 * 1024 };
 
-    conn(int s)
+    conn(int s, const String& input)
         : fd(s), inbuf_(new char[inbufsz]),
           inbufpos_(0), inbuflen_(0), eof_(false),
           kvout(new_kvout(s, 20 * 1024)), inbuftotal_(0), requestpos_(0) {
+        // `input` is what came along with the handshake
+        masstree_precondition(input.length() <= inbufsz);
+        memcpy(inbuf_, input.data(), input.length());
+        inbuflen_ = input.length();
     }
     ~conn() {
         close(fd);
@@ -568,8 +572,43 @@ void conn::hard_check(int tryhard) {
 struct conninfo {
     int s;
     Json handshake;
+    msgpack::streaming_parser parser;
+    size_t nread;
+    String input;
+
+    conninfo(int s)
+        : s(s), nread(0) {
+    }
+    int receive_handshake();
 };
 
+// Read what has arrived of a handshake. Return 1 if it is complete, 0 if the
+// rest is yet to come, and -1 on error.
+int conninfo::receive_handshake() {
+    char buf[BUFSIZ];
+    ssize_t nr = read(s, buf, sizeof(buf));
+    if (nr == -1)
+        perror("read");
+    if (nr <= 0)
+        return -1;
+    size_t consumed = 0;
+    while (consumed != (size_t) nr && !parser.done())
+        consumed += parser.consume(buf + consumed, nr - consumed);
+    nread += consumed;
+    if (!parser.done() && nread < sizeof(buf))
+        return 0;
+    const Json& j = parser.result();
+    if (!parser.success() || !j.is_a() || j.size() < 2
+        || !j[1].is_i() || j[1].as_i() != Cmd_Handshake
+        || (j.size() > 2 && !j[2].is_o())) {
+        fprintf(stderr, "failed handshake\n");
+        return -1;
+    }
+    handshake = j;
+    input = String(buf + consumed, nr - consumed);
+    return 1;
+}
+
 
 /* main loop */
 
@@ -837,51 +876,50 @@ main(int argc, char *argv[])
   ret = pthread_create(&canceling_tid, NULL, canceling, NULL);
   always_assert(ret == 0);
 
+  // connections whose handshakes are yet to arrive
+  std::vector<conninfo*> handshaking;
+  std::vector<struct pollfd> pfds;
   static int next = 0;
   while(1){
-    int s1;
-    struct sockaddr_in sin1;
-    socklen_t sinlen = sizeof(sin1);
+    pfds.assign(1, pollfd{s, POLLIN, 0});
+    for (conninfo* ci : handshaking)
+        pfds.push_back(pollfd{ci->s, POLLIN, 0});
+    if (poll(pfds.data(), pfds.size(), -1) < 0)
+        continue;
 
-    bzero(&sin1, sizeof(sin1));
-    s1 = accept(s, (struct sockaddr *) &sin1, &sinlen);
-    always_assert(s1 >= 0);
-    setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
+    // Complete handshakes.
+    size_t nwaiting = 0;
+    for (size_t j = 0; j != handshaking.size(); ++j) {
+        conninfo* ci = handshaking[j];
+        int r = pfds[j + 1].revents ? ci->receive_handshake() : 0;
+        if (r == 0) {
+            handshaking[nwaiting++] = ci;
+            continue;
+        } else if (r < 0) {
+            close(ci->s);
+            delete ci;
+            continue;
+        }
 
-    // Complete handshake.
-    char buf[BUFSIZ];
-    ssize_t nr = read(s1, buf, BUFSIZ);
-    if (nr == -1) {
-        perror("read");
-    kill_connection:
-        close(s1);
-        continue;
-    }
+        int target_core = -1;
+        if (ci->handshake.size() >= 3 && ci->handshake[2]["core"].is_i())
+            target_core = ci->handshake[2]["core"].as_i();
+        if (target_core < 0 || target_core >= tcpthreads) {
+            target_core = next % tcpthreads;
+            ++next;
+        }
 
-    msgpack::streaming_parser sp;
-    if (nr == 0 || sp.consume(buf, nr) != (size_t) nr
-        || !sp.result().is_a() || sp.result().size() < 2
-        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake
-        || (sp.result().size() > 2 && !sp.result()[2].is_o())) {
-        fprintf(stderr, "failed handshake\n");
-        goto kill_connection;
+        ssize_t w = write(tcp_thread_pipes[2*target_core + 1], &ci, sizeof(ci));
+        always_assert((size_t) w == sizeof(ci));
     }
+    handshaking.resize(nwaiting);
 
-    int target_core = -1;
-    if (sp.result().size() >= 3 && sp.result()[2].is_o()
-        && sp.result()[2]["core"].is_i())
-        target_core = sp.result()[2]["core"].as_i();
-    if (target_core < 0 || target_core >= tcpthreads) {
-        target_core = next % tcpthreads;
-        ++next;
+    if (pfds[0].revents) {
+        int s1 = accept(s, 0, 0);
+        always_assert(s1 >= 0);
+        setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
+        handshaking.push_back(new conninfo(s1));
     }
-
-    conninfo* ci = new conninfo;
-    ci->s = s1;
-    swap(ci->handshake, sp.result());
-
-    ssize_t w = write(tcp_thread_pipes[2*target_core + 1], &ci, sizeof(ci));
-    always_assert((size_t) w == sizeof(ci));
   }
 }
 
@@ -1201,7 +1239,7 @@ void* tcp_threadfunc(void* x) {
                 ssize_t len = read(myfd, ci, sizeof(ci));
                 always_assert(len > 0 && len % sizeof(int) == 0);
                 for (int j = 0; j * sizeof(*ci) < (size_t) len; ++j) {
-                    struct conn *c = new conn(ci[j]->s);
+                    struct conn *c = new conn(ci[j]->s, ci[j]->input);
                     sloop.add(c->fd, c);
                     int ret = handshake(ci[j]->handshake, *ti);
                     msgpack::unparse(*c->kvout, ci[j]->handshake);
@@ -1209,7 +1247,8 @@ void* tcp_threadfunc(void* x) {
                     if (ret < 0) {
                         sloop.remove(c->fd);
                         delete c;
-                    }
+                    } else if (c->check(0))
+                        ready.push_back(c);
                     delete ci[j];
                 }
             } else if (c) {
-- 
2.43.0


From 74ab3cb11045d154e1233cc77298cfaff5d3a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 70/76] fix: a connection that cannot be accepted does not stop
 the server

---
 mtd.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index dcd0a1e..402489e 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -916,9 +916,14 @@ main(int argc, char *argv[])
 
     if (pfds[0].revents) {
         int s1 = accept(s, 0, 0);
-        always_assert(s1 >= 0);
-        setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
-        handshaking.push_back(new conninfo(s1));
+        if (s1 >= 0) {
+            setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
+            handshaking.push_back(new conninfo(s1));
+        } else {
+            // the client is gone, or there are too many; try again
+            perror("accept");
+            usleep(1000);
+        }
     }
   }
 }
-- 
2.43.0


From d8d24a7bf15d94c98629467c96559f4b39d0f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 71/76] fix: a UDP request does not extend past its datagram

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 402489e..cbe37bc 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1326,7 +1326,7 @@ void* udp_threadfunc(void* x) {
     kvout_reset(kvout);
 
     parser.reset();
-    unsigned consumed = parser.consume(buf.data(), buf.length(), buf);
+    unsigned consumed = parser.consume(buf.data(), cc, buf);
 
     // Fail if we received a partial request
     if (parser.success() && parser.result().is_a()) {
-- 
2.43.0


From 09edb1bd07a8728bfe862304f83bb8d80ee4ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 72/76] fix: a UDP answer that cannot be sent does not stop the
 server

---
 mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index cbe37bc..8756d31 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1337,7 +1337,8 @@ void* udp_threadfunc(void* x) {
             cu << parser.result();
             cc = sendto(s, sa.data(), sa.length(), 0,
                         (struct sockaddr*) &sin, sinlen);
-            always_assert(cc == (ssize_t) sa.length());
+            if (cc != (ssize_t) sa.length()) // too long, or unreachable
+                perror("udpgo write");
         }
         ti->rcu_stop();
     } else
-- 
2.43.0


From 8331bbeadb9ee424c7108a46067bead5969352ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 73/76] fix: the client sends requested columns in the form the
 server reads

---
 mtclient.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mtclient.hh b/mtclient.hh
index 3413166..c0e361f 100644
--- a/mtclient.hh
+++ b/mtclient.hh
@@ -89,11 +89,12 @@ class KVConn {
         send();
     }
     void sendget(Str key, const std::vector<unsigned>& f, unsigned seq) {
-        j_.resize(4);
+        j_.resize(3);
         j_[0] = seq;
         j_[1] = Cmd_Get;
         j_[2] = String::make_stable(key);
-        j_[3] = Json(f.begin(), f.end());
+        for (unsigned col : f)
+            j_.push_back(col);
         send();
     }
 
@@ -132,12 +133,13 @@ class KVConn {
     }
     void sendscan(Str firstkey, const std::vector<unsigned>& f,
                   int numpairs, unsigned seq) {
-        j_.resize(5);
+        j_.resize(4);
         j_[0] = seq;
         j_[1] = Cmd_Scan;
         j_[2] = String::make_stable(firstkey);
         j_[3] = numpairs;
-        j_[4] = Json(f.begin(), f.end());
+        for (unsigned col : f)
+            j_.push_back(col);
         send();
     }
 
-- 
2.43.0


From ede8434a63aec1b08d865a4d1621c0249d41b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:03 +0000
Subject: [PATCH 74/76] fix: a checkpoint whose pivots are not UTF-8 must be
 recoverable

The checkpoint's description listed its pivot keys as raw JSON strings. When
such a key was not valid UTF-8, recovery could not parse the description and
silently ignored the checkpoint, losing everything only it contained.
---
 mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 8756d31..61dbac5 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1675,9 +1675,10 @@ prepare_checkpoint(kvepoch_t min_epoch, int nckthreads, const Str *pv)
         .set("generation", ckp_gen.value())
         .set("nckthreads", nckthreads);
 
+    // NB keys are arbitrary bytes, but JSON strings must be valid UTF-8
     Json pvj;
     for (int i = 1; i < nckthreads; ++i)
-        pvj.push_back(Json::make_string(pv[i].s, pv[i].len));
+        pvj.push_back(String(pv[i].s, pv[i].len).encode_uri_component());
     j.set("pivots", pvj);
 
     return j;
-- 
2.43.0


From 73b58a234e2a452ca89a4ce25d159e8fb26e6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:11 +0000
Subject: [PATCH 75/76] fix: a log thread has its own copy of its file name

log_init's temporary was released while the new thread copied it; String
reference counts are not atomic, so the name could be freed while in use.
---
 log.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/log.cc b/log.cc
index 0039908..e77d275 100644
--- a/log.cc
+++ b/log.cc
@@ -211,9 +211,14 @@ void* loginfo::trampoline(void* x) {
 void loginfo::initialize(const String& logfile) {
     assert(!ti_);
 
+    // NB the log thread needs its own copy; the caller's might be released
+    // while it starts, and String reference counts are not atomic.
     f_.filename_.deref();
-    f_.filename_ = logfile.internal_rep();
-    f_.filename_.ref();
+    {
+        String filename(logfile.data(), logfile.length());
+        f_.filename_ = filename.internal_rep();
+        f_.filename_.ref();
+    }
 
     ti_ = threadinfo::make(threadinfo::TI_LOG, logindex_);
     int r = pthread_create(&ti_->pthread(), 0, trampoline, this);
-- 
2.43.0


From 8a379f760c592d01c1321f5e3184a0bc0a3878ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:43 +0000
Subject: [PATCH 76/76] fix: collecting a layer does not wait for nodes that
 are changing

The descent to the leftmost leaf waited for nodes marked as changing. mtd
holds its log's lock there, and a thread that has marked a leaf can be
waiting for that lock.
---
 masstree_remove.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index e0398a1..6f66f9b 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -159,9 +159,17 @@ void gc_layer_rcu_callback<P>::make(node_base<P>* root, Str prefix,
 {
     // The root node can split and later be freed before this callback runs.
     // The leftmost leaf of the first layer lives as long as the tree, so
-    // remember that and find the root from there.
-    typename node_base<P>::nodeversion_type v;
-    root = root->reach_leaf(typename node_base<P>::key_type(typename P::ikey_type(0)), v, ti);
+    // remember that and find the root from there. NB do not wait for nodes
+    // that are changing: whoever changes them might wait for a lock we hold,
+    // such as a log's.
+    while (!root->isleaf()) {
+        node_base<P>* child = static_cast<typename node_base<P>::internode_type*>(root)->child_[0];
+        if (!child) {           // `root` has been removed; start over above it
+            relax_fence();
+            child = root->maybe_parent();
+        }
+        root = child;
+    }
 
     size_t sz = prefix.len + sizeof(gc_layer_rcu_callback<P>);
     void *data = ti.allocate(sz, memtag_masstree_gc);
-- 
2.43.0

