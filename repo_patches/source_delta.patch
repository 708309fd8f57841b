From 03fe3a163801de0919a106df60e1638ded6a93ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 01/38] fix: const end() and rend() of btree::map recurse
 forever

cend() returned end(), which is cend() again on a const map, so a miss of the
const find, lower_bound or upper_bound overflowed the stack.
---
 include/indexes/btree/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f37acdf..5ee9a74 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -894,7 +894,7 @@ public:
 
   inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
 
-  inline const_iterator cend() const { return end(); }
+  inline const_iterator cend() const { return {this, nullptr, 0}; }
 
   inline const_iterator begin() const { return cbegin(); }
 
@@ -912,7 +912,7 @@ public:
     return {this, leaf, leaf->num_values - 1};
   }
 
-  inline const_reverse_iterator crend() const { return end(); }
+  inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
 
   inline const_reverse_iterator rbegin() const { return crbegin(); }
 
-- 
2.43.0


From c024cb4c3018a81785e2a73cea909f41755d402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 02/38] fix: btree::map iteration steps onto leaves emptied by
 erase

An emptied leaf is kept when it is the leftmost of its parent (or the root).
begin(), rbegin(), ++ and -- stopped on such a leaf and designated an erased
entry; on an emptied map begin() differed from end(), and rbegin() dereferenced
a null root on a map never filled.
---
 include/indexes/btree/map.h | 43 ++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 5ee9a74..9d00ab6 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -722,27 +722,22 @@ public:
 
     friend class map;
 
+    // Leaves emptied by erase stay in the tree, step over them.
     void increment() {
-      if (++m_curslot >= m_leaf->num_values) {
-        if (this->m_leaf->highkey) {
-          m_leaf = m_bt->get_next_leaf(m_leaf);
-          m_curslot = 0;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+      m_curslot++;
+
+      while (m_leaf && m_curslot >= m_leaf->num_values) {
+        m_leaf = m_leaf->highkey ? m_bt->get_next_leaf(m_leaf) : nullptr;
+        m_curslot = 0;
       }
     }
 
     void decrement() {
-      if (--m_curslot < 0) {
-        if (this->m_leaf->lowkey) {
-          m_leaf = m_bt->get_prev_leaf(this->m_leaf);
-          m_curslot = m_leaf->num_values - 1;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+      m_curslot--;
+
+      while (m_leaf && m_curslot < 0) {
+        m_leaf = m_leaf->lowkey ? m_bt->get_prev_leaf(m_leaf) : nullptr;
+        m_curslot = m_leaf ? m_leaf->num_values - 1 : 0;
       }
     }
 
@@ -888,11 +883,17 @@ public:
     return end();
   }
 
-  inline iterator begin() { return {this, get_first_leaf(), 0}; }
+  inline iterator begin() {
+    iterator it = {this, get_first_leaf(), -1};
+    return ++it;
+  }
 
   inline iterator end() { return {this, nullptr, 0}; }
 
-  inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
+  inline const_iterator cbegin() const {
+    const_iterator it = {this, get_first_leaf(), -1};
+    return ++it;
+  }
 
   inline const_iterator cend() const { return {this, nullptr, 0}; }
 
@@ -902,14 +903,16 @@ public:
 
   inline reverse_iterator rbegin() {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    reverse_iterator it = {this, leaf, leaf ? leaf->num_values : 1};
+    return ++it;
   }
 
   inline reverse_iterator rend() { return end(); }
 
   inline const_reverse_iterator crbegin() const {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    const_reverse_iterator it = {this, leaf, leaf ? leaf->num_values : 1};
+    return ++it;
   }
 
   inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
-- 
2.43.0


From a9eb73bc222974ff623782f0da6613c1174e8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 03/38] fix: btree::map operator[] leaves a new value
 unconstructed

Only the key of a new entry was constructed: reading map[key] of a new key gave
garbage, and assigning to a value of class type assigned to raw memory.
---
 include/indexes/btree/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 9d00ab6..e390f4d 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -262,7 +262,7 @@ private:
         int current_value_offset =
             this->last_value_offset - sizeof(key_value_t);
 
-        new (opaque() + current_value_offset) key_type{key};
+        new (opaque() + current_value_offset) key_value_t{key, value_t{}};
 
         std::copy_backward(slots + pos, slots + this->num_values,
                            slots + this->num_values + 1);
-- 
2.43.0


From d1929014bf8aa66a4bf247923e969f88301e2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:54 +0000
Subject: [PATCH 04/38] fix: -- from end() and rend() of btree::map
 dereferences null

The iterators are declared bidirectional, so std::prev(end()) must designate
the last entry.
---
 include/indexes/btree/map.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index e390f4d..19ce2aa 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -724,6 +724,9 @@ public:
 
     // Leaves emptied by erase stay in the tree, step over them.
     void increment() {
+      if (!m_leaf) // rend(), step back to the first entry
+        *this = {m_bt, m_bt->get_first_leaf(), -1};
+
       m_curslot++;
 
       while (m_leaf && m_curslot >= m_leaf->num_values) {
@@ -733,6 +736,11 @@ public:
     }
 
     void decrement() {
+      if (!m_leaf) { // end(), step back to the last entry
+        auto leaf = m_bt->get_last_leaf();
+        *this = {m_bt, leaf, leaf ? leaf->num_values : 1};
+      }
+
       m_curslot--;
 
       while (m_leaf && m_curslot < 0) {
-- 
2.43.0


From e2ce9664c0f839cba2f603f3d52bde4783dfedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:54 +0000
Subject: [PATCH 05/38] fix: btree::map never destroys erased keys and values

remove() only drops the slot; the node's destructor walked the live slots, so
every erased key and value leaked.
---
 include/indexes/btree/map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 19ce2aa..8af6086 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -119,8 +119,13 @@ private:
         : node_t(NType, sizeof(inherited_node_t), height, lowkey, highkey) {}
 
     inline ~inherited_node_t() {
-      for (int slot = IsInner() ? 1 : 0; slot < this->num_values; slot++) {
-        get_key_value(slot)->~key_value_t();
+      // Erased entries are still constructed, their keys may yet be used to
+      // find the parent.
+      int end = Traits::NODE_SIZE - (IsInner() ? sizeof(value_t) : 0);
+
+      for (int offset = this->last_value_offset; offset < end;
+           offset += sizeof(key_value_t)) {
+        get_key_value_for_offset(offset)->~key_value_t();
       }
     }
 
-- 
2.43.0


From 3672e0d4dc02a2fda6265a41ca98ec486296e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 06/38] fix: btree::map never merges the leftmost child, memory
 grows without bound

An underfull node was merged only with its left sibling, so a leftmost child
stayed, however empty. Filling and draining fresh key ranges left more empty
leaves behind every time: 3000 rounds of 300 random keys left an empty map of
5145 leaves and height 8. Merge with the right sibling when the left one is
missing or too full.
---
 include/indexes/btree/map.h | 52 +++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 8af6086..bc90112 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -488,48 +488,44 @@ private:
     return parent;
   }
 
-  struct MergeInfo {
-    const Key &merge_key;
-    int sibilingpos;
-  };
-
+  // Merges the children of `parent` at `pos` and `pos + 1`, if they fit in one
+  // node.
   template <typename Node>
-  std::optional<MergeInfo> get_merge_info(const Node *node,
-                                          const inner_node_t *parent) const {
-    if (parent == nullptr)
-      return std::nullopt;
+  bool merge_siblings(inner_node_t *parent, int pos) {
+    Node *left = static_cast<Node *>(parent->get_child(pos));
+    Node *right = static_cast<Node *>(parent->get_child(pos + 1));
+    Node *mergednode = left->merge(right, parent->get_key(pos + 1));
 
-    int pos = parent->search_inner(node->get_first_key());
+    if (!mergednode)
+      return false;
 
-    if (pos == 0)
-      return std::nullopt;
+    parent->update(pos, mergednode);
 
-    BTREE_DEBUG_ASSERT(parent->get_child(pos) == node);
+    remove_from_node(parent, pos + 1);
+
+    BTREE_UPDATE_STAT_NODE_BASED(merge);
 
-    return MergeInfo{parent->get_key_value(pos)->first, pos - 1};
+    node_t::free(right);
+    node_t::free(left);
+
+    return true;
   }
 
   template <typename Node> void merge_node(Node *node) {
     inner_node_t *parent = find_parent(node);
-    std::optional<MergeInfo> mergeinfo = get_merge_info(node, parent);
 
-    if (mergeinfo) {
-      const Key &merge_key = mergeinfo->merge_key;
-      int sibilingpos = mergeinfo->sibilingpos;
-      Node *sibiling = static_cast<Node *>(parent->get_child(sibilingpos));
-      Node *mergednode = sibiling->merge(node, merge_key);
+    if (parent == nullptr)
+      return;
 
-      if (mergednode) {
-        parent->update(sibilingpos, mergednode);
+    int pos = parent->search_inner(node->get_first_key());
 
-        remove_from_node(parent, sibilingpos + 1);
+    BTREE_DEBUG_ASSERT(parent->get_child(pos) == node);
 
-        BTREE_UPDATE_STAT_NODE_BASED(merge);
+    if (pos > 0 && merge_siblings<Node>(parent, pos - 1))
+      return;
 
-        node_t::free(node);
-        node_t::free(sibiling);
-      }
-    }
+    if (pos + 1 < parent->num_values)
+      merge_siblings<Node>(parent, pos);
   }
 
   template <typename Node> void remove_from_node(Node *node, int pos) {
-- 
2.43.0


From d5cb04164646a4e09bbb55f7dd3559823536891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 07/38] fix: enter_epoch may access shared objects before its
 epoch is visible

---
 include/indexes/utils/EpochManager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 352397a..5381e36 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -45,8 +45,10 @@ public:
     auto &pd = m_local_epoch[ThreadRegistry::ThreadID()];
 
     if (pd.nested_level == 0) {
-      pd.epoch.store(now(), std::memory_order_release);
-      std::atomic_thread_fence(std::memory_order_acquire);
+      // The epoch must be visible to reclaiming threads, before any shared
+      // object is accessed. So store -> load reordering has to be prevented.
+      pd.epoch.store(now(), std::memory_order_seq_cst);
+      std::atomic_thread_fence(std::memory_order_seq_cst);
     }
     pd.nested_level++;
   }
-- 
2.43.0


From 56286f3ae69987013febce8c653624d750a0813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 08/38] fix: minimum used epoch is re-read after the thread
 holding it has left

---
 include/indexes/utils/EpochManager.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 5381e36..45227c8 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -191,13 +191,15 @@ private:
   }
 
   epoch_t get_min_used_epoch() {
-    return std::min_element(std::begin(m_local_epoch),
-                            std::begin(m_local_epoch) +
-                                ThreadRegistry::MaxThreadID() + 1,
-                            [](const auto &a, const auto &b) {
-                              return a.epoch.load() < b.epoch.load();
-                            })
-        ->epoch;
+    epoch_t min_used_epoch = QUIESCENT_STATE;
+    auto end =
+        std::begin(m_local_epoch) + ThreadRegistry::MaxThreadID() + 1;
+
+    // Epoch of a thread can change anytime, so has to be read only once.
+    for (auto pd = std::begin(m_local_epoch); pd != end; ++pd)
+      min_used_epoch = std::min(min_used_epoch, pd->epoch.load());
+
+    return min_used_epoch;
   }
 
   void retire(std::function<void(ReclaimedPtrType object)> reclaimer,
-- 
2.43.0


From 8c6e42b1acd2325171731c3a6b0ab9f17526d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 09/38] fix: reclaim_all races with threads retiring objects

---
 include/indexes/utils/EpochManager.h | 63 +++++++++++++++++-----------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 45227c8..00d9301 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -111,15 +111,12 @@ public:
   // A long running thread using an epoch could prevent
   // reclaimation of objects visible to that thread.
   size_t do_reclaim() {
-    return reclaim_in_retire_list(m_retire_list[ThreadRegistry::ThreadID()],
-                                  get_min_used_epoch());
+    return reclaim_in_retire_list(m_retire_list[ThreadRegistry::ThreadID()]);
   }
 
   void reclaim_all() {
-    epoch_t min_used_epoch = get_min_used_epoch();
-
     for (auto &retire_list : m_retire_list) {
-      reclaim_in_retire_list(retire_list, min_used_epoch);
+      reclaim_in_retire_list(retire_list);
     }
   }
 
@@ -167,27 +164,38 @@ private:
     std::function<void(ReclaimedPtrType object)> m_reclaimer;
   };
 
-  static size_t reclaim_in_retire_list(std::deque<Retiree> &retire_list,
-                                       epoch_t min_used_epoch) {
-    auto begin = std::begin(retire_list);
-    auto reclaim_upto = begin;
+  // `reclaim_all` accesses retire lists of other threads.
+  struct RetireList {
+    std::mutex mutex;
+    std::deque<Retiree> retirees;
+  };
 
-    for (auto &retiree : retire_list) {
-      if (!retiree.can_reclaim(min_used_epoch))
-        break;
+  size_t reclaim_in_retire_list(RetireList &retire_list) {
+    std::deque<Retiree> reclaimable;
+    size_t num_retired;
 
-      retiree.reclaim();
-      reclaim_upto++;
-    }
+    {
+      std::lock_guard<std::mutex> lock{retire_list.mutex};
+      auto &retirees = retire_list.retirees;
+      // Must be calculated only after all the objects in the list are retired.
+      epoch_t min_used_epoch = get_min_used_epoch();
+
+      while (!retirees.empty() &&
+             retirees.front().can_reclaim(min_used_epoch)) {
+        reclaimable.push_back(std::move(retirees.front()));
+        retirees.pop_front();
+      }
 
-    size_t num_reclaimed = reclaim_upto - begin;
+      if (!reclaimable.empty())
+        retirees.shrink_to_fit();
 
-    if (num_reclaimed) {
-      retire_list.erase(begin, reclaim_upto);
-      retire_list.shrink_to_fit();
+      num_retired = retirees.size();
     }
 
-    return retire_list.size();
+    for (auto &retiree : reclaimable)
+      retiree.reclaim();
+
+    return num_retired;
   }
 
   epoch_t get_min_used_epoch() {
@@ -205,11 +213,18 @@ private:
   void retire(std::function<void(ReclaimedPtrType object)> reclaimer,
               gsl::span<ReclaimedPtrType> objects, epoch_t retired_epoch) {
     auto &retire_list = m_retire_list[ThreadRegistry::ThreadID()];
+    size_t num_retired;
+
+    {
+      std::lock_guard<std::mutex> lock{retire_list.mutex};
 
-    for (auto object : objects)
-      retire_list.emplace_back(object, reclaimer, retired_epoch);
+      for (auto object : objects)
+        retire_list.retirees.emplace_back(object, reclaimer, retired_epoch);
+
+      num_retired = retire_list.retirees.size();
+    }
 
-    if (static_cast<int>(retire_list.size()) >= m_reclaimation_threshold)
+    if (static_cast<int>(num_retired) >= m_reclaimation_threshold)
       do_reclaim();
   }
 
@@ -233,6 +248,6 @@ private:
   std::vector<PrivateData> m_local_epoch;
 
   // Thread local retire list. Accessed using `slot` by each thread.
-  std::vector<std::deque<Retiree>> m_retire_list;
+  std::vector<RetireList> m_retire_list;
 };
 } // namespace indexes::utils
-- 
2.43.0


From 403af613aa58d64f56d6c4878e0815dc3fa7804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 10/38] fix: concurrent inserts into one hashtable chain lose
 or duplicate keys

---
 include/indexes/hashtable/concurrent_map.h | 25 +++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d9dd299..fad656b 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -135,6 +135,9 @@ private:
       std::atomic<typename Traits::LinkType> first;
       std::atomic<typename Traits::LinkType> next;
       sync_prim::mutex::Mutex m;
+      // Serializes inserts into the chain starting at `first`.
+      // Acquired before `m` of any bucket.
+      sync_prim::mutex::Mutex chain_m;
     };
 
     size_t num_buckets;
@@ -282,6 +285,7 @@ private:
 
     struct InsertSearchResult {
       InsertResult res;
+      MutexLock chain_lock;
       MutexLock lock;
       typename Traits::LinkType bucket_link;
       SearchResult sres;
@@ -292,14 +296,25 @@ private:
       SearchResult sres;
 
       while (true) {
+        MutexLock chain_lock;
+
         std::tie(found, sres) = search(key);
 
+        if (!found) {
+          chain_lock = MutexLock{link[get_ideal_bucket(sres.hash)].chain_m};
+          // Key could have been inserted before chain is locked
+          std::tie(found, sres) = search(key);
+        }
+
         if (found) {
           MutexLock lock{link[sres.bucket].m};
 
           if (buckets[sres.bucket].has_value()) {
-            return {InsertResult::InsertResult_AlreadyPresent, std::move(lock),
-                    0, sres};
+            return {InsertResult::InsertResult_AlreadyPresent,
+                    {},
+                    std::move(lock),
+                    0,
+                    sres};
           } else {
             continue;
           }
@@ -313,13 +328,13 @@ private:
           if (buckets[sres.bucket].is_free()) {
             increment_num_values();
 
-            return {InsertResult::InsertResult_New, std::move(lock),
-                    *bucket_link, sres};
+            return {InsertResult::InsertResult_New, std::move(chain_lock),
+                    std::move(lock), *bucket_link, sres};
           } else {
             continue;
           }
         } else {
-          return {InsertResult::InsertResult_Overflow, {}, 0, sres};
+          return {InsertResult::InsertResult_Overflow, {}, {}, 0, sres};
         }
       };
     }
-- 
2.43.0


From 18d816b87a96b1520f7d212b700aa23046909005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 11/38] fix: hashtable updates are lost in a table already
 migrated

---
 include/indexes/hashtable/concurrent_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index fad656b..31298c4 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -397,6 +397,11 @@ private:
     return true;
   }
 
+  // Is the table, whose bucket is locked by caller, migrated (being) to another?
+  bool is_stale(const HashTable &table) const {
+    return is_migration_in_progress || ht.load() != &table;
+  }
+
   void wait_for_migration_to_end() {
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
@@ -458,7 +463,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_stale(ht)) {
         if (ires.lock)
           ires.lock.unlock();
 
@@ -490,7 +495,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_stale(ht)) {
         if (ires.lock)
           ires.lock.unlock();
 
@@ -528,7 +533,7 @@ public:
       if (found) {
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_stale(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
@@ -557,7 +562,7 @@ public:
 
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_stale(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
-- 
2.43.0


From 8db3566f1065c63f98644ba50e8580c492e4ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 12/38] fix: hashtable counts an insert again when retried
 after migration

---
 include/indexes/hashtable/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 31298c4..9f092dd 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -326,8 +326,6 @@ private:
           MutexLock lock{link[sres.bucket].m};
 
           if (buckets[sres.bucket].is_free()) {
-            increment_num_values();
-
             return {InsertResult::InsertResult_New, std::move(chain_lock),
                     std::move(lock), *bucket_link, sres};
           } else {
@@ -362,6 +360,7 @@ private:
                                      const mapped_type &val) {
     ht.buckets[sres.bucket].emplace(sres.hash, key, val);
     sres.link->store(bucket_link, std::memory_order_release);
+    ht.increment_num_values();
   }
 
   bool try_migrate_table(size_t new_num_buckets) {
-- 
2.43.0


From dd54ef5a1393c3b1d460a2696abe6953b2a84ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 13/38] fix: hashtable Search reads a value while it is being
 exchanged

---
 include/indexes/hashtable/concurrent_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 9f092dd..8849682 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -450,8 +450,13 @@ public:
     auto [found, sres] = ht.search(key);
     std::optional<mapped_type> val{std::nullopt};
 
-    if (found)
-      val = ht.buckets[sres.bucket].key_value.second;
+    if (found) {
+      // Value can be exchanged concurrently
+      typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
+
+      if (ht.buckets[sres.bucket].has_value())
+        val = ht.buckets[sres.bucket].key_value.second;
+    }
 
     return val;
   }
-- 
2.43.0


From 3c3867b8cdf972d84be26a88bf5369329c6db030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 14/38] fix: hashtable retires deleted buckets, which die with
 their table, and never destroys them

---
 include/indexes/hashtable/concurrent_map.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 8849682..ec85902 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -118,8 +118,10 @@ private:
         return this->hash == hash && key_value.first == key;
       }
 
+      // Deleted key and value are destroyed along with the table, since
+      // concurrent searches can still access the key.
       void destroy() {
-        if (has_value())
+        if (!is_free())
           key_value.~KeyValuePair();
       }
 
@@ -577,13 +579,6 @@ public:
 
           bucket.mark_as_empty();
           ht.increment_num_tomb_stones();
-
-          m_gc.retire_in_new_epoch(
-              [&](void *ptr) {
-                reinterpret_cast<typename HashTable::HashBucket *>(ptr)
-                    ->destroy();
-              },
-              reinterpret_cast<void *>(&bucket));
         } else {
           continue;
         }
-- 
2.43.0


From 5217face7f96a6c7e0e46f391a407c1d20cf1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 15/38] fix: hashtable leaks its table, and tables abandoned
 during migration

---
 include/indexes/hashtable/concurrent_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index ec85902..fd675b8 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -366,7 +366,7 @@ private:
   }
 
   bool try_migrate_table(size_t new_num_buckets) {
-    auto *new_ht = new HashTable{new_num_buckets};
+    auto new_ht = std::make_unique<HashTable>(new_num_buckets);
     auto *old_ht = ht.load();
     size_t old_num_buckets = old_ht->num_buckets;
 
@@ -390,7 +390,7 @@ private:
       }
     }
 
-    ht.store(new_ht);
+    ht.store(new_ht.release());
     m_gc.retire_in_new_epoch(
         [&](void *ptr) { delete reinterpret_cast<HashTable *>(ptr); },
         reinterpret_cast<void *>(old_ht));
@@ -444,6 +444,11 @@ public:
     o_map.ht.store(nullptr);
   }
 
+  ~concurrent_map() {
+    reclaim_all();
+    delete ht.load();
+  }
+
   void reserve(size_t num_values) { migrate_table(num_values * 2); }
 
   std::optional<mapped_type> Search(const key_type &key) {
-- 
2.43.0


From 39beb0a540165917f527aa3c3e460bc2e420d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 16/38] fix: hashtable size() and load_factor() access a table
 that may be reclaimed

---
 include/indexes/hashtable/concurrent_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index fd675b8..1764d9b 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -345,12 +345,12 @@ private:
   sync_prim::mutex::Mutex migration_mutex;
   std::atomic<int> num_migrations;
 
-  indexes::utils::EpochManager<uint64_t, void> m_gc;
+  mutable indexes::utils::EpochManager<uint64_t, void> m_gc;
 
   struct EpochGuard {
-    concurrent_map *map;
+    const concurrent_map *map;
 
-    EpochGuard(concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
+    EpochGuard(const concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
 
     ~EpochGuard() { map->m_gc.exit_epoch(); }
   };
@@ -594,6 +594,8 @@ public:
   }
 
   size_t size() const {
+    EpochGuard eg{this};
+
     std::atomic_thread_fence(std::memory_order_seq_cst);
 
     auto [num_values, num_tomb_stones] = ht.load()->get_stats();
@@ -602,6 +604,7 @@ public:
   }
 
   int load_factor() const {
+    EpochGuard eg{this};
     HashTable &ht = *this->ht.load();
     auto [num_values, num_tomb_stones] = ht.get_stats();
 
-- 
2.43.0


From dcff0cee9cae50073a907bbadeda7f64578fc8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 17/38] fix: hashtable migrates forever when keys of a sparse
 table are hashed together

---
 include/indexes/hashtable/concurrent_map.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 1764d9b..4b8a970 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -34,10 +34,11 @@ namespace indexes::hashtable {
 struct hashtable_traits_default {
   static constexpr bool DEBUG = false;
 
-  using LinkType = uint8_t;
+  using LinkType = uint32_t;
 
+  // Number of buckets searched for a free one, unless the table is sparse.
   static constexpr LinkType LINEAR_SEARCH_LIMIT =
-      std::numeric_limits<LinkType>::max();
+      std::numeric_limits<uint8_t>::max();
 };
 
 struct hashtable_traits_debug : hashtable_traits_default {
@@ -207,6 +208,8 @@ private:
       return {num_values, num_tomb_stones};
     }
 
+    bool is_sparse() const { return get_stats().first * 2 <= num_buckets; }
+
     void init_buckets() {
       std::for_each(buckets, buckets + num_buckets, [](auto &bucket) {
         bucket.hash.store(HashBucket::EMPTY_HASH, std::memory_order_relaxed);
@@ -267,9 +270,15 @@ private:
     get_bucket_to_insert(SearchResult sres) const {
       size_t bucket = sres.bucket;
 
-      for (size_t link = 0;
-           link <= Traits::LINEAR_SEARCH_LIMIT && link < num_buckets;
+      constexpr size_t max_link =
+          std::numeric_limits<typename Traits::LinkType>::max();
+
+      for (size_t link = 0; link <= max_link && link < num_buckets;
            link++, bucket = add_bucket_circular(sres.bucket, link)) {
+        // Growing a sparse table doesn't make room for keys hashed together
+        if (link == size_t{Traits::LINEAR_SEARCH_LIMIT} + 1 && !is_sparse())
+          break;
+
         if (buckets[bucket].is_free())
           return {link};
       }
-- 
2.43.0


From c376fa2dd74763578ccec88677a7d110d3a24cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 18/38] fix: art::map loses a node with compressed prefix when
 it grows

---
 include/indexes/art/map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 5588a75..0a13ea0 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -612,7 +612,8 @@ private:
         parent->add(node, ind);
 
         if (grand_parent)
-          grand_parent->update(parent, node_t::get_ind(node->key, depth - 1));
+          grand_parent->update(
+              parent, node_t::get_ind(node->key, depth - old->keylen));
         else
           root = parent;
 
-- 
2.43.0


From ec604f6a84f808db1eea4c931a97f8334625f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 19/38] fix: art::concurrent_map is unusable after having been
 moved to

---
 include/indexes/art/concurrent_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 127e711..d34d095 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1169,8 +1169,8 @@ public:
   concurrent_map(const concurrent_map &) = delete;
 
   concurrent_map(concurrent_map &&other)
-      : root(other.root.exchange(nullptr)),
-        count(std::exchange(other.count, nullptr)) {}
+      : root_mtx(std::make_unique<sync_prim::mutex::Mutex>()),
+        root(other.root.exchange(nullptr)), count(std::exchange(other.count, nullptr)) {}
 
   std::optional<value_type> Search(key_type key) const {
     EpochGuard eg{this};
-- 
2.43.0


From 4b75305443e70556446529302d5d2252efbccc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 20/38] fix: art::concurrent_map changes nodes already removed

---
 include/indexes/art/concurrent_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index d34d095..07061c1 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -765,6 +765,8 @@ private:
   };
 
   struct node_snapshot_t {
+    static constexpr version_t DEAD_VERSION = node_t::DEAD_VERSION;
+
     node_t *node;
     version_t version;
 
@@ -781,7 +783,8 @@ private:
     LockType lock() {
       LockType lock{node->m};
 
-      if (load_rx(node->version) != version) {
+      // A snapshot taken of a dead node never becomes valid
+      if (version == DEAD_VERSION || load_rx(node->version) != version) {
         lock.unlock();
       }
 
-- 
2.43.0


From 46f23cb302440114c5c08a41b3ef9ddc3c69ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 21/38] fix: art::concurrent_map loses updates of a key being
 deleted

---
 include/indexes/art/concurrent_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 07061c1..e1a3823 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -913,11 +913,13 @@ private:
 
     std::optional<value_type> remove_leaf(leaf_t *leaf, node_snapshot_t &node,
                                           node_snapshot_t &parent) {
-      value_type oldval = leaf->value;
+      std::optional<value_type> oldval;
 
       is_snapshot_stale = true;
 
       if (auto lock = node.lock()) {
+        oldval = leaf->value;
+
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
@@ -927,6 +929,7 @@ private:
         } else {
           if (auto lock = root_snapshot.lock_root(map)) {
             map.root = nullptr;
+            leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
         }
-- 
2.43.0


From 6e29560bc761858ea766e473391b015fc0529d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 22/38] fix: art::concurrent_map leaks a leaf when insert is
 retried

---
 include/indexes/art/concurrent_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index e1a3823..bd5c74e 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1074,7 +1074,10 @@ private:
       }
 
       if constexpr (UOp != UpdateOp::UOP_Update) {
-        if (!add_to_parent(new leaf_t(key, value), parent, grand_parent)) {
+        auto leaf = new leaf_t(key, value);
+
+        if (!add_to_parent(leaf, parent, grand_parent)) {
+          delete leaf;
           is_snapshot_stale = true;
         }
       }
-- 
2.43.0


From 4fe22ab41989e35b7ecc26d171748bc1761a98f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 23/38] fix: art::concurrent_map reads a value while it is
 being updated

---
 include/indexes/art/concurrent_map.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index bd5c74e..985f908 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -9,6 +9,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 
 namespace indexes::art {
 template <typename Value, typename Traits = art_traits_default>
@@ -392,6 +393,13 @@ private:
         : node_t(node_type_t::LEAF, key, KEYTYPE_SIZE), value(a_value) {}
   };
 
+  // Value of a leaf can be exchanged concurrently
+  static value_type read_leaf(leaf_t *leaf) {
+    std::lock_guard<sync_prim::mutex::Mutex> lock{leaf->m};
+
+    return leaf->value;
+  }
+
   using atomic_key_t = std::atomic<std::uint8_t>;
   using atomic_node_t = std::atomic<node_t *>;
 
@@ -827,9 +835,11 @@ private:
         } else {
           is_snapshot_stale = true;
         }
-      }
 
-      return leaf->value;
+        return {};
+      } else {
+        return read_leaf(leaf);
+      }
     }
 
     bool replace_root(node_t *node) {
@@ -1189,9 +1199,9 @@ public:
 
     while (node) {
       if (node->is_leaf()) {
-        auto leaf = static_cast<const leaf_t *>(node);
+        auto leaf = static_cast<leaf_t *>(node);
         if (leaf->key == key) {
-          return leaf->value;
+          return read_leaf(leaf);
         }
 
         break;
-- 
2.43.0


From 9fa45ce99c86fa72d5269694ad0bda1dd74f5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 24/38] fix: art::concurrent_map never shrinks or removes
 nodes, memory grows without bound

---
 include/indexes/art/concurrent_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 985f908..9c5bf87 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -902,8 +902,10 @@ private:
             }
           }
 
+          child_lock.unlock();
+
           if (node->node_type != node_type_t::NODE4) {
-            delete replacement;
+            node_t::free(replacement);
           }
         } else {
           if (parent) {
@@ -933,6 +935,7 @@ private:
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
+            parent.load_snapshot(parent.node);
             leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
-- 
2.43.0


From 6415f3bdaa19d3b09ce4f058a2879e5f0759a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 25/38] hook: default reclamation threshold can be set with
 INDEXES_VERIFY_RECLAMATION_THRESHOLD

---
 include/indexes/utils/EpochManager.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 00d9301..ba52b15 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -17,8 +17,15 @@
 #include <gsl/gsl>
 
 namespace indexes::utils {
+#ifdef INDEXES_VERIFY_RECLAMATION_THRESHOLD
+// Verification hook: makes every index reclaim as often as wanted.
+template <typename epoch_t, typename ReclaimedType,
+          int ReclamationThreshold = INDEXES_VERIFY_RECLAMATION_THRESHOLD,
+          typename Enable = void>
+#else
 template <typename epoch_t, typename ReclaimedType,
           int ReclamationThreshold = 1000, typename Enable = void>
+#endif
 class EpochManager;
 
 // Provides support for epoch based reclaimation.
-- 
2.43.0


From 6ea86acf5b0cbd27ce8137b3f1a3015d9fe86810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:57 +0000
Subject: [PATCH 26/38] fix: ranges of btree::concurrent_map keep a reference
 to their bound

The bound at which a range ends was kept by reference, dangling for bounds
given as temporaries.  Types of both the ends were swapped, so that ranges
bounded by keys of different types did not compile.
---
 include/indexes/btree/concurrent_map.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 85612ac..94ad1a7 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2138,9 +2138,9 @@ protected:
     using minkey_type = typename MinkeyOps::cmp_key_type;
     using maxkey_type = typename MaxkeyOps::cmp_key_type;
     using endkey_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                           minkey_type, maxkey_type>;
+                                           maxkey_type, minkey_type>;
     using endkey_ops_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                               MinkeyOps, MaxkeyOps>;
+                                               MaxkeyOps, MinkeyOps>;
     using iterator = iterator_impl<IDir>;
 
     range_iterator(const concurrent_map_iter *map, DefOps defops,
@@ -2174,13 +2174,12 @@ protected:
         return min_ops;
     }
 
-    template <typename MinkeyType, typename MaxkeyType>
-    static auto get_end_key(const MinkeyType &min_key,
-                            const MaxkeyType &max_key) {
+    static const endkey_type &get_end_key(const minkey_type &min_key,
+                                          const maxkey_type &max_key) {
       if constexpr (IDir == iter_direction::FORWARD)
-        return std::cref(max_key);
+        return max_key;
       else
-        return std::cref(min_key);
+        return min_key;
     }
 
     bool need_trav(const key_type &key) const noexcept {
@@ -2312,7 +2311,11 @@ protected:
     const MinkeyOps m_min_ops;
     const MaxkeyOps m_max_ops;
     const endkey_ops_type m_endkey_ops;
-    const endkey_type &m_endkey;
+    // Bounds may be gone by the time the range is walked, so has to be copied.
+    // Arrays (string literals) cannot be.
+    std::conditional_t<std::is_array_v<endkey_type>, const endkey_type &,
+                       const endkey_type>
+        m_endkey;
     std::optional<iterator> m_it;
   };
 
-- 
2.43.0


From 3e3cc1167e79f67377cdca3ddb9944cf2b85b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:57 +0000
Subject: [PATCH 27/38] fix: begin() and rbegin() of an emptied
 btree::concurrent_map throw

The root leaf has neither low nor high key.
---
 include/indexes/btree/concurrent_map.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 94ad1a7..90626d5 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2352,9 +2352,12 @@ protected:
       eg.refresh();
     } while (leaf);
 
-    if (leaf && slots.empty())
-      std::tie(leaf, pos) =
-          ops.get_next_leaf(this, leaf->highkey.value(), slots);
+    if (leaf && slots.empty()) {
+      if (leaf->highkey)
+        std::tie(leaf, pos) = ops.get_next_leaf(this, *leaf->highkey, slots);
+      else
+        leaf = nullptr;
+    }
 
     return leaf ? const_iterator{ops,
                                  this,
@@ -2395,8 +2398,10 @@ protected:
     } while (leaf);
 
     if (leaf && slots.empty()) {
-      std::tie(leaf, pos) =
-          ops.get_prev_leaf(this, leaf->lowkey.value(), slots);
+      if (leaf->lowkey)
+        std::tie(leaf, pos) = ops.get_prev_leaf(this, *leaf->lowkey, slots);
+      else
+        leaf = nullptr;
     } else {
       pos = slots.size() - 1;
     }
-- 
2.43.0


From 15d343e5073453f285316c9c9756cc9c6ec623d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:57 +0000
Subject: [PATCH 28/38] fix: reverse iteration of btree::concurrent_map skips a
 key

When the key stepped back from is in the leaf, one entry too many was
skipped.
---
 include/indexes/btree/concurrent_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 90626d5..5ddfd7c 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1076,9 +1076,9 @@ protected:
 
     int get_slots_less_than(const leaf_node_t *leaf, const key_type &key,
                             std::vector<int> &slot_offsets) const noexcept {
-      auto [pos, found, num_values] = lower_bound(leaf, key);
+      auto num_values = detail::load_acquire(leaf->num_values);
+      auto pos = lower_bound_pos(leaf, key, num_values);
 
-      pos = found ? pos - 1 : pos;
       leaf_node_t::get_all_slots(slot_offsets, leaf->get_slots(), num_values);
       return pos - 1;
     }
-- 
2.43.0


From 52e339f145016725527d8ad37748e7497e2a608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:57 +0000
Subject: [PATCH 29/38] fix: reverse ranges of btree::concurrent_map above the
 last key are empty

A reverse range, whose upper bound is greater than every key, was taken to be
empty, though the keys below the bound are in the range.
---
 include/indexes/btree/concurrent_map.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 5ddfd7c..f216d94 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2289,16 +2289,19 @@ protected:
     std::optional<iterator> get_reverse_iter(const concurrent_map_iter *map,
                                              const MinkeyType &min_key,
                                              const MaxkeyType &max_key) {
-      auto it = map->lower_bound(max_key, m_max_ops, m_defops);
-
-      if (it.m_leaf == nullptr)
-        return {};
-
-      if (m_max_ops.equal(it->first, max_key)) {
-        if constexpr (RRKind == range_kind::EXCLUSIVE)
-          --it;
-      } else {
-        --it;
+      auto lower = map->lower_bound(max_key, m_max_ops, m_defops);
+      // All the keys are below max_key, when there is no lower bound.
+      iterator it = lower.m_leaf ? iterator{lower} : map->crbegin(m_defops);
+
+      while (it.m_leaf != nullptr) {
+        if constexpr (RRKind == range_kind::EXCLUSIVE) {
+          if (m_max_ops.less(it->first, max_key))
+            break;
+        } else {
+          if (!m_max_ops.less(max_key, it->first))
+            break;
+        }
+        ++it;
       }
 
       if (it.m_leaf != nullptr)
-- 
2.43.0


From 5c63748a4855a66dabdb2ba46f37096db4dbd336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 30/38] fix: btree::concurrent_map unlocks the mutex of no node
 while the root changes

An optimistic reader which finds the root locked for long waits for the root
mutex, and then unlocked the mutex of a null node: a crash, and the root mutex
stayed locked.
---
 include/indexes/btree/concurrent_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index f216d94..eed356a 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -673,8 +673,12 @@ protected:
         BTREE_UPDATE_STAT(optimistic_fail, ++);
         try_lock_pessimistic(node, state);
 
-        if (!state.is_deleted())
-          node->mutex.unlock();
+        if (!state.is_deleted()) {
+          if (node)
+            node->mutex.unlock();
+          else
+            this->m_root_mutex->unlock();
+        }
       }
     } else {
       try_lock_pessimistic(node, state);
-- 
2.43.0


From e8db889b77e52f0c7829548c8fddf74d623791fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 31/38] fix: stats() of btree::concurrent_map does not compile

---
 include/indexes/btree/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index eed356a..5a833a3 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2768,7 +2768,7 @@ public:
   }
 
   template <ENABLE_IF(Traits::STAT)> inline const Stats &stats() const {
-    return this->m_stats;
+    return *this->m_stats;
   }
 
   ~concurrent_map() {
-- 
2.43.0


From 76a0db64d48ec5d15999eae7fd8cb8496ee75f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 32/38] fix: height() of btree::concurrent_map counts every
 change of the root

Creating and trimming the root do not make the tree deeper.
---
 include/indexes/btree/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 5a833a3..c97545b 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -797,8 +797,6 @@ protected:
                           detail::load_relaxed(this->m_root_state)
                               .reset_locked()
                               .increment_version());
-    detail::store_release(this->m_height,
-                          detail::load_relaxed(this->m_height) + 1);
   }
 
   // Root mutex must be held
@@ -809,6 +807,7 @@ protected:
     new_root->insert_neg_infinity(splitinfo.left);
     new_root->append(*splitinfo.split_key, splitinfo.right);
     store_root(new_root);
+    detail::store_release(this->m_height, new_root->height);
   }
 
   inline bool update_root(nodestate_t rootstate, node_t *new_root) {
-- 
2.43.0


From 3fcbc7f2f6df7aafd1a318c293b88983c9c8c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 33/38] fix: btree::concurrent_map never destroys erased keys
 and values

---
 include/indexes/btree/concurrent_map.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index c97545b..b20ee00 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -268,9 +268,14 @@ protected:
         : node_t(NType, sizeof(inherited_node_t), height, lowkey, highkey) {}
 
     inline ~inherited_node_t() {
-      auto num_values = detail::load_relaxed(this->num_values);
-      for (int slot = IsInner() ? 1 : 0; slot < num_values; slot++) {
-        get_key_value(slot)->~key_value_t();
+      // Erased pairs stay constructed, for concurrent readers.
+      // Inner node's negative infinity, which is the first one, has no key.
+      int end_offset =
+          Traits::NODE_SIZE - (IsInner() ? sizeof(key_value_t) : 0);
+
+      for (int offset = this->last_value_offset; offset < end_offset;
+           offset += sizeof(key_value_t)) {
+        get_key_value_for_offset(offset)->~key_value_t();
       }
     }
 
-- 
2.43.0


From 6da77c607aec770cbfcf4cce1789f3a600048c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 34/38] fix: btree::concurrent_map leaks the nodes still
 retired when it is destroyed

---
 include/indexes/btree/concurrent_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index b20ee00..10783a2 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2778,6 +2778,8 @@ public:
   ~concurrent_map() {
     std::deque<node_t *> nodes;
 
+    this->m_gc.reclaim_all();
+
     if (this->m_root)
       nodes.emplace_back(this->m_root);
 
-- 
2.43.0


From be8125a0faaa9700a9b3b1c3357adb7854d29c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 35/38] fix: values of btree::concurrent_map are read while
 they are being replaced

Search copied a value, and iterators give access to it, while an update
assigned to it: torn values, and use after free with values owning memory.
Values which cannot be assigned in one piece are now replaced by a new pair.
---
 include/indexes/btree/concurrent_map.h | 91 +++++++++++++++++++-------
 1 file changed, 69 insertions(+), 22 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 10783a2..1737a47 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -465,6 +465,40 @@ protected:
       return InsertStatus::OVFLOW;
     }
 
+    // Concurrent readers look at the values of reachable nodes, so only values
+    // assigned in one piece can be replaced in place.
+    static constexpr bool can_update_in_place() {
+      if constexpr (std::is_trivially_copyable_v<value_t>)
+        return std::atomic<value_t>::is_always_lock_free;
+      else
+        return false;
+    }
+
+    // Must be called with this's mutex held
+    LEAF_ONLY
+    inline InsertStatus update_value(int pos, const value_t &val) {
+      key_value_t *old = get_key_value(pos);
+
+      if constexpr (can_update_in_place()) {
+        atomic_node_update([&]() { old->second = val; });
+      } else {
+        if (!this->haveEnoughSpace())
+          return InsertStatus::OVFLOW;
+
+        int new_value_offset = this->last_value_offset - sizeof(key_value_t);
+
+        new (this->opaque() + new_value_offset) key_value_t{old->first, val};
+        this->last_value_offset = new_value_offset;
+
+        atomic_node_update([&]() {
+          detail::store_release(this->get_slots()[pos], new_value_offset);
+        });
+        this->incrementNumDeadValues();
+      }
+
+      return InsertStatus::DUPLICATE;
+    }
+
     // Must not be called on a reachable node
     inline void copy_from(const inherited_node_t *src, int start_pos,
                           int end_pos) {
@@ -1308,12 +1342,9 @@ protected:
         std::tie(pos, key_present, std::ignore) = this->lower_bound(leaf, key);
 
         if (key_present) {
-          auto oldval_ptr = &leaf->get_key_value(pos)->second;
-
-          oldval = *oldval_ptr;
-          leaf->atomic_node_update([&]() { *oldval_ptr = val; });
+          oldval = leaf->get_key_value(pos)->second;
 
-          return {InsertStatus::DUPLICATE, oldval};
+          return {leaf->update_value(pos, val), oldval};
         }
       }
 
@@ -1343,22 +1374,18 @@ protected:
     }
 
     // Must be called with node's mutex held
-    inline std::optional<mapped_type>
+    inline std::pair<InsertStatus, std::optional<mapped_type>>
     update_leaf(leaf_node_t *leaf, const key_type &key,
                 const mapped_type &new_value) const noexcept {
       std::optional<mapped_type> old_value = std::nullopt;
       auto [pos, found, _] = this->lower_bound(leaf, key);
 
-      if (found) {
-        auto oldval_ptr = &leaf->get_key_value(pos)->second;
+      if (!found)
+        return {InsertStatus::DUPLICATE, old_value};
 
-        old_value = *oldval_ptr;
-        leaf->atomic_node_update([&]() { *oldval_ptr = new_value; });
-      } else {
-        return {};
-      }
+      old_value = leaf->get_key_value(pos)->second;
 
-      return old_value;
+      return {leaf->update_value(pos, new_value), old_value};
     }
 
     // Must be called with node's mutex held
@@ -1699,15 +1726,33 @@ protected:
   }
 
   inline std::pair<OpResult, std::optional<mapped_type>>
-  update_leaf(update_ops_t ops, const NodeSnapshot &leaf_snapshot,
-              const key_type &key, const mapped_type &val) {
+  update_leaf(update_ops_t ops, const NodeSnapshotVector &snapshots,
+              bool is_leaf_locked, const key_type &key,
+              const mapped_type &val) {
+    InsertStatus status;
+    std::optional<mapped_type> oldval{};
+    NodeSnapshot leaf_snapshot = snapshots.back();
     leaf_node_t *leaf = ASLEAF(leaf_snapshot.node);
-    std::lock_guard lock{leaf->mutex};
 
-    if (this->is_snapshot_stale(leaf_snapshot))
+    if (is_leaf_locked) {
+      std::tie(status, oldval) = ops.update_leaf(leaf, key, val);
+
+      leaf->mutex.unlock();
+    } else {
+      std::lock_guard lock{leaf->mutex};
+
+      if (this->is_snapshot_stale(leaf_snapshot))
+        return {OpResult::STALE_SNAPSHOT, std::nullopt};
+
+      std::tie(status, oldval) = ops.update_leaf(leaf, key, val);
+    }
+
+    if (status == InsertStatus::OVFLOW) {
+      handle_overflow(ops, snapshots, key);
       return {OpResult::STALE_SNAPSHOT, std::nullopt};
+    }
 
-    return {OpResult::SUCCESS, ops.update_leaf(leaf, key, val)};
+    return {OpResult::SUCCESS, oldval};
   }
 
   template <bool DoUpsert>
@@ -1895,14 +1940,16 @@ protected:
 
   std::optional<mapped_type> update(update_ops_t ops, const key_type &key,
                                     const mapped_type &val) {
+    NodeSnapshotVector snapshots;
+
     while (true) {
       EpochGuard eg(this);
-      NodeSnapshot leaf_snapshot = ops.get_leaf_containing(this, key);
+      bool is_leaf_locked = ops.get_leaf_containing(this, key, snapshots);
 
-      if (leaf_snapshot.node == nullptr)
+      if (snapshots.size() <= 1)
         return {};
 
-      if (auto res = update_leaf(ops, leaf_snapshot, key, val);
+      if (auto res = update_leaf(ops, snapshots, is_leaf_locked, key, val);
           res.first != OpResult::STALE_SNAPSHOT) {
         return res.second;
       }
-- 
2.43.0


From fd95a947d8a3cf25d5f8076573269d89b76bd6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 36/38] fix: btree::concurrent_map hardly ever merges inner
 nodes, memory grows without bound

The leftmost child of a node was never merged, and an inner node was not merged
after its children had been, as its snapshot was out of date by then.
---
 include/indexes/btree/concurrent_map.h | 61 ++++++++++++++------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 1737a47..088eeae 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1779,70 +1779,75 @@ protected:
 
   struct MergeInfo {
     const key_type &merge_key;
-    int sibilingpos;
+    int leftpos;
   };
 
-  template <typename Node>
-  std::optional<MergeInfo> get_merge_info(update_ops_t ops, const Node *node,
+  // Must be called with parent's mutex held
+  std::optional<MergeInfo> get_merge_info(update_ops_t ops,
                                           const inner_node_t *parent,
                                           const key_type &key) const {
-    int pos = ops.search_inner(parent, key);
+    int num_values = detail::load_relaxed(parent->num_values);
 
-    if (pos == 0)
+    if (num_values < 2)
       return {};
 
+    // Merge with the left sibling, or with the right one if there is none.
+    int pos = std::max(ops.search_inner(parent, key), 1);
+
     return MergeInfo{parent->get_key_value(pos)->first, pos - 1};
   }
 
   template <typename Node>
-  void merge_node(update_ops_t ops, int node_idx,
-                  const NodeSnapshotVector &snapshots, const key_type &key) {
+  void merge_node(update_ops_t ops, int node_idx, NodeSnapshotVector &snapshots,
+                  const key_type &key) {
     if (node_idx == 1)
       return;
 
     const NodeSnapshot &node_snapshot = snapshots[node_idx];
-    const NodeSnapshot &parent_snapshot = snapshots[node_idx - 1];
-    auto node = static_cast<Node *>(node_snapshot.node);
+    NodeSnapshot &parent_snapshot = snapshots[node_idx - 1];
     auto parent = static_cast<inner_node_t *>(parent_snapshot.node);
-    std::optional<MergeInfo> mergeinfo = get_merge_info(ops, node, parent, key);
     Node *mergednode = nullptr;
-    Node *sibiling = nullptr;
+    Node *left = nullptr;
+    Node *right = nullptr;
     bool par_und_full = false;
 
-    if (mergeinfo) {
+    {
       std::lock_guard parent_lock{parent->mutex};
 
       if (this->is_snapshot_stale(parent_snapshot))
         return;
 
-      const key_type &merge_key = mergeinfo->merge_key;
-      int sibilingpos = mergeinfo->sibilingpos;
-      sibiling = static_cast<Node *>(parent->get_child(sibilingpos));
+      if (auto mergeinfo = get_merge_info(ops, parent, key)) {
+        int leftpos = mergeinfo->leftpos;
 
-      std::lock_guard sibiling_lock{sibiling->mutex};
-      std::lock_guard node_lock{node->mutex};
+        left = static_cast<Node *>(parent->get_child(leftpos));
+        right = static_cast<Node *>(parent->get_child(leftpos + 1));
 
-      if (this->is_snapshot_stale(node_snapshot))
-        return;
+        std::lock_guard left_lock{left->mutex};
+        std::lock_guard right_lock{right->mutex};
+
+        if (this->is_snapshot_stale(node_snapshot))
+          return;
 
-      mergednode = sibiling->merge(node, merge_key);
+        mergednode = left->merge(right, mergeinfo->merge_key);
 
-      if (mergednode) {
-        BTREE_UPDATE_STAT_NODE_BASED(merge);
+        if (mergednode) {
+          BTREE_UPDATE_STAT_NODE_BASED(merge);
 
-        ops.update_inner_for_merge(parent, sibilingpos, mergednode);
+          ops.update_inner_for_merge(parent, leftpos, mergednode);
 
-        sibiling->setState(
-            sibiling->getState().set_deleted().increment_version());
-        node->setState(node->getState().set_deleted().increment_version());
+          left->setState(left->getState().set_deleted().increment_version());
+          right->setState(right->getState().set_deleted().increment_version());
+          parent_snapshot.state = parent->getState();
+        }
       }
 
       par_und_full = parent->isUnderfull();
     }
 
     if (mergednode) {
-      this->m_gc.retire_in_current_epoch(node_t::free, sibiling);
-      this->m_gc.retire_in_current_epoch(node_t::free, node);
+      this->m_gc.retire_in_current_epoch(node_t::free, left);
+      this->m_gc.retire_in_current_epoch(node_t::free, right);
       this->m_gc.switch_epoch();
     }
 
-- 
2.43.0


From ef8b9a17fd39b248b10fac5718e0846fecc9ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 37/38] fix: art::concurrent_map leaks the nodes still retired
 when it is destroyed

---
 include/indexes/art/concurrent_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 9c5bf87..ab0bf42 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1284,6 +1284,8 @@ public:
   ~concurrent_map() {
     std::deque<node_t *> children;
 
+    m_gc.reclaim_all();
+
     if (root) {
       children.push_back(root);
     }
-- 
2.43.0


From cd444b737d4290747e58f339a27dcfe761020665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 38/38] fix: btree::concurrent_map does not compile with
 BTREE_DUMP_ENABLED

---
 include/indexes/btree/btree_dump.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/btree_dump.h b/include/indexes/btree/btree_dump.h
index d84da28..ea5ebd4 100644
--- a/include/indexes/btree/btree_dump.h
+++ b/include/indexes/btree/btree_dump.h
@@ -63,10 +63,10 @@
                                                                                \
   void dump(std::ostream &ostr) const {                                        \
     std::deque<node_t *> children;                                             \
-    int current_height = m_height;                                             \
+    int current_height = this->m_height;                                       \
                                                                                \
-    if (m_root)                                                                \
-      children.push_back(m_root);                                              \
+    if (this->m_root)                                                          \
+      children.push_back(this->m_root);                                        \
                                                                                \
     while (children.size()) {                                                  \
       node_t *node = children[0];                                              \
-- 
2.43.0

